#!/usr/bin/env python3-vt
"""Record the public functions of the library (reference for A01, T03)."""
import ast
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import pyfe

pp = pyfe.load(os.environ.get('VERIF_REPO', '/repo'))
out = []
for f in pp.all_funcs():
    if isinstance(f.node, ast.FunctionDef) and f.outer is None:
        if f.name.startswith('_') and not f.name.endswith('__'):
            continue
        out.append('%s %s %s' % (f.rel, f.qual, ','.join(f.params
                                                         + f.kwonly)))
with open(os.path.join(HERE, 'sa', 'data', 'api.txt'), 'w') as fd:
    fd.write('\n'.join(sorted(set(out))) + '\n')
print(len(out))
