"""
Run under an interpreter with Cython: parse .pyx/.pxd files (parser only, no
semantic analysis, nothing is executed) and dump a generic tree as JSON.
"""
import json
import os
import sys

from Cython.Compiler import Main, Options, Parsing, PyrexTypes
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler import Nodes, ExprNodes, Errors
from Cython import Utils

SCALARS = ('name', 'attribute', 'operator', 'value', 'cname', 'not_none',
           'or_none', 'visibility', 'exception_check', 'is_basic_c_type',
           'signed', 'longness', 'mode', 'is_const_pass', 'kw_only',
           'module_name', 'include_file', 'in_place', 'nogil', 'inline',
           'unicode_value', 'is_name', 'class_name', 'decorators_', 'as_name',
           'accept_none', 'is_self_arg', 'overridable')


def conv(n, depth=0):
    if isinstance(n, (Nodes.Node,)):
        d = {'t': type(n).__name__,
             'line': n.pos[1] if getattr(n, 'pos', None) else 0}
        for s in SCALARS:
            v = getattr(n, s, None)
            if v is None or isinstance(v, (int, str, bool, float)):
                if v is not None:
                    d[s] = v if not isinstance(v, str) else str(v)
            elif isinstance(v, bytes):
                d[s] = v.decode('latin1')
        seen = set()
        extra = ('base_type', 'declarator', 'declarators', 'body', 'args',
                 'base', 'dimension', 'default', 'exception_value',
                 'axes', 'base_type_node', 'positional_args', 'keyword_args',
                 'imported_names', 'attributes', 'decorators', 'dtype_node',
                 'key_value_pairs', 'type_args', 'doc_')
        for a in list(getattr(n, 'child_attrs', []) or []) + list(extra):
            if a in seen:
                continue
            seen.add(a)
            v = getattr(n, a, None)
            if isinstance(v, Nodes.Node):
                d[a] = conv(v)
            elif isinstance(v, (list, tuple)):
                d[a] = [conv(x) for x in v]
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, (int, str, bool, float)):
        return n if not isinstance(n, str) else str(n)
    try:
        return str(n)
    except Exception:
        return None


def parse(path, fullname):
    opts = Main.CompilationOptions(Main.default_options,
                                   language_level=3,
                                   compiler_directives={})
    ctx = Main.Context.from_options(opts)
    src = FileSourceDescriptor(path, os.path.basename(path))
    from Cython.Compiler.Symtab import ModuleScope
    pxd = path.endswith('.pxd')
    scope = ModuleScope(fullname, None, ctx)
    Errors.init_thread()
    f = Utils.open_source_file(path)
    try:
        s = PyrexScanner(f, src, source_encoding=f.encoding, scope=scope,
                         context=ctx)
        tree = Parsing.p_module(s, pxd, fullname)
    finally:
        f.close()
    return conv(tree)


def main():
    out = {}
    for p in sys.argv[1:]:
        try:
            name = os.path.basename(p).rsplit('.', 1)[0]
            out[p] = parse(p, name)
        except Exception as exc:
            out[p] = {'error': '%s: %s' % (type(exc).__name__, exc)}
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
