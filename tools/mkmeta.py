#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props/*.py tables."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None,
      note=None, na=None, state=None):
    assert len(title) <= 80, title
    assert (technique is None) != (na is None), id
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                      over=over.split(), qtext=' '.join(qtext.split()),
                      why=' '.join(why.split()), files=files, mech=mech,
                      technique=technique,
                      note=' '.join((note or '').split()),
                      na=' '.join((na or '').split()), state=state))


def main():
    d = os.path.join(HERE, 'props')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            with open(os.path.join(d, f)) as fd:
                exec(compile(fd.read(), f, 'exec'), {'P': P})
    ids = [p['id'] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fd:
        for p in sorted(PROPS, key=lambda p: p['id']):
            a = {'files': p['files'],
                 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = p['state']
            fd.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [],
        'not_applicable': [],
        'notes': 'Static analysis only: every check parses the current'
                 ' sources of /repo (clang AST for C, the Cython parser for'
                 ' .pyx, ast for Python) and decides from them; nothing of'
                 ' /repo is built or run. See DESIGN.md.',
    }
    for p in sorted(PROPS, key=lambda p: p['id']):
        if p['technique']:
            man['checks'].append({
                'property': p['id'],
                'quick_cmd': 'python3-vt check.py %s' % p['id'],
                'thorough_cmd': 'python3-vt check.py %s --tier thorough'
                                % p['id'],
                'technique': p['technique'],
                'level': 'other',
                'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'],
                                          'reason': p['na']})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fd:
        json.dump(man, fd, indent=1)
        fd.write('\n')
    print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'n/a')


main()
