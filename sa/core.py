"""
Common infrastructure: findings, known-findings file, evidence, exit codes.

A check is a function ``run(ctx)`` that reads sources below ``ctx.repo`` only
(never imports or runs them), reports violations by ``ctx.violation(...)`` and
counts what it analysed by ``ctx.count(...)``.  ``ctx.floor(name, n)`` makes a
vanished anchor an analysis error (exit 3), never a silent pass.
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs: neither pass nor violation."""


class Ctx:
    def __init__(self, prop, repo, tier='quick', seed=1):
        self.prop = prop
        self.repo = repo
        self.tier = tier
        self.seed = seed
        self.findings = []   # (key, message, where)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.t0 = time.time()

    def violation(self, key, message, where=''):
        """`key` names rule + construct (stable under line shifts)."""
        if (key, message, where) not in self.findings:
            self.findings.append((key, message, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def note(self, text):
        self.notes.append(text)

    def floor(self, name, minimum):
        have = self.counts.get(name, 0)
        if have < minimum:
            raise AnalysisBroken('%s: only %d instances analysed, expected'
                                 ' at least %d' % (name, have, minimum))


def load_known(prop):
    """
    Lines of known_findings.txt::

        finding: property=<id> key=<key> :: <what fails>
        fixed: property=<id> <commit> <what failed>

    Only `finding` lines suppress, and only the exact key.
    """
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as fd:
        for line in fd:
            line = line.strip()
            if not line.startswith('finding: property=%s ' % prop):
                continue
            rest = line.split('key=', 1)[1]
            key, _, what = rest.partition(' :: ')
            out[key.strip()] = what.strip()
    return out


def finish(ctx, explanation, rule, assumptions):
    known = load_known(ctx.prop)
    new, old = [], []
    for key, msg, where in ctx.findings:
        (old if key in known else new).append((key, msg, where))

    seen = set()
    for key, msg, where in old:
        if key in seen:
            continue
        seen.add(key)
        print('KNOWN-FINDING: property=%s %s [%s]' % (ctx.prop, known[key],
                                                     key))

    wall = time.time() - ctx.t0
    obligations = sum(ctx.counts.values())
    ev = {
        'property': ctx.prop,
        'tier': ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick',
        'seed': ctx.seed,
        'level': 'other',
        'coverage': {
            'explanation': explanation,
            'rule': rule,
            'analysed': ctx.counts,
            'samples': ctx.samples or ['(none)'],
            'notes': ctx.notes,
            'known_findings': sorted(seen),
        },
        'assumptions': assumptions,
        'wall_s': round(wall, 3),
        'violations': len(new),
    }
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, '%s.json' % ctx.prop), 'w') as fd:
        json.dump(ev, fd, indent=1)

    print('%s: analysed %s (%d facts) in %.1f s' % (
        ctx.prop, ', '.join('%s=%d' % kv for kv in sorted(ctx.counts.items())),
        obligations, wall))

    if new:
        rpath = os.path.join(evdir, '%s.violations.txt' % ctx.prop)
        with open(rpath, 'w') as fd:
            for key, msg, where in new:
                fd.write('%s\n  at %s\n  key %s\n' % (msg, where, key))
        for key, msg, where in new[:40]:
            print('  [%s] %s: %s' % (key, where, msg))
        if len(new) > 40:
            print('  ... and %d more' % (len(new) - 40))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rpath))
        return 1
    return 0


def main(registry, argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    if prop not in registry:
        print('unknown property', prop)
        return 2
    mod = registry[prop]
    ctx = Ctx(prop, repo, tier, seed)
    try:
        mod.run(ctx)
        return finish(ctx, mod.EXPLANATION, mod.RULE, mod.ASSUMPTIONS)
    except AnalysisBroken as exc:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, exc))
        known = load_known(prop)
        if any(k not in known for k, _, _ in ctx.findings):
            return finish(ctx, mod.EXPLANATION, mod.RULE, mod.ASSUMPTIONS)
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        return 3
