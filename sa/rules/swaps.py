"""P03: values reach the roles they are named for."""
import ast

from .. import pyfe
from . import pynames
from .pyxmem import program as pyx_program

EXPLANATION = (
    'Every call of a function, class or method of the package resolved'
    ' statically is bound to the signature of the callee; a positional'
    ' argument called as another parameter of the callee, which does not'
    ' receive it, is a violation, as are two exchanged (also keyword)'
    ' arguments. Functions returning tuples of named values are compared with'
    ' the names their results are unpacked to, and with the parameters they'
    ' are passed to by a starred call. Values assigned to attributes or'
    ' passed as keywords in pairs are not crossed.')
RULE = ('one obligation per argument, result or assignment bearing the name of'
        ' a role of the callee or of its sibling')
ASSUMPTIONS = [
    'an argument or a result that carries the name of no other role is not'
    ' judged',
    'keyword arguments are intended, unless two are exchanged']

# Generic roles: any matrix, class or polynomial may be passed.
GENERIC = {'dot_sequences', 'is_derived_class', '_extended_euclidean'}


def term(n):
    """Name of a plain value: x, self.x, x.copy(), nm.asarray(x)."""
    while True:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
           and n.func.attr in ('copy', 'read', 'item', 'tolist') \
           and not n.args:
            n = n.func.value
        elif isinstance(n, ast.Call) and pyfe.call_name(n) in (
                'asarray', 'ascontiguousarray', 'array', 'int', 'float',
                'list', 'tuple', 'dec', 'enc') and n.args:
            n = n.args[0]
        else:
            break
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return n.attr
    return None


def role(t, names):
    """The parameter called as the value (plurals are the same)."""
    if t is None or t in names:
        return t
    hits = [p for p in names if plain(p) == plain(t)]
    return hits[0] if len(hits) == 1 else t


def plain(s):
    s = s.strip('_').lower().replace('_', '')
    return s[:-1] if s.endswith('s') and len(s) > 2 else s


def norm(s):
    return s.strip('_').lower()


class Swaps(pynames.Calls):
    def attribute(self, *a):
        pass

    def fmt(self, *a):
        pass

    def pyx_call(self, *a):
        pass

    def fits_func(self, f, call, drop):
        msg = pynames.Calls.fits_func(self, f, call, drop)
        if msg is None:
            self.fitting.append((f, drop))
        return msg

    def by_name(self, m, f, c, where):
        self.named = False
        pynames.Calls.by_name(self, m, f, c, where)

    def call(self, m, f, c, loc, imps):
        self.fitting = []
        self.named = True
        q = f.qual if f else '<module>'
        where = '%s:%d (%s)' % (m.rel, c.lineno, q)
        pynames.Calls.call(self, m, f, c, loc, imps)
        self.keywords(m, q, c, where)
        if not self.fitting:
            return
        self.targets[c] = [g for g, _ in self.fitting]
        if any(g.name in GENERIC for g, _ in self.fitting):
            return
        bad = []
        for g, drop in self.fitting:
            bad.append((g, self.crossed(g, drop, c)))
        if all(r for _, r in bad):
            g, r = bad[0]
            p, t = r[0]
            self.ctx.violation(
                'arg:%s:%s:%s:%s' % (m.rel, q, g.qual, t),
                '%s passes %r to %s() as its argument %r'
                % (q, t, g.qual, p), where)

    def crossed(self, g, drop, c):
        ps = g.params[drop:]
        names = set(ps) | set(g.kwonly)
        bound, pos = {}, set()
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(ps):
                bound[ps[i]] = a
                pos.add(ps[i])
        for k in c.keywords:
            if k.arg:
                bound[k.arg] = k.value
        used = self.used(g)
        out = []
        bt = {p: role(term(a), names) for p, a in bound.items()}
        for p, t in bt.items():
            if t is None or t not in names:
                continue
            self.ctx.count('arguments')
            if t == p or p not in used:
                continue
            if t in bt and bt[t] == t:
                continue
            if t in bt and bt[t] == p:
                if not self.recursive(g, c):
                    out.append((p, t))
                continue
            if p in pos and self.named and term(bound[p]) == t and norm(t) not in norm(p) \
               and norm(p) not in norm(t):
                out.append((p, t))
        return out

    def recursive(self, g, c):
        """A function calling itself may exchange its arguments."""
        return any(x is c for x in ast.walk(g.node))

    def used(self, g):
        if g not in self.uses:
            self.uses[g] = {n.id for n in ast.walk(g.node)
                            if isinstance(n, ast.Name)
                            and isinstance(n.ctx, ast.Load)} | (
                                {a for a in g.all_params()}
                                if 'locals()' in ast.unparse(g.node)
                                else set())
        return self.uses[g]

    def keywords(self, m, q, c, where):
        kw = {k.arg: term(k.value) for k in c.keywords if k.arg}
        for k, t in kw.items():
            if t is None or t == k or t not in kw:
                continue
            self.ctx.count('keyword_pairs')
            if kw[t] == k and k < t:
                self.ctx.violation(
                    'kw:%s:%s:%s:%s' % (m.rel, q, k, t),
                    '%s exchanges the keywords %s and %s' % (q, k, t), where)

    # -- results -------------------------------------------------------
    def results(self, g):
        """Names of tuple results by length: [(names, ...)]."""
        if g not in self.res:
            out = []
            for n in pyfe.own_nodes(g.node.body):
                if isinstance(n, ast.Return) and isinstance(n.value,
                                                            ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in n.value.elts):
                        continue
                    out.append([term(e) for e in n.value.elts])
                elif isinstance(n, ast.Return) and isinstance(
                        n.value, ast.Name):
                    for a in pyfe.own_nodes(g.node.body):
                        if isinstance(a, ast.Assign) and isinstance(
                                a.value, ast.Tuple) and any(
                                isinstance(t, ast.Name)
                                and t.id == n.value.id for t in a.targets):
                            out.append([term(e) for e in a.value.elts])
            self.res[g] = out
        return self.res[g]

    def unpacked(self):
        for m in self.pp.modules.values():
            if m.rel in pynames.SKIP_FILES:
                continue
            for f, body in [(None, m.tree.body)] + [(f, f.node.body)
                                                    for f in m.funcs]:
                q = f.qual if f else '<module>'
                for n in pyfe.own_nodes(body):
                    self.one_unpack(m, q, n)
                if f is not None:
                    self.attributes(m, f)

    def one_unpack(self, m, q, n):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 \
           and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
           and n.value in self.targets:
            ts = [term(e) for e in n.targets[0].elts]
            self.compare(m, q, n, self.targets[n.value], ts, 'unpacks')
        elif isinstance(n, ast.Call) and n in self.targets:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Starred) and a.value in self.targets:
                    for g in self.targets[n]:
                        ps = g.params[1:] if g.cls is not None \
                            and not g.is_static else g.params
                        self.compare(m, q, n, self.targets[a.value],
                                     ps[i:], 'passes', partial=True)

    def compare(self, m, q, n, gs, ts, what, partial=False):
        bad = []
        for g in gs:
            for rs in self.results(g):
                if len(rs) != len(ts) and not (partial
                                               and len(rs) <= len(ts)):
                    continue
                self.ctx.count('results')
                hit = None
                for i, r in enumerate(rs):
                    t = ts[i]
                    if r is None or t is None or r == t:
                        continue
                    # r goes to t, there is another place called r.
                    if r in ts[:len(rs)] and t in rs:
                        j = ts.index(r)
                        if rs[j] != r:
                            hit = (g, r, t)
                            break
                bad.append(hit)
        if bad and all(bad):
            g, r, t = bad[0]
            self.ctx.violation(
                'result:%s:%s:%s:%s' % (m.rel, q, g.qual, r),
                '%s %s the result %r of %s() as %r'
                % (q, what, r, g.qual, t), '%s:%d (%s)' % (m.rel, n.lineno, q))

    def attributes(self, m, f):
        """self.a = b, self.b = a"""
        pairs = {}
        for n in pyfe.own_nodes(f.node.body):
            if not isinstance(n, ast.Assign) or len(n.targets) != 1:
                continue
            t, v = n.targets[0], n.value
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                zs = list(zip(t.elts, v.elts))
            else:
                zs = [(t, v)]
            for a, b in zs:
                if isinstance(a, ast.Attribute) and isinstance(b, ast.Name):
                    pairs.setdefault((ast.unparse(a.value), a.attr),
                                     set()).add((b.id, n.lineno))
        for (base, a), bs in pairs.items():
            for b, line in bs:
                if b == a or (base, b) not in pairs:
                    continue
                self.ctx.count('attributes')
                if any(x == a for x, _ in pairs[(base, b)]) and a < b \
                   and not any(x == a for x, _ in bs):
                    self.ctx.violation(
                        'attr:%s:%s:%s:%s' % (m.rel, f.qual, a, b),
                        '%s stores %s and %s under exchanged names'
                        % (f.qual, a, b),
                        '%s:%d (%s)' % (m.rel, line, f.qual))


def run(ctx):
    pp = pyfe.load(ctx.repo)
    px = pyx_program(ctx.repo)
    quiet = Quiet(ctx)
    names = pynames.Names(quiet, pp)
    del names
    s = Swaps(quiet, pp, px)
    s.ctx = quiet
    s.uses, s.res, s.targets = {}, {}, {}
    s.run()
    s.unpacked()
    ctx.floor('arguments', 1000)
    ctx.floor('results', 100)


class Quiet:
    """Passes on what P03 reports, drops what P02 does."""
    def __init__(self, ctx):
        self.real = ctx
        self.repo = ctx.repo

    def count(self, k, n=1):
        if k in ('arguments', 'keyword_pairs', 'results', 'attributes'):
            self.real.count(k, n)

    def violation(self, key, msg, where):
        if not key.startswith('P02'):
            self.real.violation(key, msg, where)

    def __getattr__(self, k):
        return getattr(self.real, k)
