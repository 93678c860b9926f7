"""C01: a cached result is reused only for the request it was computed for."""
import ast

from .. import pyfe, pyalias
from ..core import AnalysisBroken
from ..depend import IDENT, Depend, One, derived, extend
from ..pyfe import call_name

EXPLANATION = (
    'Syntax trees of all modules. Memo sites: a store C[K] = V in a function'
    ' that also looks K up in C (in, get, try), a store X.attr = V guarded by'
    ' "X.attr is None" / not hasattr, and a local value taken from a cache'
    ' attribute or recomputed. Forward dependence analysis (data and control,'
    ' path-sensitive environments joined at merges, interprocedural summaries'
    ' by access paths) gives what V, K and C depend on. Every access path the'
    ' cached value depends on must be determined by the key, by identity or'
    ' equality tests of the guard, or by the object that owns the cache;'
    ' paths of parameters of helpers are substituted at all their call'
    ' sites.')
RULE = ('one obligation per (memo site, parameter the value depends on);'
        ' nontrivial = the parameter is not the owner of the cache')
ASSUMPTIONS = [
    'an object of a given `name`/`key` attribute used in a key stands for'
    ' all its data; the owner of a cache resets it when its data change'
    ' (property C02 for variables)',
    'values read from other module-level state are constant',
    'exemptions of single (cache, parameter) pairs listed in EXEMPT, each'
    ' with its reason',
]

# Parts that determine the whole.
PARTS = [('indptr', 'indices', 'data')]     # CSR matrix

# (cache attribute or global name, missing root) -> reason.
EXEMPT = {
    ('mappings', 'get_saved'): 'saved mappings are requested explicitly',
    ('extra_data', 'trace_region'): 'true for regions of surface fields only',
    ('extra_data', 'field'): 'callers pass the owner',
    ('meconn', 'region'): 'the surface object belongs to one region',
    ('adof_conns', 'field'): 'field of the variable var.name',
    ('datas', '*'): 'special data are defined as constant in time',
    ('mtx_a', '*'): 'structure of the matrix for the current equations',
    ('gps', '*'): 'determined by the name of the geometry element',
    ('ls1', '*'): 'created once per solver', ('ls2', '*'): 'as ls1',
    ('mg', 'conf'): 'force_reuse is an option of the user',
    ('pmtx', 'comm'): 'constant for a solver',
    ('pmtx', 'conf'): 'constant for a solver',
    ('pmtx', 'context'): 'constant for a solver',
    ('ci', '*'): 'the term is bound to its arguments and region',
    ('eargs', 'args'): 'the term is bound to its arguments',
    ('stress_cache', 'kwargs'): 'term_mode etc. do not influence the stress',
    ('stored_subs', '*'): 'a backup, not a cached result',
    ('constant_matrices', '*'): 'the user declares the problem linear',
    ('calculate_req:periodic_cache', 'args'): 'copied with its key',
    ('write_data:cache', 'group'): 'location of the first copy',
    ('get_eth_data:cache', 'decay'): 'the history is advanced, not replaced',
    ('get_eth_data:cache', 'values'): 'the history is advanced, not replaced',
    ('get_eth_data:cache', 'self'): 'method of the term',
    ('__call__:cache', 'self'): 'self.cache_name identifies the family',
}
# Caches given to a function -> what they are for.
GIVEN = {
    # arg.arg.evaluate_cache['dofs'][arg.term.arg_steps[arg.name]]
    ('ExpressionArg.get_dofs', 'cache'): ('self.arg', 'self.term.arg_steps'),
}
# Containers that are filled with defaults, not with computed results.
DEFAULTS = {'options', 'coef_opts', 'cf', 'dst', 'names', 'conf'}


COMMON = set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | {
    'copy', 'reshape', 'ravel', 'sum', 'dot', 'read', 'write', 'close',
    'view', 'min', 'max', 'mean', 'all', 'any', 'astype', 'fill', 'tocsr'}


def exempt(s, root):
    for c in (s.cname, s.f.name + ':' + s.cname):
        if (c, root) in EXEMPT or (c, '*') in EXEMPT:
            return True
    return False


def key_of(n):
    return ast.dump(n).replace('Store()', 'Load()')


def strip(paths):
    out = set()
    for p in paths:
        if not p.endswith('.()'):
            out.add(p[:-3] if p.endswith('.[]') else p)
    return out


def covered(v, keys):
    parts = v.split('.')
    for i in range(1, len(parts) + 1):
        q = '.'.join(parts[:i])
        if q in keys:
            return True
        if any(all(q + '.' + x in keys for x in ps) for ps in PARTS):
            return True
        if not (i == 1 and q == 'self') \
           and any(q + '.' + x in keys for x in IDENT):
            return True
    return False


def owner_prefix(c):
    """Paths owned by the object that owns the container `c`."""
    if c.endswith(('.()', '.[]')):
        return None
    return c.rsplit('.', 1)[0] if '.' in c else None


class Program:
    def __init__(self, repo):
        self.pp = pyfe.load(repo)
        self.al = pyalias.Alias.__new__(pyalias.Alias)
        self.al.pp = self.pp
        self.meth = {}
        for f in self.pp.all_funcs():
            if f.cls is not None and isinstance(f.node, ast.FunctionDef):
                self.meth.setdefault(f.name, []).append(f)
        self.an = Depend(self.pp, self.resolve)
        self.kan = Depend(self.pp, self.resolve, data_only=True)
        self.an.resolve_all = self.kan.resolve_all = self.resolve_all
        self._callers = None

    def resolve(self, f, c):
        t = pyalias.Alias.resolve(self.al, f, c)
        if t is not None:
            return t
        fn = c.func
        if isinstance(fn, ast.Attribute):
            ms = self.accepting(fn.attr, c)
            if fn.attr in COMMON:
                return None
            if len(ms) == 1 and not ms[0].is_static:
                return ms[0], 1
        return None

    def accepting(self, name, c):
        """The methods `name` that can be called as in `c`."""
        out = []
        star = any(isinstance(a, ast.Starred) for a in c.args)
        kws = {k.arg for k in c.keywords}
        for g in self.meth.get(name, []):
            pos = g.params[1:]
            npos = len(c.args)
            if not star and npos > len(pos) and not g.vararg:
                continue
            if not g.kwarg and any(
                    k and (k not in pos[0 if star else npos:]
                           and k not in g.kwonly) for k in kws):
                continue
            if not star and None not in kws and any(
                    p not in kws for p in
                    pos[npos:len(pos) - g.n_default]):
                continue
            out.append(g)
        return out

    def resolve_all(self, f, c):
        t = self.resolve(f, c)
        if t is not None:
            return [t]
        fn = c.func
        if isinstance(fn, ast.Attribute) and fn.attr not in COMMON:
            ms = self.accepting(fn.attr, c)
            if 1 < len(ms) <= 5 and not any(m.is_static for m in ms):
                return [(m, 1) for m in ms]
        return []

    def callers(self, g):
        if self._callers is None:
            self._callers = {}
            for f in self.pp.all_funcs():
                if not isinstance(f.node, ast.FunctionDef):
                    continue
                for n in pyfe.own_nodes(f):
                    if isinstance(n, ast.Call):
                        t = self.resolve(f, n)
                        if t is not None:
                            self._callers.setdefault(
                                id(t[0].node), []).append((f, n, t[1]))
        return self._callers.get(id(g.node), [])


class Site:
    def __init__(self, f, node, cname, kind):
        self.f, self.node, self.cname, self.kind = f, node, cname, kind
        self.value = self.key = self.cont = self.guard = None
        self.local = False


def last_name(n):
    while isinstance(n, ast.Subscript):
        n = n.value
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Call):
        return last_name(n.func)
    return '?'


def parents(f):
    up = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            up[id(c)] = n
    return up


def guards_of(n, up, pred):
    """Tests of enclosing ifs satisfying pred."""
    out = []
    while id(n) in up:
        p = up[id(n)]
        if isinstance(p, ast.If) and n is not p.test and pred(p.test):
            out.append(p.test)
        n = p
    return out


def find_sites(f):
    """[(assign stmt, target or None, kind, names taken from the cache)]"""
    nodes = list(pyfe.own_nodes(f))
    up = parents(f)
    dkeys, got = set(), {}
    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 \
           and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            dkeys.add((key_of(n.comparators[0]), key_of(n.left)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
           and n.func.attr == 'get' and n.args:
            dkeys.add((key_of(n.func.value), key_of(n.args[0])))
            p = up.get(id(n))
            if isinstance(p, ast.Assign):
                for t in p.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            got.setdefault(x.id, set()).add(
                                (key_of(n.func.value), key_of(n.args[0])))
        if isinstance(n, ast.Try):
            for x in ast.walk(ast.Module(n.body, [])):
                if isinstance(x, ast.Subscript) \
                   and isinstance(x.ctx, ast.Load):
                    dkeys.add((key_of(x.value), key_of(x.slice)))
    sites = []
    for n in nodes:
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Subscript) \
               and (key_of(t.value), key_of(t.slice)) in dkeys:
                ck = (key_of(t.value), key_of(t.slice))
                names = {x for x, ks in got.items() if ck in ks}

                def pred(test, names=names, ck=ck):
                    for x in ast.walk(test):
                        if isinstance(x, ast.Name) and x.id in names:
                            return True
                        if isinstance(x, ast.Compare) and len(x.ops) == 1 \
                           and (key_of(x.comparators[0]),
                                key_of(x.left)) == ck:
                            return True
                        if isinstance(x, ast.Call) and x.args \
                           and isinstance(x.func, ast.Attribute) \
                           and (key_of(x.func.value),
                                key_of(x.args[0])) == ck:
                            return True
                    return False
                sites.append((n, t, 'dict', guards_of(n, up, pred)))
            if isinstance(t, ast.Attribute) and isinstance(
                    t.value, ast.Name) and t.value.id == 'self':
                tk = key_of(t)

                def predn(test, tk=tk, a=t.attr):
                    for x in ast.walk(test):
                        if isinstance(x, ast.Compare) and len(x.ops) == 1 \
                           and isinstance(x.ops[0], (ast.Is, ast.IsNot)) \
                           and key_of(x.left) == tk \
                           and isinstance(x.comparators[0], ast.Constant):
                            return True
                        if isinstance(x, ast.Call) \
                           and call_name(x) == 'hasattr' \
                           and len(x.args) == 2 \
                           and isinstance(x.args[1], ast.Constant) \
                           and x.args[1].value == a:
                            return True
                    return False
                g = guards_of(n, up, predn)
                if g:
                    sites.append((n, t, 'attr', g))
    # values taken from self.<cache> or recomputed
    taken = {}
    for n in nodes:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) \
           and isinstance(n.value.value, ast.Name) \
           and n.value.value.id == 'self' and f.cls is not None:
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        taken[x.id] = (n.value, n)
    for n in nodes:
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name)):
            continue
        v = n.targets[0].id
        if v not in taken or taken[v][1] is n:
            continue
        attr, src = taken[v]
        same = {x.id for t in src.targets for x in ast.walk(t)
                if isinstance(x, ast.Name)}
        if not stored_later(f.cls, attr.attr):
            continue
        g = guards_of(n, up, lambda test: any(
            isinstance(x, ast.Compare) and isinstance(
                x.ops[0], (ast.Is, ast.IsNot)) and any(
                isinstance(y, ast.Name) and y.id in same
                for y in ast.walk(x)) for x in ast.walk(test)))
        if g:
            sites.append((n, attr, 'reuse', g))
    return sites


def stored_later(cls, attr):
    """self.attr is assigned a computed value in a method (not __init__)."""
    for f in cls.methods.values() if isinstance(cls.methods, dict) \
            else cls.methods:
        if f.name == '__init__':
            continue
        for n in pyfe.own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr \
                       and isinstance(t.value, ast.Name) \
                       and t.value.id == 'self' \
                       and not isinstance(n.value, ast.Constant):
                        return True
    return False


def is_local_container(f, t):
    b = t
    while isinstance(b, (ast.Subscript, ast.Attribute)):
        b = b.value
    if not isinstance(b, ast.Name) or b.id in f.all_params():
        return False
    fresh = False
    for n in pyfe.own_nodes(f):
        if isinstance(n, ast.Assign) and any(
                isinstance(x, ast.Name) and x.id == b.id for x in n.targets):
            v = n.value
            if isinstance(v, (ast.Dict, ast.List, ast.DictComp)) or (
                    isinstance(v, ast.Call) and call_name(v) in (
                        'dict', 'OneTypeList', 'Container', 'Struct',
                        'OrderedDict', 'defaultdict', 'copy', 'list',
                        'zeros', 'empty', 'ones')):
                fresh = True
            else:
                return False
    return fresh


def trivial(v):
    """Empty containers and constants are no results."""
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Tuple)):
        return not any(True for _ in ast.iter_child_nodes(v)
                       if not isinstance(_, ast.expr_context))
    return isinstance(v, ast.Call) and call_name(v) in ('dict', 'set', 'list',
                                                       'OrderedDict') \
        and not v.args and not v.keywords


def same_object(test, one, env):
    """What the operands of identity and equality comparisons depend on."""
    r = frozenset()
    for x in ast.walk(test):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 \
           and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
           and not isinstance(x.comparators[0], ast.Constant):
            for y in (x.left, x.comparators[0]):
                if isinstance(y, (ast.Name, ast.Attribute)):
                    r |= one.deps(y, env)
    return r


def analyse(prog, f, sites):
    out = []
    by, res = {}, {}
    gdeps, edeps = {}, {}

    def on(n, env, ctl, one):
        if isinstance(n, ast.If):
            edeps[id(n.test)] = edeps.get(id(n.test), frozenset()) \
                | same_object(n.test, one, env)
        for s in by.get(id(n), ()):
            st, t, kind, guards = s
            val = one.deps(st.value, env)
            cont = frozenset(['self.' + t.attr]) if kind != 'dict' \
                else one.container(t.value, env)
            res[id(st), id(t)] = [s, val, frozenset(), cont]

    def onkey(n, env, ctl, one):
        if isinstance(n, ast.If):
            gdeps[id(n.test)] = one.deps(n.test, env)
        for s in by.get(id(n), ()):
            st, t, kind, guards = s
            if kind == 'dict':
                res[id(st), id(t)][2] = one.deps(t.slice, env) \
                    | one.container(t.value, env)
    bases = {}

    def onbase(n, env, ctl, one):
        if isinstance(n, ast.If):
            for s in sites:
                if n.test in s[3]:
                    bases.setdefault(ctl, []).append(s)
    One(prog.an, f, onbase).run()
    done = [s for b in bases.values() for s in b]
    bases.setdefault(frozenset(), []).extend(
        s for s in sites if s not in done)
    for base, ss in bases.items():
        by = {}
        for s in ss:
            by.setdefault(id(s[0]), []).append(s)
        one = One(prog.an, f, on)
        one.base = base
        one.run()
    by = {}
    for s in sites:
        by.setdefault(id(s[0]), []).append(s)
    One(prog.kan, f, onkey).run()
    for s, val, key, cont in res.values():
        st, t, kind, guards = s
        x = Site(f, st, last_name(t), kind)
        x.value, x.key, x.cont = val, key, cont
        g = frozenset()
        for test in guards:
            g |= gdeps.get(id(test), frozenset())
        x.guard = g
        x.exact = frozenset()
        for test in guards:
            x.exact |= edeps.get(id(test), frozenset())
        x.given_key = kind == 'dict' and isinstance(t.slice, ast.Name) \
            and t.slice.id in f.all_params()
        x.local = kind == 'dict' and is_local_container(f, t.value)
        out.append(x)
    return out


def missing(value, keys, conts, exact=()):
    owners = {owner_prefix(c) for c in conts} - {None}
    keys = strip(keys)
    exact = set(exact) | set(derived(exact))
    miss = set()
    for v in value:
        if covered(v, keys) or v in conts or v in exact \
           or v.endswith('.()') and v[:-3] + '.(id)' in keys:
            continue
        if any(v == o or v.startswith(o + '.') for o in owners):
            continue
        miss.add(v)
    return miss


def arg_map(g, off, c, one, env):
    """{param: deps at the call} or None."""
    if any(isinstance(a, ast.Starred) for a in c.args) \
       or any(k.arg is None for k in c.keywords):
        return None
    by = {}
    pos = g.params[off:]
    if off and g.params and isinstance(c.func, ast.Attribute):
        by[g.params[0]] = one.deps(c.func.value, env)
    for i, a in enumerate(c.args):
        by[pos[i] if i < len(pos) else g.vararg] = one.deps(a, env)
    for k in c.keywords:
        by[k.arg] = one.deps(k.value, env)
    return by


def subst(paths, by):
    out = set()
    for p in paths:
        head, _, tail = p.partition('.')
        if head == 'self' and tail in IDENT:
            tail = '__%s__' % tail      # as in `covered`
        out |= extend(by.get(head, ()), tail)
    return out


def at_callers(prog, site, miss, keys, conts, depth=0):
    """Missing paths that stay missing when the parameters of the function
    are replaced by the arguments of its callers: [(caller, call, paths)];
    None if the callers are unknown."""
    g = site.f if depth == 0 else site
    if depth > 2:
        return None
    cs = prog.callers(g)
    if not cs or (g.cls is not None and len(prog.meth[g.name]) > 1):
        return None
    out = []
    for f, c, off in cs:
        got = []

        def on(n, env, ctl, one):
            if any(x is c for x in ast.walk(n)) and not any(
                    any(x is c for x in ast.walk(b))
                    for b in ast.iter_child_nodes(n)
                    if isinstance(b, ast.stmt)):
                got.append(arg_map(g, off, c, one, env))
        One(prog.an, f, on).run()
        if not got or got[-1] is None:
            return None
        by = got[-1]
        k2, c2 = subst(keys, by), subst(conts, by)
        m2 = missing(subst(miss, by), k2 | c2, c2)
        if m2:
            deeper = None
            if any(p.split('.')[0] in f.all_params() for p in k2 | c2):
                deeper = at_callers(prog, f, m2, k2, c2, depth + 1)
            if deeper is None:
                out.append((f, c, m2))
            else:
                out.extend(deeper)
    return out


def run(ctx):
    prog = Program(ctx.repo)
    n = 0
    for f in prog.pp.all_funcs():
        if not isinstance(f.node, ast.FunctionDef):
            continue
        sites = [s for s in find_sites(f) if not trivial(s[0].value)]
        if not sites:
            continue
        for s in analyse(prog, f, sites):
            if s.local or s.cname in DEFAULTS:
                continue
            n += 1
            ctx.count('memo sites')
            ctx.count('paths', len(s.value))
            ctx.sample('%s %s: key %s' % (s.f.where(s.node), s.cname,
                                          sorted(s.key)[:6]))
            params = set(s.f.all_params())
            miss = missing(s.value, s.key | s.guard, s.cont, s.exact)
            given = GIVEN.get((s.f.qual, s.cname), ())
            miss = {m for m in miss if m.split('.')[0] in params
                    and m != 'self.()'
                    and not any(m.startswith(g + '.') for g in given)}
            miss = {m for m in miss
                    if not exempt(s, m.split('.')[0])}
            if not miss:
                continue
            up = at_callers(prog, s, miss, s.key | s.guard, s.cont) \
                if s.given_key else None
            if up is not None and not up:
                ctx.count('settled at call sites')
                continue
            for r in sorted({m.split('.')[0] for m in miss}):
                ctx.violation(
                    'C01:memo:%s:%s:%s' % (s.f.rel, s.cname, r),
                    'the result cached in %s depends on %s, which is not'
                    ' part of its key: another request gets this result'
                    % (s.cname, ', '.join(sorted(
                        m for m in miss if m.split('.')[0] == r)[:4])),
                    s.f.where(s.node))
    ctx.floor('memo sites', 15)
