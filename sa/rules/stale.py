"""C02: changing data discards what was computed from it."""
import ast

from .. import pyfe, pyflow
from ..core import AnalysisBroken
from .memo import Program

EXPLANATION = (
    'Syntax trees of all modules. A table of (class, source attributes, what'
    ' is computed from them and kept). Every function is interpreted'
    ' path-sensitively (facts: stores to a source not yet followed or'
    ' preceded by a reset of the derived data, truth of parameters, aliases'
    ' of state vectors); method summaries per path are applied at calls,'
    ' including loops over all state variables. On no normal exit may a store'
    ' to a source remain without the reset, unless the caller asked for it'
    ' (preserve_caches=True, ...). In addition: the time steps dropped by'
    ' the invalidation cover all the steps whose evaluation reads the changed'
    ' data, advancing in time moves data and caches in the same way, guards'
    ' of the update of the matrix graph, DOF connectivities and material data'
    ' are decided by three-valued evaluation of their conditions, and the'
    ' residual and tangent are evaluated after the state is set.')
RULE = ('one obligation per (function, store to a source or reset) and per'
        ' structural rule; nontrivial = the function stores to a source'
        ' outside of a constructor')
ASSUMPTIONS = [
    'receivers other than self are typed by their conventional names (var,'
    ' variable, variables, field, mat, material, problem, pb)',
    'the table of derived data (ENTRIES) is complete for the classes listed',
    'arrays reachable from outside (views returned to users) are not modified'
    ' by the user without the setters',
]

KNOWN_NAMES = {
    'var': 'Variable', 'variable': 'Variable', 'vvar': 'Variable',
    'variables': 'Variables', 'field': 'FEField', 'mat': 'Material',
    'material': 'Material', 'problem': 'Problem', 'pb': 'Problem',
}


class Entry:
    def __init__(self, id, cls, src, caches, excuse=(), inplace=False,
                 none_ok=False, any_store=False, passes=(), exempt=(),
                 whole_only=False):
        self.id, self.cls = id, cls
        self.src, self.caches = set(src), set(caches)
        self.excuse = excuse        # (fact kind, name, value, caches or None)
        self.inplace = inplace      # only in-place stores count
        self.whole_only = whole_only
        self.none_ok = none_ok
        self.any_store = any_store  # any store to the cache attr is a reset
        self.passes = set(passes)
        self.exempt = set(exempt)


PRESERVE = ('P', 'preserve_caches', True, None)
ENTRIES = [
    # advance() has its own rule, see advance_rule().
    Entry('data', 'Variable', ['data', 'indx'], ['evaluate_cache'],
          excuse=[PRESERVE], exempt=['advance']),
    Entry('vec', 'Variables', ['vec'], ['evaluate_cache of variables'],
          excuse=[PRESERVE], inplace=True),
    # Essential DOFs are not in the reduced vector.
    Entry('rvec', 'Variables', ['vec'], ['r_vec'], any_store=True,
          excuse=[('P', 'self.has_lcbc', False, None),
                  ('N', 'self.r_vec', True, None)], exempt=['apply_ebc']),
    Entry('basis', 'FEField', ['basis_transform', 'poly_space'],
          ['qp_coors', 'bf', 'mappings', 'mappings0'],
          excuse=[('P', 'clear_all', False, {'mappings0'})]),
    Entry('coors', 'FEField', ['coors'], ['mappings', 'mappings0'],
          excuse=[('P', 'clear_all', False, {'mappings0'})],
          passes=['set_coors', 'setup_coors']),
    Entry('econn', 'FEField', ['econn'], ['basis_transform', 'unused_dofs'],
          any_store=True, whole_only=True),
    Entry('ori', 'FESurface', ['econn', 'ori_map'], ['meconn', 'mleconn'],
          passes=['set_orientation_map'], whole_only=True),
    Entry('function', 'Material', ['function'],
          ['datas', 'special_names', 'constant_names']),
    Entry('equations', 'Problem', ['equations'], ['mtx_a', 'mtx_presolved'],
          none_ok=True),
    Entry('backend', 'ETermBase', ['backend', 'optimize', 'layout'],
          ['einfos', 'expr_cache']),
]
RESET_STEP = {'invalidate_evaluate_cache': ('data', 'evaluate_cache')}
CONSTRUCTORS = {'__init__', '__new__', '__setstate__'}


def text(n):
    return ast.unparse(n)


def norm_step(n):
    """Text of a time step relative index."""
    if n is None:
        return '0'
    try:
        v = ast.literal_eval(n)
        return str(v)
    except (ValueError, SyntaxError, TypeError):
        pass
    return text(n)


def step_of_index(n):
    """data[-step] holds the data of `step`."""
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return norm_step(n.operand)
    try:
        return str(-ast.literal_eval(n))
    except (ValueError, SyntaxError, TypeError):
        return '-(%s)' % text(n)


def is_none(n):
    return isinstance(n, ast.Constant) and n.value is None


def is_empty(n):
    """{}, [], None, set(), dict(), list()"""
    if is_none(n):
        return True
    if isinstance(n, (ast.Dict,)):
        return not n.keys
    if isinstance(n, (ast.List, ast.Tuple)):
        return not n.elts
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        return n.func.id in ('dict', 'list', 'set') and not n.args \
            and not n.keywords
    return False


def obj_text(n):
    """Dotted text of a Name/Attribute chain or None."""
    return pyfe.dotted(n)


class Stale:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.pp = prog.pp
        self.classes = {}
        for e in ENTRIES:
            c = self.pp.cls(e.cls)
            if c is None:
                raise AnalysisBroken('class %s not found' % e.cls)
            self.classes[e.cls] = c
        self.family = {}       # class name -> names of it, bases, subclasses
        for name, c in self.classes.items():
            fam = {x.name for x in c.mro()}
            subs = self.pp.subclasses(c)
            fam |= {x.name for x in subs} | {name}
            self.family[name] = (fam - {'Struct', 'Container', 'object'})
        self._sum = {}
        self._active = set()
        self.relevant = self.find_relevant()

    def find_relevant(self):
        """Functions with stores, resets or calls that may have them."""
        attrs = set(RESET_STEP)
        for e in ENTRIES:
            attrs |= e.src | e.caches
        fams = set().union(*self.family.values())
        rel, names = set(), set()
        todo = [f for f in self.pp.all_funcs()
                if isinstance(f.node, ast.FunctionDef)]
        while True:
            left = []
            grew = False
            for f in todo:
                hit = False
                for n in pyfe.own_nodes(f):
                    if isinstance(n, ast.Attribute):
                        ty = self.type_of(f, obj_text(n.value))
                        if ty in fams and (n.attr in attrs
                                           or n.attr in names):
                            hit = True
                            break
                if hit:
                    rel.add(id(f.node))
                    if f.cls is not None and f.cls.name in fams \
                       and f.name not in names:
                        names.add(f.name)
                        grew = True
                else:
                    left.append(f)
            todo = left
            if not grew:
                return rel

    def entries_of(self, cname):
        return [e for e in ENTRIES if cname in self.family[e.cls]]

    def type_of(self, f, obj):
        if obj == 'self' and f.cls is not None:
            return f.cls.name
        if obj is None or obj == 'self':
            return None
        return KNOWN_NAMES.get(obj.rsplit('.', 1)[-1])

    def methods(self, cname, m):
        """Candidates of method `m` of an object of class `cname`."""
        c = self.pp.cls(cname)
        if c is None:
            return []
        out, seen = [], set()
        g = c.find(m)
        cands = [g] if g is not None else []
        for s in self.pp.subclasses(c):
            h = s.methods.get(m) if hasattr(s, 'methods') else s.find(m)
            if h is not None:
                cands.append(h)
        for g in cands:
            if id(g.node) not in seen and isinstance(g.node, ast.FunctionDef):
                seen.add(id(g.node))
                out.append(g)
        return out

    def summary(self, g):
        k = id(g.node)
        if k in self._sum:
            return self._sum[k]
        if k not in self.relevant:
            return [frozenset()]
        if k in self._active or len(self._active) > 6:
            return [frozenset()]
        self._active.add(k)
        try:
            fl = FuncFlow(self, g)
            fl.run(g.node, {frozenset()})
        finally:
            self._active.discard(k)
        passed = g.name.startswith('_') and g.name not in CONSTRUCTORS
        out = set()
        for s, _ in fl.leaves:
            keep = set()
            weak = {x[1] for x in s if x[0] == 'W'}
            for x in s:
                if x[0] in 'SR' and x[1].split('.')[0] == 'self':
                    if x[0] == 'S' and not (passed or any(
                            e.id == x[2] and g.name in e.passes
                            for e in ENTRIES)):
                        continue
                    if x[0] == 'S' and excused(x, s):
                        continue
                    keep.add(x)
                elif x[0] in 'PN' and x[1] in g.all_params():
                    if x[1] in weak and x[2] is False:
                        continue
                    keep.add(x)
            out.add(frozenset(keep))
        out = sorted(out, key=sorted_key)[:48] or [frozenset()]
        self._sum[k] = out
        return out


def sorted_key(s):
    return sorted(map(repr, s))


def excused(fact, s):
    for e in ENTRIES:
        if e.id != fact[2]:
            continue
        for kind, name, val, caches in e.excuse:
            if (caches is None or fact[3] in caches) \
               and (kind, name, val) in s:
                return True
    return False


def bound_args(g, c):
    """Parameter name -> argument node (or default) of the method call."""
    pos = g.params[1:]
    out = {}
    for p, a in zip(pos, c.args):
        if isinstance(a, ast.Starred):
            return {}, True
        out[p] = a
    for k in c.keywords:
        if k.arg is None:
            return out, True
        out[k.arg] = k.value
    a = g.node.args
    allp = [x.arg for x in a.posonlyargs + a.args]
    for p, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
        out.setdefault(p, d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out.setdefault(p.arg, d)
    return out, False


class FuncFlow(pyflow.Flow):
    def __init__(self, an, f, check=False):
        self.an, self.f = an, f
        self.leaves = set()
        self.where = {}
        self.news = {n.targets[0].id for n in ast.walk(f.node)
                     if isinstance(n, ast.Assign)
                     and isinstance(n.targets[0], ast.Name)
                     and isinstance(n.value, ast.Call)
                     and is_ctor(n.value)}
        self.bools = {p for p, d in defaults(f.node)
                      if isinstance(d, ast.Constant)
                      and isinstance(d.value, bool)}
        # Conditions to remember.
        self.ptrack = self.bools | {x[1] for e in ENTRIES for x in e.excuse
                                    if x[0] == 'P'}
        self.ntrack = {p for p, d in defaults(f.node) if is_none(d)} | {
            x[1] for e in ENTRIES for x in e.excuse if x[0] == 'N'}
        self.stores = 0
        self.resets = 0

    # -- facts -----------------------------------------------------------
    def add_reset(self, s, obj, eid, cache, idx='*'):
        self.resets += 1
        out = {x for x in s
               if not (x[0] == 'S' and x[1:4] == (obj, eid, cache)
                       and (idx == '*' or x[4] in (idx, '*')))}
        out.add(('R', obj, eid, cache, idx))
        return frozenset(out)

    def add_store(self, s, obj, e, idx, n):
        if obj in self.news or self.f.name in e.exempt \
           or (self.f.name in CONSTRUCTORS and obj == 'self'):
            return s
        self.stores += 1
        out = set(s)
        for c in e.caches:
            if any(x[0] == 'R' and x[1:4] == (obj, e.id, c)
                   and (x[4] == '*' or idx == '*' or x[4] == idx)
                   for x in s):
                continue
            x = ('S', obj, e.id, c, idx)
            self.where.setdefault(x, n)
            out.add(x)
        return frozenset(out)

    def known(self, s, n):
        """Truth of an expression in state `s`."""
        if isinstance(n, ast.Constant):
            return bool(n.value)
        t = obj_text(n)
        if t is not None:
            if ('P', t, True) in s:
                return True
            if ('P', t, False) in s or ('N', t, True) in s:
                return False
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.known(s, n.operand)
            return None if v is None else not v
        return None

    def branch(self, test, s, val):
        t = obj_text(test)
        if t is not None:
            if ('P', t, not val) in s or (val and ('N', t, True) in s):
                return set()
            return {s | {('P', t, val)}} if t in self.ptrack else {s}
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
           and is_none(test.comparators[0]) \
           and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            t = obj_text(test.left)
            if t is not None:
                v = isinstance(test.ops[0], ast.Is) == val
                if ('N', t, not v) in s or (v and ('P', t, True) in s):
                    return set()
                return {s | {('N', t, v)}} if t in self.ntrack else {s}
        return {s}

    # -- statements ------------------------------------------------------
    def stmt(self, n, s):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return {s}
        ss = {s}
        for c in calls_in(n):
            ss = {y for x in ss for y in self.call(c, x)}
        if isinstance(n, ast.Assign):
            for t in n.targets:
                ss = {self.assign(t, n.value, x, n) for x in ss}
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            ss = {self.assign(n.target, n.value, x, n) for x in ss}
        elif isinstance(n, ast.AugAssign):
            ss = {self.augment(n.target, x, n) for x in ss}
        elif isinstance(n, ast.Delete):
            pass
        return ss

    def assign(self, t, value, s, n):
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) \
                and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vals):
                s = self.assign(x, v, s, n)
            return s
        if isinstance(t, ast.Name):
            # self.x = t, t = t and ... keep what is known.
            keep = isinstance(value, ast.BoolOp) \
                and isinstance(value.op, ast.And) \
                and any(isinstance(v, ast.Name) and v.id == t.id
                        for v in value.values)
            out = set()
            for x in s:
                if x[0] in 'PN' and x[1] == t.id:
                    if keep and x == ('P', t.id, False):
                        out.add(x)
                    continue
                if x[0] == 'A' and x[1] == t.id:
                    continue
                out.add(x)
            if keep:
                out.add(('W', t.id))
            elif value is not None and t.id in self.f.all_params():
                out.add(('T', t.id))
            a = self.alias_of(value, s)
            if a is not None:
                out.add(('A', t.id) + a)
            return frozenset(out)
        if isinstance(t, ast.Attribute):
            obj = obj_text(t.value)
            ty = self.an.type_of(self.f, obj)
            if ty is None:
                return s
            if t.attr in ('has_lcbc', 'r_vec'):
                s = frozenset(x for x in s if not (
                    x[0] in 'PN' and x[1] == obj + '.' + t.attr))
            for e in self.an.entries_of(ty):
                if t.attr in e.caches and (
                        e.any_store or (value is not None
                                        and is_empty(value))):
                    s = self.add_reset(s, obj, e.id, t.attr)
                if t.attr in e.src and not e.inplace:
                    if e.none_ok and value is not None and is_none(value):
                        continue
                    s = self.add_store(s, obj, e, '*' if e.id == 'data'
                                       and t.attr != 'data' else '*', n)
            return s
        if isinstance(t, ast.Subscript):
            return self.element(t, s, n)
        return s

    def augment(self, t, s, n):
        if isinstance(t, ast.Subscript):
            return self.element(t, s, n)
        if isinstance(t, ast.Name):
            for x in s:
                if x[0] == 'A' and x[1] == t.id:
                    return self.array_store(s, x[2], x[3], '*', n)
            return s
        if isinstance(t, ast.Attribute):
            return self.array_store(s, obj_text(t.value), t.attr, '*', n)
        return s

    def element(self, t, s, n):
        """X[...] = v"""
        b, idx = t, None
        while isinstance(b, ast.Subscript):
            idx, b = b.slice, b.value
        if isinstance(b, ast.Name):
            for x in s:
                if x[0] == 'A' and x[1] == b.id:
                    s = self.array_store(s, x[2], x[3], x[4], n)
            return s
        if isinstance(b, ast.Attribute):
            return self.array_store(s, obj_text(b.value), b.attr,
                                    step_of_index(idx)
                                    if b.attr == 'data' else '*', n)
        return s

    def array_store(self, s, obj, attr, idx, n):
        ty = self.an.type_of(self.f, obj)
        if ty is None:
            return s
        for e in self.an.entries_of(ty):
            if attr in e.src and not e.whole_only:
                s = self.add_store(s, obj, e,
                                   '0' if e.id in ('vec', 'rvec') else idx, n)
            if attr in e.caches and e.any_store:
                s = self.add_reset(s, obj, e.id, attr)
        return s

    def alias_of(self, v, s):
        """(object, attribute, step) of an array that `v` evaluates to."""
        if v is None:
            return None
        if isinstance(v, ast.Attribute) and v.attr in ('vec',):
            obj = obj_text(v.value)
            if self.an.type_of(self.f, obj) is not None:
                return (obj, v.attr, '0')
        if isinstance(v, ast.Subscript):
            b = v
            while isinstance(b, ast.Subscript):
                i, b = b.slice, b.value
            if isinstance(b, ast.Attribute) and b.attr == 'data':
                obj = obj_text(b.value)
                if self.an.type_of(self.f, obj) is not None \
                   and 'Variable' in self.mro(obj):
                    return (obj, 'data', step_of_index(i))
            return self.alias_of(b, s) if isinstance(b, ast.Name) else None
        if isinstance(v, ast.Name):
            for x in s:
                if x[0] == 'A' and x[1] == v.id:
                    return x[2:]
        if isinstance(v, ast.IfExp):
            return self.alias_of(v.body, s) or self.alias_of(v.orelse, s)
        if isinstance(v, ast.Call):
            obj = obj_text(v.func)
            ty = self.an.type_of(self.f, obj) if obj != 'self' else None
            if ty is None and obj == 'self' and self.f.cls is not None:
                ty = self.f.cls.name
            if ty is not None:
                kw = {k.arg for k in v.keywords}
                if ty in self.an.family['Variables'] and not v.args:
                    return (obj, 'vec', '0')
                if ty in self.an.family['Variable'] \
                   and 'derivative' not in kw and len(v.args) <= 1:
                    st = v.args[0] if v.args else next(
                        (k.value for k in v.keywords if k.arg == 'step'),
                        None)
                    return (obj, 'data', norm_step(st))
        return None

    def mro(self, obj):
        ty = self.an.type_of(self.f, obj)
        c = self.an.pp.cls(ty) if ty else None
        return {x.name for x in c.mro()} if c is not None else set()

    # -- calls -----------------------------------------------------------
    def call(self, c, s):
        fn = c.func
        if not isinstance(fn, ast.Attribute):
            return self.writes_args(c, s)
        m = fn.attr
        recv = fn.value
        # X.cache.clear(), X.vec.fill(), alias.fill()
        if m == 'clear' and isinstance(recv, ast.Attribute):
            obj = obj_text(recv.value)
            ty = self.an.type_of(self.f, obj)
            if ty is not None:
                for e in self.an.entries_of(ty):
                    if recv.attr in e.caches:
                        s = self.add_reset(s, obj, e.id, recv.attr)
                return {s}
        if m in ('fill', 'sort', 'put', 'itemset', 'resize'):
            b = recv
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                for x in s:
                    if x[0] == 'A' and x[1] == b.id:
                        s = self.array_store(s, x[2], x[3], x[4], c)
                return {s}
            if isinstance(b, ast.Attribute):
                return {self.array_store(s, obj_text(b.value), b.attr, '*',
                                         c)}
        obj = obj_text(recv)
        ty = self.an.type_of(self.f, obj)
        if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) \
           and recv.func.id == 'super' and self.f.cls is not None:
            obj, ty = 'self', self.f.cls.name
        if ty is None:
            return self.writes_args(c, s)
        if m in RESET_STEP:
            eid, cache = RESET_STEP[m]
            st = next((k.value for k in c.keywords if k.arg == 'step'),
                      c.args[0] if c.args else None)
            return {self.add_reset(s, obj, eid, cache, norm_step(st))}
        gs = self.an.methods(ty, m)
        if not gs:
            return self.writes_args(c, s)
        out = set()
        for g in gs:
            out |= self.apply(g, c, obj, s)
        return {y for x in out for y in self.writes_args(c, x)}

    def apply(self, g, c, obj, s):
        args, star = bound_args(g, c)
        out = set()
        for leaf in self.an.summary(g):
            cur = set(s)
            ok = True
            for x in leaf:
                if x[0] not in 'PN':
                    continue
                a = args.get(x[1])
                if a is None:
                    continue
                if x[0] == 'P':
                    v = self.known(cur, a)
                    if v is not None:
                        ok = ok and v == x[2]
                    elif obj_text(a) in self.ptrack:
                        cur.add(('P', obj_text(a), x[2]))
                else:
                    if isinstance(a, ast.Constant):
                        ok = ok and (a.value is None) == x[2]
                    elif obj_text(a) is not None:
                        t = obj_text(a)
                        if ('N', t, not x[2]) in cur:
                            ok = False
                        elif t in self.ntrack:
                            cur.add(('N', t, x[2]))
                    elif x[2]:
                        ok = False       # an expression is not None
            if not ok:
                continue
            cur = frozenset(cur)
            for x in sorted(leaf, key=repr):
                if x[0] in 'SR':
                    o = obj + x[1][len('self'):]
                    idx = x[4]
                    if idx in args:
                        idx = norm_step(args[idx])
                    if x[0] == 'R':
                        cur = self.add_reset(cur, o, x[2], x[3], idx)
            for x in sorted(leaf, key=repr):
                if x[0] == 'S':
                    o = obj + x[1][len('self'):]
                    e = next(e for e in ENTRIES if e.id == x[2])
                    idx = x[4]
                    if idx in args:
                        idx = norm_step(args[idx])
                    if self.f.name in CONSTRUCTORS and o == 'self':
                        continue
                    if o in self.news or self.f.name in e.exempt:
                        continue
                    y = ('S', o, x[2], x[3], idx)
                    if any(z[0] == 'R' and z[1:4] == y[1:4]
                           and ('R',) + y[1:4] + (z[4],) not in leaf
                           and z[4] in ('*', idx) for z in cur):
                        continue
                    self.where.setdefault(y, c)
                    cur = cur | {y}
            out.add(cur)
        return out or {s}

    def writes_args(self, c, s):
        """Calls that write into a state array given as an argument."""
        al = [x for x in s if x[0] == 'A']
        direct = [a for a in list(c.args) + [k.value for k in c.keywords]
                  if isinstance(a, ast.Attribute) and a.attr == 'vec']
        if not al and not direct:
            return {s}
        names = {x[1]: x for x in al}
        ts = self.an.prog.resolve_all(self.f, c)
        if not ts:
            # numpy-style output arguments
            for k in c.keywords:
                if k.arg == 'out' and isinstance(k.value, ast.Name) \
                   and k.value.id in names:
                    x = names[k.value.id]
                    s = self.array_store(s, x[2], x[3], x[4], c)
            return {s}
        for g, off in ts:
            w = self.an.written(g)
            if not w:
                continue
            pos = g.params[off:]
            pairs = list(zip(pos, c.args)) + [(k.arg, k.value)
                                              for k in c.keywords]
            for p, a in pairs:
                if p not in w:
                    continue
                if isinstance(a, ast.Name) and a.id in names:
                    x = names[a.id]
                    s = self.array_store(s, x[2], x[3], x[4], c)
                elif isinstance(a, ast.Attribute):
                    s = self.array_store(s, obj_text(a.value), a.attr, '*',
                                         c)
        return {s}

    # -- loops over all state variables ----------------------------------
    def one(self, n, states):
        own = None
        if isinstance(n, ast.For):
            own = self.loop_owner(n)
        if own is None:
            return pyflow.Flow.one(self, n, states)
        for p in sorted(self.bools & {x.id for x in ast.walk(n)
                                      if isinstance(x, ast.Name)}):
            new = set()
            for s in states:
                if ('P', p, True) in s or ('P', p, False) in s:
                    new.add(s)
                else:
                    new |= {s | {('P', p, True)}, s | {('P', p, False)}}
            states = new
        out = pyflow.Flow.one(self, n, states)
        res = set()
        e = next(e for e in ENTRIES if e.id == 'vec')
        cache = next(iter(e.caches))
        for s in out:
            pre = frozenset(x for x in s if x[0] in 'PN')
            done = self.all_paths_reset(n, pre)
            if done:
                s = self.add_reset(s, own, 'vec', cache, '0')
            res.add(s)
        return res

    def loop_owner(self, n):
        """for var in X.iter_state(), for name in X.state"""
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
           and it.func.attr == 'iter_state' and not it.args \
           and not it.keywords:
            obj = obj_text(it.func.value)
        elif isinstance(it, ast.Attribute) and it.attr in (
                'state', 'ordered_state'):
            obj = obj_text(it.value)
        else:
            return None
        ty = self.an.type_of(self.f, obj)
        if ty is not None and ty in self.an.family['Variables']:
            return obj
        return None

    def all_paths_reset(self, n, pre):
        sub = FuncFlow(self.an, self.f)
        fn = ast.FunctionDef(name=self.f.name, args=self.f.node.args,
                             body=[ast.While(test=ast.Constant(True),
                                             body=n.body + [ast.Break()],
                                             orelse=[])],
                             decorator_list=[], lineno=n.lineno,
                             col_offset=0)
        sub.loopvar = n.target
        sub.run(fn, {pre})
        tgt = {n.target.id} if isinstance(n.target, ast.Name) else set()
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and isinstance(x.value,
                                                        ast.Subscript) \
               and isinstance(x.value.slice, ast.Name) \
               and x.value.slice.id in tgt \
               and isinstance(x.targets[0], ast.Name):
                tgt = tgt | {x.targets[0].id}
        ok = bool(sub.leaves)
        for s, _ in sub.leaves:
            if not any(x[0] == 'R' and x[1] in tgt and x[2] == 'data'
                       and x[4] in ('0', '*', 'step') for x in s):
                ok = False
        return ok

    def leave(self, how, node, s):
        if how != 'raise':
            # Facts of reassigned parameters are not about the arguments.
            t = {x[1] for x in s if x[0] == 'T'}
            s = frozenset(x for x in s
                          if not (x[0] in 'PN' and x[1] in t))
            self.leaves.add((s, how))


def is_ctor(c):
    n = c.func.attr if isinstance(c.func, ast.Attribute) else (
        c.func.id if isinstance(c.func, ast.Name) else '')
    return n[:1].isupper() or n in ('copy', 'deepcopy', 'from_conf',
                                    'from_args', '__new__')


def defaults(fn):
    a = fn.args
    allp = [x.arg for x in a.posonlyargs + a.args]
    out = list(zip(allp[len(allp) - len(a.defaults):], a.defaults))
    out += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
    return out


def calls_in(n):
    """Calls of a simple statement, inner first."""
    out = []

    def rec(x):
        if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return
        for y in ast.iter_child_nodes(x):
            rec(y)
        if isinstance(x, ast.Call):
            out.append(x)
    rec(n)
    return out


# -- structural rules -----------------------------------------------------
def fold(n, env):
    """Three-valued evaluation of a condition; `env`: text -> value."""
    t = text(n)
    if t in env:
        return env[t]
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        v = fold(n.operand, env)
        return UNKNOWN if v is UNKNOWN else not v
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand, env)
        return UNKNOWN if v is UNKNOWN else -v
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        a, b = fold(n.left, env), fold(n.right, env)
        if UNKNOWN in (a, b):
            return UNKNOWN
        try:
            return a + b if isinstance(n.op, ast.Add) else a - b
        except TypeError:
            return UNKNOWN
    if isinstance(n, ast.BoolOp):
        vs = [fold(v, env) for v in n.values]
        stop = isinstance(n.op, ast.Or)
        if any(v is not UNKNOWN and bool(v) == stop for v in vs):
            return stop
        return UNKNOWN if any(v is UNKNOWN for v in vs) else not stop
    if isinstance(n, ast.Compare):
        vs = [fold(v, env) for v in [n.left] + n.comparators]
        res = True
        for a, op, b in zip(vs, n.ops, vs[1:]):
            if UNKNOWN in (a, b):
                if isinstance(a, (str, int, type(None))) \
                   or isinstance(b, (str, int, type(None))):
                    pass
                return UNKNOWN
            f = CMP.get(type(op))
            if f is None:
                return UNKNOWN
            try:
                if not f(a, b):
                    return False
            except TypeError:
                return UNKNOWN
        return res
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        vs = [fold(v, env) for v in n.elts]
        return UNKNOWN if any(v is UNKNOWN for v in vs) else tuple(vs)
    return UNKNOWN


class _U:
    def __repr__(self):
        return '?'


UNKNOWN = _U()
CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
       ast.Is: lambda a, b: a is b or a == b,
       ast.IsNot: lambda a, b: not (a is b or a == b),
       ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
       ast.Lt: lambda a, b: a < b, ast.Gt: lambda a, b: a > b,
       ast.LtE: lambda a, b: a <= b, ast.GtE: lambda a, b: a >= b}


class Assume(pyflow.Flow):
    """
    Paths consistent with assumed values of expressions.  States are sets of
    events (from `events(stmt node)`) plus constants of assigned locals.
    """

    def __init__(self, env, events):
        self.env, self.events = env, events
        self.outs = set()

    def full_env(self, s):
        env = dict(self.env)
        for x in s:
            if x[0] == '=':
                env[x[1]] = x[2]
            elif x[0] == '?':
                env.pop(x[1], None)
        return env

    def stmt(self, n, s):
        new = set(s)
        for ev in self.events(n):
            new.add(('ev', ev))
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            k = obj_text(t)
            if k is not None:
                v = fold(n.value, self.full_env(s))
                new = {x for x in new if not (x[0] in '=?' and x[1] == k)}
                if v is UNKNOWN or not isinstance(v, (str, int, bool,
                                                      type(None), tuple)):
                    # `k` alone is unknown unless assumed to be so
                    if k not in self.env:
                        new.add(('?', k))
                elif k not in self.env or isinstance(t, ast.Attribute):
                    new.add(('=', k, v))
        return {frozenset(new)}

    def branch(self, test, s, val):
        v = fold(test, self.full_env(s))
        if v is UNKNOWN:
            return {s}
        return {s} if bool(v) == val else set()

    def leave(self, how, node, s):
        if how != 'raise':
            self.outs.add(s)


def paths_without(f, env, events, want):
    """Do some consistent paths leave `f` without the event `want`?"""
    fl = Assume(env, events)
    fl.run(f.node, {frozenset()})
    return [s for s in fl.outs if ('ev', want) not in s], len(fl.outs)


def stored_attrs(n):
    ts = []
    if isinstance(n, ast.Assign):
        ts = n.targets
    elif isinstance(n, ast.AugAssign):
        ts = [n.target]
    out = []
    for t in ts:
        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
            if isinstance(x, ast.Attribute):
                out.append((obj_text(x.value), x.attr))
    return out


def find(pp, cname, m):
    c = pp.cls(cname)
    g = c.find(m) if c is not None else None
    if g is None:
        raise AnalysisBroken('%s.%s not found' % (cname, m))
    return g


def inlined(pp, f, depth=2):
    """Nodes of `f` and of the methods of the same object it calls."""
    seen, todo, out = set(), [(f, depth)], []
    while todo:
        g, d = todo.pop()
        if id(g.node) in seen:
            continue
        seen.add(id(g.node))
        out.append(g)
        if d == 0:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                h = None
                if isinstance(n.func, ast.Attribute) \
                   and isinstance(n.func.value, ast.Name) \
                   and n.func.value.id == 'self' and g.cls is not None:
                    h = g.cls.find(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    h = pp.resolve_name(g.module, n.func.id)
                    if not isinstance(h, pyfe.Func):
                        h = None
                if h is not None and isinstance(h.node, ast.FunctionDef):
                    todo.append((h, d - 1))
    return out


def linear(n, name):
    """c if the expression is `name` + c, else None."""
    v = fold(n, {name: 0})
    w = fold(n, {name: 1000})
    if isinstance(v, int) and isinstance(w, int) and w - v == 1000:
        return v
    return None


def step_rules(ctx, prog):
    pp = prog.pp
    call = find(pp, 'Variable', '__call__')
    # Offsets of the steps read when evaluating at `step`.
    offs, special = set(), False
    for f in inlined(pp, call, 1):
        if f.cls is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) \
               and isinstance(n.value, ast.Attribute) \
               and n.value.attr == 'data' and isinstance(n.ctx, ast.Load):
                c = linear(ast.UnaryOp(ast.USub(), n.slice), 'step')
                if c is not None:
                    offs.add(c)
                elif fold(n.slice, {}) == 0:
                    special = True
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'step':
                        c = linear(k.value, 'step')
                        if c is not None:
                            offs.add(c)
    if not offs:
        raise AnalysisBroken('steps read by Variable.__call__()')
    need = {-c for c in offs}
    ctx.count('step_offsets', len(need))
    ctx.note('evaluation at `step` reads data of step + %s' % sorted(offs))

    g = find(pp, 'FieldVariable', 'invalidate_evaluate_cache')
    have, consts, drops = set(), [], False
    for f in inlined(pp, g, 1):
        if f is not g and not f.name.startswith('_'):
            continue
        parents = {}
        for n in ast.walk(f.node):
            for y in ast.iter_child_nodes(n):
                parents[y] = n
        for n in ast.walk(f.node):
            cands = []
            if isinstance(n, (ast.List, ast.Tuple, ast.Set)) \
               and isinstance(n.ctx if hasattr(n, 'ctx') else ast.Load(),
                              ast.Load):
                cands = n.elts
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        'append', 'add', 'extend', 'pop', 'update'):
                cands = n.args
            elif isinstance(n, ast.Compare):
                cands = [n.left] + n.comparators
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'range' and len(n.args) == 2:
                a, b = [linear(x, 'step') for x in n.args]
                if None not in (a, b):
                    have |= set(range(a, b))
            for x in cands:
                c = linear(x, 'step')
                if c is not None:
                    have.add(c)
                elif fold(x, {}) == -1:
                    consts.append((x, guards_of(x, parents)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
               and n.func.attr in ('pop', 'clear'):
                drops = True
            if isinstance(n, ast.Delete):
                drops = True
            if isinstance(n, ast.Assign) and isinstance(n.targets[0],
                                                        ast.Subscript) \
               and is_empty(n.value):
                drops = True
            if isinstance(n, ast.Assign) \
               and ('self', 'evaluate_cache') in stored_attrs(n):
                drops = True
                if is_empty(n.value):
                    have |= need     # everything is dropped
                    consts.append((n, []))
    ctx.count('rules')
    if not drops:
        ctx.violation('steps:drop', 'invalidate_evaluate_cache() does not'
                      ' remove anything', g.where())
    for c in sorted(need - have):
        ctx.violation(
            'steps:%d' % c, 'evaluation at step + %d reads the data of'
            ' `step`, but is kept by invalidate_evaluate_cache(step)' % c,
            g.where())
    if special:
        ctx.count('rules')
        ok = False
        for x, gs in consts:
            env = {'self.step': 0, 'step': 0}
            vs = [fold(t, env) if v else fold(ast.UnaryOp(ast.Not(), t), env)
                  for t, v in gs]
            if all(v is UNKNOWN or v for v in vs):
                ok = True
        if not ok:
            ctx.violation(
                'steps:initial', 'in time step 0 the previous step values are'
                ' those of the current step, but are kept by'
                ' invalidate_evaluate_cache(0)', g.where())


def guards_of(n, parents):
    """Enclosing If tests with the branch taken."""
    out = []
    while n in parents:
        p = parents[n]
        if isinstance(p, ast.If) and n is not p.test:
            out.append((p.test, n in p.body))
        n = p
    return out


def advance_rule(ctx, prog):
    pp = prog.pp
    g = find(pp, 'Variable', 'advance')
    dshift, kshift, order = set(), [], []
    where = g.where()
    fs = inlined(pp, g, 2)
    for f in fs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                t = n.targets[0]
                b, i = t, None
                while isinstance(b, ast.Subscript):
                    i, b = b.slice, b.value
                if isinstance(b, ast.Attribute) and b.attr == 'data' \
                   and isinstance(t, ast.Subscript):
                    for y in ast.walk(n.value):
                        if isinstance(y, ast.Subscript) \
                           and isinstance(y.value, ast.Attribute) \
                           and y.value.attr == 'data':
                            # data[i] = data[i - 1]: age + 1
                            for x in names_in(i):
                                a, c = linear(i, x), linear(y.slice, x)
                                if None not in (a, c):
                                    dshift.add(a - c)
                            order.append((f, n))
                elif isinstance(t, ast.Subscript) \
                        and isinstance(b, ast.Name):
                    for x in names_in(t.slice):
                        c = linear(t.slice, x)
                        if c is not None and loops_over_keys(f, x):
                            kshift.append((c, n, x, f))
    if not dshift:
        raise AnalysisBroken('shift of data in Variable.advance()')
    ctx.count('rules', 2)
    if dshift != {1}:
        ctx.violation('advance:data', 'the history data are not shifted by'
                      ' one step', where)
    if not kshift:
        # Caches must be discarded then.
        if not any(isinstance(n, ast.Assign) and is_empty(n.value)
                   and ('self', 'evaluate_cache') in stored_attrs(n)
                   for f in fs for n in ast.walk(f.node)) \
           and not any(isinstance(n, ast.Call)
                       and pyfe.call_name(n).split('.')[-1] in (
                           'clear', 'clear_evaluate_cache')
                       for f in fs for n in ast.walk(f.node)):
            ctx.violation('advance:cache', 'the evaluated data are neither'
                          ' moved to the previous step nor discarded when the'
                          ' data are', where)
    for c, n, x, f in kshift:
        if c != -1:
            ctx.violation('advance:cache', 'data move to step - 1, their'
                          ' evaluate cache to step %+d' % c, f.where(n))
        lp = loop_of(f, x)
        if lp is not None and descending(f, lp.iter):
            ctx.violation('advance:order', 'caches of older steps are'
                          ' overwritten before they are moved', f.where(lp))
    for f, n in order:
        lp = enclosing_for(f, n)
        if lp is not None and isinstance(lp.iter, ast.Call) \
           and pyfe.call_name(lp.iter) == 'range' \
           and not ends_none_guard(f, n):
            a = lp.iter.args
            asc = len(a) < 3 or (isinstance(fold(a[2], {}), int)
                                 and fold(a[2], {}) > 0)
            if asc:
                ctx.violation('advance:data-order', 'the history data are'
                              ' overwritten before they are moved',
                              f.where(n))


def ends_none_guard(f, n):
    """Under `if self.data[ii] is None`."""
    parents = {}
    for x in ast.walk(f.node):
        for y in ast.iter_child_nodes(x):
            parents[y] = x
    return any('None' in text(t) for t, v in guards_of(n, parents))


def names_in(n):
    return sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)}) \
        if n is not None else []


def loop_of(f, name):
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) \
           and n.target.id == name:
            return n
    return None


def loops_over_keys(f, name):
    return loop_of(f, name) is not None


def enclosing_for(f, n):
    best = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.For) and any(y is n for y in ast.walk(x)):
            best = x
    return best


def descending(f, it):
    """Is the iteration over step keys not known to be ascending?"""
    if isinstance(it, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0],
                                                        ast.Name) \
               and n.targets[0].id == it.id:
                return descending(f, n.value)
    if isinstance(it, ast.Call):
        nm = pyfe.call_name(it)
        if nm == 'sorted':
            for k in it.keywords:
                if k.arg == 'reverse' and fold(k.value, {}) is not False:
                    return True
                if k.arg == 'key':
                    return True
            return False
        if nm == 'reversed':
            return not descending(f, it.args[0])
        if nm in ('list', 'tuple') and it.args:
            return descending(f, it.args[0])
    if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) \
       and it.slice.step is not None and fold(it.slice.step, {}) == -1:
        return not descending(f, it.value)
    return True     # dictionary order


def default_rules(ctx, prog):
    """Nobody keeps stale data without asking for it."""
    for f in prog.pp.all_funcs():
        if not isinstance(f.node, ast.FunctionDef):
            continue
        for p, d in defaults(f.node):
            if p == 'preserve_caches':
                ctx.count('defaults')
                if fold(d, {}) is not False:
                    ctx.violation('default:%s.%s' % (f.qual, p),
                                  'caches are preserved by default',
                                  f.where())
            if p == 'clear_all' and f.name == 'set_mesh_coors':
                ctx.count('defaults')
                if fold(d, {}) is not True:
                    ctx.violation('default:%s.%s' % (f.qual, p),
                                  'saved mappings are preserved by default',
                                  f.where())
        for n in pyfe.own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
               and n.func.attr in ('set_data', 'set_state', 'set_full_state',
                                   'set_reduced_state'):
                ctx.count('setter_calls')
                for k in n.keywords:
                    if k.arg == 'preserve_caches' \
                       and fold(k.value, {}) is True:
                        ctx.violation(
                            'preserve:%s:%s' % (f.qual, n.func.attr),
                            'new data are set and the values evaluated from'
                            ' the old data are kept', f.where(n))


def guard_rules(ctx, prog):
    pp = prog.pp

    # Material.time_update()
    mat = find(pp, 'Material', 'time_update')
    resetters = {'reset'}

    def ev_mat(n):
        if ('self', 'datas') in stored_attrs(n) \
           and isinstance(n, ast.Assign) and is_empty(n.value):
            yield 'reset'
        for c in calls_in(n) if not isinstance(n, (ast.FunctionDef,)) else ():
            if isinstance(c.func, ast.Attribute):
                if c.func.attr == 'clear' \
                   and text(c.func.value) == 'self.datas':
                    yield 'reset'
                if text(c.func.value) == 'self':
                    h = mat.cls.find(c.func.attr)
                    if h is not None and c.func.attr not in resetters:
                        if any(isinstance(y, ast.Assign)
                               and is_empty(y.value)
                               and ('self', 'datas') in stored_attrs(y)
                               for y in h.node.body):
                            yield 'reset'
                if c.func.attr == 'update_data':
                    yield 'update'
    cases = [
        ('forced', {'mode': 'force'}),
        ('time-dependent', {'mode': 'normal', 'self.mode': None,
                            'self.kind': 'time-dependent',
                            'self.is_constant': False, 'self.datas': True}),
    ]
    for what, env in cases:
        ctx.count('guards')
        bad, n = paths_without(mat, env, ev_mat, 'reset')
        if n == 0:
            raise AnalysisBroken('no path of Material.time_update()')
        if bad:
            ctx.violation('guard:material:%s' % what, 'material data of the'
                          ' previous time are kept by a %s update' % what,
                          mat.where())

    # Problem.update_equations(), Equations.time_update()
    upd = find(pp, 'Problem', 'update_equations')

    def ev_mtx(n):
        if ('self', 'mtx_a') in stored_attrs(n):
            yield 'matrix'
        if any(isinstance(c.func, ast.Attribute)
               and c.func.attr in ('create_matrix_graph', 'create_matrix')
               for c in calls_in(n)):
            yield 'matrix'
    src = None
    for n in ast.walk(upd.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
           and isinstance(n.value.func, ast.Attribute) \
           and n.value.func.attr == 'time_update':
            src = n.targets[0]
    env = {'is_matrix': True, 'self.active_only': True,
           'create_matrix': False}
    if src is not None:
        env[text(src)] = True
    env['graph_changed'] = env['self.graph_changed'] = True
    ctx.count('guards')
    bad, n = paths_without(upd, env, ev_mtx, 'matrix')
    if n == 0:
        raise AnalysisBroken('no path of Problem.update_equations()')
    if bad:
        ctx.violation('guard:matrix-graph', 'the tangent matrix is kept when'
                      ' the set of active boundary conditions changes',
                      upd.where())

    eqt = find(pp, 'Equations', 'time_update')

    def ev_conn(n):
        for c in calls_in(n):
            if isinstance(c.func, ast.Attribute) \
               and c.func.attr == 'set_adof_conns':
                yield 'conns'
            if isinstance(c.func, ast.Attribute) \
               and c.func.attr == 'setup_lcbc_operators':
                yield 'lcbc'
            if isinstance(c.func, ast.Attribute) \
               and c.func.attr == 'equation_mapping':
                yield 'map'
    genv = {'graph_changed': True,
            'active_bcs != self.active_bcs': True,
            'self.active_bcs != active_bcs': True,
            'active_bcs == self.active_bcs': False,
            'regions_changed': None}
    for want, msg in (('conns', 'the active DOF connectivities are kept when'
                       ' the boundary conditions change'),
                      ('lcbc', 'the LCBC operators are not updated'),
                      ('map', 'the equation mappings are not updated')):
        ctx.count('guards')
        bad, n = paths_without(eqt, genv, ev_conn, want)
        if n == 0:
            raise AnalysisBroken('no path of Equations.time_update()')
        if bad:
            ctx.violation('guard:%s' % want, msg, eqt.where())
    # What is compared is stored for the next comparison.
    ctx.count('guards')
    bad, n = paths_without(
        eqt, {}, lambda n: ['a' for o, a in stored_attrs(n)
                            if (o, a) == ('self', 'active_bcs')], 'a')
    if bad:
        ctx.violation('guard:active_bcs', 'the active boundary conditions'
                      ' are not remembered', eqt.where())


def compare_rules(ctx, prog):
    """graph_changed compares the whole sets of active conditions."""
    f = find(prog.pp, 'Equations', 'time_update')
    cmp = []
    for g in inlined(prog.pp, f, 1):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Compare) or (
                    isinstance(n, ast.BinOp)
                    and isinstance(n.op, (ast.BitXor, ast.Sub))):
                ts = [x.attr if isinstance(x, ast.Attribute) else
                      getattr(x, 'id', '') for x in ast.walk(n)]
                if ts.count('active_bcs') >= 2:
                    cmp.append((g, n))
    ctx.count('compared', len(cmp))
    for g, n in cmp:
        lossy = [c for c in calls_in(n) if pyfe.call_name(c).split('.')[-1]
                 not in ('set', 'frozenset', 'sorted', 'tuple', 'list',
                         'symmetric_difference', 'bool')]
        part = isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) \
            or isinstance(n, ast.Compare) and not isinstance(
                n.ops[0], (ast.Eq, ast.NotEq))
        if lossy or (part and len(cmp) == 1):
            ctx.violation('compare:active_bcs', 'different sets of active'
                          ' boundary conditions may compare equal',
                          g.where(n))
    if not cmp:
        raise AnalysisBroken('comparison of active boundary conditions')


def option_rules(ctx, prog):
    """Without preserve_caches the caches are discarded."""
    for f in prog.pp.all_funcs():
        if not isinstance(f.node, ast.FunctionDef) \
           or 'preserve_caches' not in f.all_params():
            continue
        ctx.count('options')
        parents = {}
        for n in ast.walk(f.node):
            for y in ast.iter_child_nodes(n):
                parents[y] = n
        resets, passed, uses = [], False, []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == 'preserve_caches':
                uses.append(n)
            if not isinstance(n, ast.Call):
                continue
            name = pyfe.call_name(n).split('.')[-1]
            if name.startswith(('invalidate_', 'clear_evaluate_cache')):
                gs = [(t, v) for t, v in guards_of(n, parents)
                      if 'preserve_caches' in names_in(t)]
                if all(fold(t, {'preserve_caches': False}) in (v, UNKNOWN)
                       for t, v in gs):
                    resets.append(n)
            if any(k.arg == 'preserve_caches' for k in n.keywords):
                passed = True
        # Functions that hand the option over to a call need no reset.
        if not resets and not passed and uses:
            ctx.violation('option:%s' % f.qual, 'evaluated data are kept also'
                          ' without preserve_caches', f.where())
    # All the variables in equations are invalidated.
    f = find(prog.pp, 'Equations', 'invalidate_term_caches')
    ctx.count('options')
    ok = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and text(n.iter) in (
                'self.variables', 'self.variables._objs',
                'self.variables.itervalues()',
                'self.variables.as_dict().values()'):
            for st in n.body:
                if any(isinstance(c.func, ast.Attribute) and c.func.attr in (
                        'invalidate_evaluate_cache', 'clear_evaluate_cache')
                        for c in calls_in(st)) and isinstance(st, ast.Expr):
                    ok = True
    if not ok and not any(isinstance(n, ast.Call) and
                          pyfe.call_name(n).endswith('map')
                          for n in ast.walk(f.node)):
        ctx.violation('option:%s' % f.qual, 'not all variables of the'
                      ' equations are invalidated', f.where())


def order_rules(ctx, prog):
    """The state is set before residuals and tangents are evaluated."""
    pp = prog.pp
    for m in ('eval_residuals', 'eval_tangent_matrices'):
        f = find(pp, 'Equations', m)
        ctx.count('order')

        class Order(pyflow.Flow):
            def stmt(self, n, s):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    return {s}
                for c in calls_in(n):
                    if not isinstance(c.func, ast.Attribute):
                        continue
                    a = c.func.attr
                    if a in ('set_state', 'set_full_state',
                             'set_reduced_state') and not any(
                                 k.arg == 'preserve_caches'
                                 and fold(k.value, {}) is not False
                                 for k in c.keywords):
                        s = s | {'set'}
                    if a == 'evaluate' and 'set' not in s:
                        ctx.violation(
                            'order:%s' % m, 'the equations are evaluated'
                            ' before the state is set', f.where(n))
                return {s}
        Order().run(f.node, {frozenset()})
    # init_state(): variables see the new state vector
    c = pp.cls('Variables')
    for f in sorted(c.methods.values(), key=lambda f: f.name) \
            if hasattr(c, 'methods') else []:
        if f.name in CONSTRUCTORS or not isinstance(f.node, ast.FunctionDef):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and ('self', 'vec') in \
               stored_attrs(n) and not is_none(n.value):
                ctx.count('order')
                v = text(n.value)

                def ev(st, v=v):
                    for c in calls_in(st):
                        if isinstance(c.func, ast.Attribute) \
                           and c.func.attr == 'set_data' \
                           and text(c.func.value) == 'self' and c.args \
                           and text(c.args[0]) in (v, 'self.vec') \
                           and len(c.args) == 1 and not c.keywords:
                            yield 'set'
                bad, k = paths_without(f, {}, ev, 'set')
                if bad:
                    ctx.violation(
                        'state:%s' % f.qual, 'the state vector is replaced,'
                        ' but the state variables keep the old one',
                        f.where(n))


def mesh_rule(ctx, prog):
    """New mesh coordinates reach the fields if asked for."""
    pp = prog.pp
    for f in pp.all_funcs():
        if f.name != 'set_mesh_coors' or not isinstance(f.node,
                                                        ast.FunctionDef):
            continue
        stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                  and isinstance(n.targets[0], ast.Subscript)
                  and text(n.targets[0].value).split('.')[-1] in (
                      'coors', 'coors_act')]
        if not stores:
            continue
        ctx.count('mesh')

        def ev(n):
            for c in calls_in(n):
                if isinstance(c.func, ast.Attribute):
                    if c.func.attr in ('set_coors', 'clear_mappings'):
                        yield c.func.attr
        # One pass through the loop over fields.
        fl = Assume({'update_fields': True}, ev)
        fl.end_for = lambda n, s: {s} if ('ev', 'loop', n.lineno) in s \
            else set()
        fl.bind_for = lambda n, s: {s | {('ev', 'loop', n.lineno)}}
        fl.run(f.node, {frozenset()})
        if not fl.outs:
            raise AnalysisBroken('no path of set_mesh_coors()')
        for want, msg in (('set_coors', 'the node coordinates of fields'),
                          ('clear_mappings', 'the reference mappings')):
            if any(('ev', want) not in s for s in fl.outs):
                ctx.violation('mesh:%s:%s' % (f.qual, want),
                              '%s are not updated with the mesh' % msg,
                              f.where())


def geometry_users(ctx, prog):
    """
    Values computed from a reference mapping and kept in a cache of another
    object (variable) have to be compared with the current mapping, as the
    mappings are renewed when the mesh coordinates change.
    """
    pp = prog.pp
    for f in pp.all_funcs():
        if not isinstance(f.node, ast.FunctionDef):
            continue
        nodes = list(pyfe.own_nodes(f))
        if not any(isinstance(n, ast.Attribute)
                   and n.attr == 'evaluate_cache' for n in nodes):
            continue
        geos = set()
        for n in nodes:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
               and isinstance(n.value.func, ast.Attribute) \
               and n.value.func.attr in ('get_mapping',):
                t = n.targets[0]
                t = t.elts[0] if isinstance(t, ast.Tuple) else t
                if isinstance(t, ast.Name):
                    geos.add(t.id)
        stored = [n for n in nodes if isinstance(n, ast.Assign)
                  and isinstance(n.targets[0], ast.Subscript)
                  and isinstance(n.targets[0].value, ast.Name)
                  and 'cache' in n.targets[0].value.id]
        if not geos or not stored:
            continue
        ctx.count('geometry_caches')
        ok = any(isinstance(n, ast.Compare)
                 and isinstance(n.ops[0], (ast.Is, ast.IsNot))
                 and not is_none(n.comparators[0])
                 and geos & {x.id for x in ast.walk(n)
                             if isinstance(x, ast.Name)}
                 for n in nodes)
        if not ok:
            ctx.violation('geometry:%s' % f.qual, 'values computed using a'
                          ' reference mapping are reused after the mapping'
                          ' was renewed', f.where())


def run(ctx):
    prog = Program(ctx.repo)
    an = Stale(ctx, prog)
    from .. import pyalias
    al = pyalias.Alias(prog.pp)

    def written(g):
        s = al.of(g)
        return {str(x).split(':', 1)[1] for x in s.writes
                if str(x).startswith('param:')} if s is not None else set()
    an.written = written

    for f in prog.pp.all_funcs():
        if not isinstance(f.node, ast.FunctionDef):
            continue
        if f.name in CONSTRUCTORS:
            continue
        ctx.count('functions')
        if id(f.node) not in an.relevant:
            continue
        fl = FuncFlow(an, f)
        fl.run(f.node, {frozenset()})
        if fl.stores:
            ctx.count('storing_functions')
            ctx.sample('%s' % f.qual)
        if fl.resets:
            ctx.count('resetting_functions')
        private = f.name.startswith('_') and f.name != '__call__'
        for s, how in sorted(fl.leaves, key=repr):
            for x in s:
                if x[0] != 'S' or excused(x, s):
                    continue
                e = next(e for e in ENTRIES if e.id == x[2])
                if x[1].split('.')[0] == 'self' and (private
                                                     or f.name in e.passes):
                    continue
                ctx.violation(
                    'stale:%s:%s:%s' % (f.qual, x[2], x[3]),
                    '%s of %s can be changed without a reset of %s%s'
                    % ('/'.join(sorted(e.src)), x[1], x[3],
                       ' (step %s)' % x[4] if x[4] not in '*' else ''),
                    f.where(fl.where.get(x)))
    step_rules(ctx, prog)
    advance_rule(ctx, prog)
    default_rules(ctx, prog)
    guard_rules(ctx, prog)
    compare_rules(ctx, prog)
    option_rules(ctx, prog)
    order_rules(ctx, prog)
    mesh_rule(ctx, prog)
    geometry_users(ctx, prog)
    ctx.floor('storing_functions', 8)
    ctx.floor('resetting_functions', 12)
    ctx.floor('defaults', 5)
    ctx.floor('guards', 6)
    ctx.floor('mesh', 1)
    ctx.floor('geometry_caches', 1)
