"""
What does a value depend on?  Forward dependence sets (data and control) of
one Python function, in terms of access paths rooted in its parameters:
`region.name`, `self.field.coors`, ...  Calls of repository functions use
summaries: the parameters that can influence the returned value.
"""
import ast

from . import pyfe
from .pyfe import call_name

DEPTH = 5
IDENT = ('name', 'key', 'names', 'bkey', '_v_pathname')
MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'setdefault',
            'pop', 'remove', 'sort', 'reverse', 'fill'}
SHALLOW = {'tuple', 'list', 'getattr', 'zip', 'dict', 'enumerate', 'get',
           'translate_fargs_mapping'}
ALLOC = {'empty', 'zeros', 'ones', 'empty_like', 'zeros_like', 'ones_like',
         'full', 'full_like', 'dict', 'list'}
PURE = {'len', 'str', 'int', 'float', 'tuple', 'list', 'isinstance', 'print',
        'output', 'range', 'enumerate', 'zip', 'repr', 'id', 'type', 'max',
        'min', 'sum', 'sorted', 'all', 'any', 'hash', 'getattr', 'hasattr'}
# What these tell about an object does not determine its data.
TAGGED = {'id': '__id__', 'isinstance': '__class__', 'type': '__class__',
          'hasattr': '__attrs__', 'callable': '__class__'}


# Calls whose result determines their arguments.
PLAIN = {'str', 'tuple', 'list', 'repr', 'join', 'format', 'hash', 'bytes',
         'float', 'int', 'frozenset', 'tobytes', 'hexdigest', 'abspath',
         'update', 'sha1', 'sha256', 'md5', 'asarray', 'ascontiguousarray',
         'astype', 'copy', 'ravel', 'sorted', 'set', 'encode', 'zip',
         'enumerate', 'items', 'append', 'extend', 'add'}


def cut(path):
    parts = path.split('.')
    if len(parts) <= DEPTH:
        return path
    return '.'.join(parts[:DEPTH])


def derived(deps):
    """Something computed from `deps`, but not a part of them."""
    return frozenset(mark(d) for d in deps)


def mark(d):
    if d.endswith('.()'):
        return d
    if d.endswith('.(id)'):
        return d[:-5] + '.()'
    if d.endswith('.[]'):
        d = d[:-3]
    return d + '.()'


def member(d, tail):
    """The attribute path `tail` of something at `d`."""
    if not tail:
        return d
    if d.endswith('.()'):
        return d[:-3] + '.(id)' if tail in IDENT else d
    if d.endswith('.(id)'):
        return d
    return cut(d + '.' + tail)


def extend(deps, tail):
    r = frozenset(deps)
    for t in tail.split('.') if tail else []:
        if t == '()':
            r = derived(r)
        elif t == '[]':
            r = selected(r)
        elif t == '(id)':
            r = frozenset(mark(d)[:-3] + '.(id)' for d in r)
        else:
            r = frozenset(member(d, t) for d in r)
    return r


def selected(deps):
    """Something selected by `deps` as an index or a key."""
    return frozenset(d if d.endswith(('.()', '.[]', '.(id)')) else d + '.[]'
                     for d in deps)


class Depend:
    def __init__(self, pp, resolver, data_only=False):
        """`data_only`: control dependence counts only when constants are
        assigned, which then tell the branches apart."""
        self.pp = pp
        self.data_only = data_only
        self.resolve = resolver     # (f, call) -> (Func, offset) or None
        self._sum = {}
        self._parts = {}            # the same by elements of returned tuples
        self._busy = set()

    def resolve_all(self, f, c):
        t = self.resolve(f, c)
        return [t] if t is not None else []

    def summary(self, g):
        """Access paths of the parameters that influence the value returned
        by `g`, or None when unknown."""
        k = id(g.node)
        if k in self._sum:
            return self._sum[k]
        if k in self._busy or not isinstance(g.node, ast.FunctionDef):
            return None
        self._busy.add(k)
        try:
            one = One(self, g)
            one.run()
            if one.yields:
                r = None
            else:
                r = frozenset(one.returned)
                self._parts[k] = one.parts
        finally:
            self._busy.discard(k)
        self._sum[k] = r
        return r


class One:
    """`on_store(stmt, target, env, ctl, value_deps)` is called in program
    order for every store, `on_expr` for every evaluated node."""

    def __init__(self, an, f, on_stmt=None):
        self.an, self.f = an, f
        self.on_stmt = on_stmt
        self.returned = frozenset()
        self.parts = []          # by elements of returned tuples, or None
        self.yields = False
        self.fillable = set()    # local arrays that calls may fill
        self.srcs = {}           # local name -> names in its definitions
        self.fresh = set()       # local names that calls may fill
        self.base = frozenset()  # conditions that do not count

    def run(self, env=None):
        f = self.f
        e = dict(env or {})
        for p in f.all_params():
            e[p] = frozenset([p])
        self.block(f.body, e, frozenset())
        self.env = e
        return self

    # -- expressions -----------------------------------------------------
    def deps(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return frozenset()
        if isinstance(n, ast.Name):
            return env.get(n.id, frozenset())
        if isinstance(n, ast.Attribute):
            b = self.deps(n.value, env)
            if isinstance(n.value, (ast.Name, ast.Attribute)):
                src = self.path(n, env)
                if src is not None and src in env:
                    return env[src]
                return frozenset(member(a, n.attr) for a in b)
            return frozenset(member(a, n.attr) for a in b)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Subscript):
            return self.deps(n.value, env) \
                | selected(self.deps(n.slice, env))
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for a in n.args.args:
                e[a.arg] = frozenset()
            return self.deps(n.body, e)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            e = dict(env)
            r = frozenset()
            for g in n.generators:
                it = self.deps(g.iter, e)
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        e[t.id] = it
                r |= it
                for i in g.ifs:
                    r |= self.deps(i, e)
            if isinstance(n, ast.DictComp):
                return r | self.deps(n.key, e) | self.deps(n.value, e)
            return r | self.deps(n.elt, e)
        if isinstance(n, ast.NamedExpr):
            r = self.deps(n.value, env)
            env[n.target.id] = r
            return r
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None:
            self.returned |= self.deps(n.value, env)
        r = frozenset()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                r |= self.deps(c, env)
            elif isinstance(c, ast.keyword):
                r |= self.deps(c.value, env)
        return r

    @staticmethod
    def pure(c):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            return fn.value.id in ('nm', 'np', 'numpy', 'nla', 'la')
        return isinstance(fn, ast.Name) and fn.id in PURE

    @staticmethod
    def path(n, env):
        d = pyfe.dotted(n)
        return d

    def filled(self, c, d, env):
        """New local arrays passed to a call may be filled by it."""
        for a in c.args:
            if isinstance(a, ast.Name) and a.id in self.fillable \
               and not self.pure(c):
                env[a.id] = env.get(a.id, frozenset()) | d

    @staticmethod
    def allocates(v):
        return isinstance(v, (ast.Dict, ast.List)) or (
            isinstance(v, ast.Call) and call_name(v) in ALLOC)

    def elements(self, c, n, env):
        """Dependences of the elements of a tuple returned by a call."""
        ts = self.an.resolve_all(self.f, c)
        if len(ts) != 1 or any(isinstance(a, ast.Starred) for a in c.args) \
           or not all(k.arg for k in c.keywords):
            return None
        g, off = ts[0]
        if self.an.summary(g) is None or g.kwarg:
            return None
        ps = self.an._parts.get(id(g.node))
        if not ps or len(ps) != n:
            return None
        by = {}
        pos = g.params[off:]
        if off and g.params and isinstance(c.func, ast.Attribute):
            by[g.params[0]] = self.deps(c.func.value, env)
        for i, a in enumerate(c.args):
            p = pos[i] if i < len(pos) else g.vararg
            by[p] = by.get(p, frozenset()) | self.deps(a, env)
        for k in c.keywords:
            by[k.arg] = by.get(k.arg, frozenset()) | self.deps(k.value, env)
        out = []
        for s in ps:
            r = frozenset()
            for path in s:
                head, _, tail = path.partition('.')
                r |= extend(by.get(head, frozenset()), tail)
            out.append(r)
        return out

    def call(self, c, env):
        parts = [self.deps(a.value if isinstance(a, ast.Starred) else a, env)
                 for a in c.args]
        kws = [(k.arg, self.deps(k.value, env)) for k in c.keywords]
        recv = frozenset()
        fn = c.func
        if isinstance(fn, ast.Attribute):
            recv = self.deps(fn.value, env)
        elif not isinstance(fn, ast.Name):
            recv = self.deps(fn, env)
        else:
            recv = env.get(fn.id, frozenset())
        full = recv
        for d in parts:
            full |= d
        for _, d in kws:
            full |= d
        if isinstance(fn, ast.Name) and fn.id in TAGGED and parts:
            r = frozenset(member(d, TAGGED[fn.id]) for d in parts[0])
            for d in parts[1:]:
                r |= d
            return r
        if isinstance(fn, ast.Name) and fn.id == 'getattr' \
           and len(c.args) >= 2 and isinstance(c.args[1], ast.Constant):
            r = frozenset(member(d, c.args[1].value) for d in parts[0])
            for d in parts[2:]:
                r |= d
            return r
        ts = self.an.resolve_all(self.f, c)
        if len(ts) > 1:     # recursive calls add nothing
            ts = [t for t in ts if id(t[0].node) not in self.an._busy] or ts
        plain = not any(isinstance(a, ast.Starred) for a in c.args) \
            and all(k for k, _ in kws)
        sums = [self.an.summary(g) for g, _ in ts]
        if ts and plain and all(s is not None for s in sums) \
           and not any(g.kwarg for g, _ in ts):
            outs = []
            for (g, off), s in zip(ts, sums):
                by = {}
                pos = g.params[off:]
                if off and g.params:
                    by[g.params[0]] = recv
                for i, d in enumerate(parts):
                    p = pos[i] if i < len(pos) else g.vararg
                    by[p] = by.get(p, frozenset()) | d
                for k, d in kws:
                    by[k] = by.get(k, frozenset()) | d
                r = frozenset()
                for path in s:
                    head, _, tail = path.partition('.')
                    r |= extend(by.get(head, frozenset()), tail)
                outs.append(r)
            r = frozenset.intersection(*outs) if self.an.data_only \
                else frozenset.union(*outs)
            self.filled(c, derived(full), env)
            return r
        r = full
        if isinstance(fn, ast.Attribute) and fn.attr in ('get', 'setdefault',
                                                         'pop') and parts:
            r = recv | selected(parts[0])
            for d in parts[1:] + [d for _, d in kws]:
                r |= d
            return r
        plain = call_name(c) in PLAIN
        r = full if plain else derived(full)
        self.filled(c, r, env)
        # Objects filled by the call through mutating methods.
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) \
           and fn.attr in MUTATORS and fn.value.id in env:
            env[fn.value.id] = env[fn.value.id] | r
        return r

    def container(self, n, env):
        """What tells which container `n` is, whatever was stored in it."""
        e = dict(env)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and '@' + x.id in env:
                e[x.id] = env['@' + x.id]
        return self.deps(n, e)

    @classmethod
    def parts_of(cls, v):
        """Names of objects that parts of the value `v` were taken from."""
        if isinstance(v, ast.Call) and call_name(v) not in SHALLOW:
            return set()
        if isinstance(v, ast.Name):
            return {v.id}
        r = set()
        for c in ast.iter_child_nodes(v):
            if not (isinstance(v, ast.Subscript) and c is v.slice):
                if isinstance(c, ast.comprehension):
                    c = c.iter
                r |= cls.parts_of(c)
        return r

    def effect(self, c, env):
        """A call whose result is not used: it is made to fill the objects
        its arguments were taken from."""
        if self.pure(c) or call_name(c) in ('update', 'append', 'extend'):
            return
        names = {x.id for a in c.args for x in ast.walk(a)
                 if isinstance(x, ast.Name)}
        while True:
            more = set().union(*[self.srcs.get(x, set()) for x in names]) \
                - names
            if not more:
                break
            names |= more
        new = frozenset().union(*[env.get(x, frozenset()) for x in names])
        for x in names & self.fresh:
            if x in env:
                env.setdefault('@' + x, env[x])
                env[x] = env[x] | derived(new)

    # -- statements ------------------------------------------------------
    def store(self, t, d, env):
        if isinstance(t, ast.Name):
            env[t.id] = d
            env.pop('@' + t.id, None)
            pre = t.id + '.'
            for k in [k for k in env if k.startswith(pre)]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, d, env)
        elif isinstance(t, ast.Starred):
            self.store(t.value, d, env)
        elif isinstance(t, ast.Attribute):
            p = self.path(t, env)
            if p is not None:
                env[p] = d
                root = p.split('.')[0]
                if root not in self.f.params and root in env:
                    env[root] = env[root] | d
        elif isinstance(t, ast.Subscript):
            b = t.value
            d = d | self.deps(t.slice, env)
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in env \
               and b.id not in ('self',):
                env.setdefault('@' + b.id, env[b.id])
                env[b.id] = env[b.id] | d

    def ctl(self, value, ctl):
        if self.an.data_only and not any(
                isinstance(x, ast.Constant) and x.value is not None
                for x in ([value] + list(value.elts)
                          if isinstance(value, ast.Tuple) else [value])):
            return frozenset()
        return ctl if self.an.data_only else derived(ctl - self.base)

    @staticmethod
    def join(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, frozenset()) | v
        return out

    def block(self, stmts, env, ctl):
        for s in stmts:
            ctl = ctl | self.one(s, env, ctl)
        return ctl

    @staticmethod
    def exits(stmts):
        return bool(stmts) and isinstance(stmts[-1], (
            ast.Return, ast.Raise, ast.Continue, ast.Break))

    def one(self, n, env, ctl):
        """Executes `n`; returns additional control deps of what follows."""
        if self.on_stmt is not None:
            self.on_stmt(n, env, ctl, self)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            d = frozenset()
            if isinstance(n, ast.FunctionDef):
                inner = {a.arg for a in n.args.args}
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in env \
                       and x.id not in inner:
                        d |= env[x.id]
            env[n.name] = d
            return frozenset()
        if isinstance(n, ast.Return):
            self.returned |= self.deps(n.value, env) | self.ctl(n.value, ctl)
            v = n.value
            if not isinstance(v, ast.Tuple) or self.parts is None or any(
                    isinstance(x, ast.Starred) for x in v.elts) \
                    or self.parts and len(self.parts) != len(v.elts):
                self.parts = None
            else:
                ps = [self.deps(x, env) | self.ctl(x, ctl) for x in v.elts]
                self.parts = [a | b for a, b in zip(self.parts, ps)] \
                    if self.parts else ps
            return frozenset()
        if isinstance(n, ast.Assign):
            if isinstance(n.value, ast.Tuple) and len(n.targets) == 1 \
               and isinstance(n.targets[0], ast.Tuple) \
               and len(n.value.elts) == len(n.targets[0].elts) \
               and not any(isinstance(x, ast.Starred) for x in
                           n.value.elts + n.targets[0].elts):
                ds = [self.deps(v, env) | self.ctl(v, ctl)
                      for v in n.value.elts]
                for t, d in zip(n.targets[0].elts, ds):
                    self.store(t, d, env)
                return frozenset()
            if isinstance(n.value, ast.Call) and len(n.targets) == 1 \
               and isinstance(n.targets[0], (ast.Tuple, ast.List)):
                ds = self.elements(n.value, len(n.targets[0].elts), env)
                if ds is not None:
                    self.deps(n.value, env)
                    for t, d in zip(n.targets[0].elts, ds):
                        self.store(t, d | self.ctl(n.value, ctl), env)
                    return frozenset()
            d = self.deps(n.value, env) | self.ctl(n.value, ctl)
            for t in n.targets:
                p = pyfe.dotted(t)
                if p is not None and '.' in p and self.allocates(n.value):
                    b = self.deps(t.value, env)
                    d = d | frozenset(member(x, t.attr) for x in b)
            for t in n.targets:
                self.store(t, d, env)
                if isinstance(t, ast.Name):
                    self.srcs.setdefault(t.id, set()).update(
                        self.parts_of(n.value))
                    if isinstance(n.value, ast.Call):
                        self.fresh.add(t.id)
                    (self.fillable.add if self.allocates(n.value)
                     else self.fillable.discard)(t.id)
            return frozenset()
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.store(n.target, self.deps(n.value, env)
                           | self.ctl(n.value, ctl), env)
            return frozenset()
        if isinstance(n, ast.AugAssign):
            d = self.deps(n.value, env) | self.deps(n.target, env) \
                | self.ctl(n.value, ctl)
            self.store(n.target, d, env)
            return frozenset()
        if isinstance(n, ast.If):
            t = self.deps(n.test, env)
            e1, e2 = dict(env), dict(env)
            c = ctl | t
            self.block(n.body, e1, c)
            self.block(n.orelse, e2, c)
            x1, x2 = self.exits(n.body), self.exits(n.orelse)
            if x1 and isinstance(n.body[-1], ast.Raise):
                new, extra = e2, frozenset()
            elif x1:
                new, extra = e2, t
            elif x2:
                new, extra = e1, t
            else:
                new, extra = self.join(e1, e2), frozenset()
            env.clear()
            env.update(new)
            return extra
        if isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.deps(n.iter, env) | ctl
            before = dict(env)
            for _ in range(3):
                e = dict(env)
                self.store(n.target, it, e)
                self.block(n.body, e, ctl | it)
                new = self.join(env, e)
                if new == env:
                    break
                env.clear()
                env.update(new)
            self.block(n.orelse, env, ctl)
            del before
            return frozenset()
        if isinstance(n, ast.While):
            for _ in range(3):
                t = self.deps(n.test, env)
                e = dict(env)
                self.block(n.body, e, ctl | t)
                new = self.join(env, e)
                if new == env:
                    break
                env.clear()
                env.update(new)
            self.block(n.orelse, env, ctl)
            return frozenset()
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                d = self.deps(i.context_expr, env) | ctl
                if i.optional_vars is not None:
                    self.store(i.optional_vars, d, env)
            return self.block(n.body, env, ctl) - ctl
        if isinstance(n, ast.Try):
            e0 = dict(env)
            self.block(n.body, env, ctl)
            mid = self.join(e0, env)
            self.block(n.orelse, env, ctl)
            outs = [env] if not self.exits(n.body) else []
            for h in n.handlers:
                e = dict(mid)
                self.block(h.body, e, ctl)
                if not self.exits(h.body):
                    outs.append(e)
            new = {}
            for o in outs:
                new = self.join(new, o)
            if not outs:
                new = dict(mid)
            self.block(n.finalbody, new, ctl)
            env.clear()
            env.update(new)
            return frozenset()
        if isinstance(n, ast.Match):
            s = self.deps(n.subject, env)
            new = dict(env)
            for c in n.cases:
                e = dict(env)
                self.block(c.body, e, ctl | s)
                new = self.join(new, e)
            env.clear()
            env.update(new)
            return frozenset()
        if isinstance(n, ast.Expr):
            self.deps(n.value, env)
            if isinstance(n.value, ast.Call):
                self.effect(n.value, env)
            return frozenset()
        if isinstance(n, ast.Delete):
            return frozenset()
        return frozenset()
