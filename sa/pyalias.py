"""
In-place write effects of Python functions on their array arguments.

May-alias forward analysis of one function at a time (views, asarray, slices,
returns of internal functions), with an interprocedural fixpoint over the
summaries: which parameters are written in place, which may be returned.
"""
import ast

from . import pyfe
from .pyfe import call_name, dotted

VIEW_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
              'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape',
              'squeeze', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis',
              'expand_dims', 'broadcast_to', 'require', 'real', 'imag',
              'diagonal', 'as_strided'}
VIEW_METHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes',
                'view', 'diagonal', '__array__'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'data'}
WRITE_METHODS = {'fill', 'sort', 'itemset', 'put', 'setfield', 'partition',
                 'byteswap', 'setdiag', 'eliminate_zeros', 'sum_duplicates',
                 'sort_indices', 'resize'}
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'update', 'setdefault', 'popitem', 'add', 'discard',
                'reverse'}
WRITE_FUNCS = {'put': 0, 'place': 0, 'copyto': 0, 'fill_diagonal': 0,
               'putmask': 0, 'shuffle': 0}
ARRAY_EVIDENCE = {'shape', 'T', 'ndim', 'dtype', 'ravel', 'reshape', 'squeeze',
                  'astype', 'sum', 'transpose', 'flatten', 'nnz', 'tocsr',
                  'indptr', 'max', 'min', 'flat', 'swapaxes', 'real', 'imag'}
ARRAY_NAMES = ('vec', 'mtx', 'coor', 'conn', 'rhs', 'mat', 'x0', 'dofs',
               'bf', 'data', 'vals', 'stress', 'strain', 'normal', 'state')
LIBS = ('numpy', 'scipy')


def is_basic_index(i, ints):
    if isinstance(i, ast.Tuple):
        return all(is_basic_index(x, ints) for x in i.elts)
    if isinstance(i, ast.Slice):
        return True
    if isinstance(i, ast.Constant):
        return True
    if isinstance(i, ast.UnaryOp) and isinstance(i.operand, ast.Constant):
        return True
    if isinstance(i, ast.Name):
        return i.id in ints
    if isinstance(i, ast.BinOp):
        return is_basic_index(i.left, ints) and is_basic_index(i.right, ints)
    if isinstance(i, ast.Attribute):
        return i.attr in ('newaxis',)
    return False


class Summary:
    def __init__(self):
        self.writes = {}      # root -> (where, how)
        self.returns = set()  # roots


class Alias:
    """`shared_calls(fn, call)`: root name for a call giving shared data."""

    def __init__(self, pp, funcs=None, shared_call=None, attr_roots=False,
                 containers=False):
        self.pp = pp
        self.shared_call = shared_call or (lambda f, c: None)
        self.attr_roots = attr_roots
        self.containers = containers
        self.funcs = [f for f in (funcs or pp.all_funcs())
                      if isinstance(f.node, ast.FunctionDef)]
        self.sums = {id(f.node): Summary() for f in self.funcs}
        changed = True
        n = 0
        while changed and n < 8:
            changed = False
            n += 1
            for f in self.funcs:
                s = OneFunc(self, f).run()
                old = self.sums[id(f.node)]
                if set(s.writes) != set(old.writes) \
                   or s.returns != old.returns:
                    changed = True
                    self.sums[id(f.node)] = s

    def of(self, f):
        return self.sums.get(id(f.node))

    def resolve(self, f, call):
        """(callee Func, offset of positional args) or None."""
        fn = call.func
        if isinstance(fn, ast.Name):
            # local nested functions
            o = f
            while o is not None:
                for g in o.module.funcs:
                    if g.outer is o and g.name == fn.id:
                        return g, 0
                o = o.outer
            t = self.pp.resolve_name(f.module, fn.id)
        elif isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == 'self':
                c = f.cls
                o = f
                while c is None and o.outer is not None:
                    o = o.outer
                    c = o.cls
                if c is not None:
                    g = c.find(fn.attr)
                    if g is not None:
                        return g, 0 if g.is_static else 1
                return None
            t = self.pp.resolve_expr(f.module, fn)
            if isinstance(t, pyfe.Func) and t.cls is not None:
                return t, 0
        else:
            return None
        if isinstance(t, pyfe.Func):
            return t, 0
        return None


class OneFunc:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.s = Summary()
        self.arrayish = set()
        self.ints = set()

    def run(self):
        f = self.f
        for n in pyfe.own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
               and n.attr in ARRAY_EVIDENCE:
                self.arrayish.add(n.value.id)
            elif isinstance(n, ast.Subscript) \
                    and isinstance(n.value, ast.Name) \
                    and not isinstance(n.slice, ast.Constant):
                self.arrayish.add(n.value.id)
            elif isinstance(n, ast.Call) and call_name(n) in VIEW_FUNCS:
                for a in n.args[:1]:
                    if isinstance(a, ast.Name):
                        self.arrayish.add(a.id)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
               and call_name(n.value) in VIEW_FUNCS:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.arrayish.add(t.id)
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                nm = call_name(it) if isinstance(it, ast.Call) else None
                t = n.target
                if nm in ('range', 'xrange') and isinstance(t, ast.Name):
                    self.ints.add(t.id)
                elif nm == 'enumerate' and isinstance(t, ast.Tuple) \
                        and isinstance(t.elts[0], ast.Name):
                    self.ints.add(t.elts[0].id)
        env = {p: frozenset(['param:' + p]) for p in f.params + f.kwonly
               if p not in ('self', 'cls')}
        self.block(f.body, env)
        return self.s

    # -- expressions -------------------------------------------------------
    def roots(self, n, env):
        if n is None:
            return frozenset()
        if isinstance(n, ast.Name):
            return env.get(n.id, frozenset())
        if isinstance(n, ast.Attribute):
            b = self.roots(n.value, env)
            if n.attr in VIEW_ATTRS:
                return b
            if self.an.attr_roots:
                return frozenset('%s.%s' % (r, n.attr) for r in b
                                 if r.count('.') < 3)
            return frozenset()
        if isinstance(n, ast.Subscript):
            b = self.roots(n.value, env)
            if b and is_basic_index(n.slice, self.ints):
                return b
            return frozenset()
        if isinstance(n, ast.Call):
            return self.call_roots(n, env)
        if isinstance(n, ast.IfExp):
            return self.roots(n.body, env) | self.roots(n.orelse, env)
        if isinstance(n, ast.BoolOp):
            r = frozenset()
            for v in n.values:
                r |= self.roots(v, env)
            return r
        if isinstance(n, (ast.NamedExpr, ast.Starred)):
            return self.roots(n.value, env)
        return frozenset()

    def call_roots(self, c, env):
        sh = self.an.shared_call(self.f, c)
        if sh:
            return frozenset([sh])
        nm = call_name(c)
        fn = c.func
        if isinstance(fn, ast.Attribute):
            lib = self.an.pp.absolute(self.f.module, fn)
            if lib and lib.split('.')[0] in LIBS:
                if nm in VIEW_FUNCS and c.args:
                    return self.roots(c.args[0], env)
                if nm == 'array':
                    for k in c.keywords:
                        if k.arg == 'copy' \
                           and isinstance(k.value, ast.Constant) \
                           and not k.value.value and c.args:
                            return self.roots(c.args[0], env)
                return frozenset()
            if nm in VIEW_METHODS:
                return self.roots(fn.value, env)
            if nm == 'astype':
                for k in c.keywords:
                    if k.arg == 'copy' and isinstance(k.value, ast.Constant) \
                       and not k.value.value:
                        return self.roots(fn.value, env)
                return frozenset()
        t = self.an.resolve(self.f, c)
        if t is not None:
            g, off = t
            s = self.an.of(g)
            if s is not None and s.returns:
                r = frozenset()
                for p, a in self.bind(g, off, c):
                    if 'param:' + p in s.returns:
                        r |= self.roots(a, env)
                return r | frozenset(x for x in s.returns
                                     if x.startswith('shared:'))
        return frozenset()

    @staticmethod
    def bind(g, off, c):
        ps = g.params[off:]
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(ps):
                yield ps[i], a
            elif g.vararg:
                pass
        for k in c.keywords:
            if k.arg and (k.arg in ps or k.arg in g.kwonly):
                yield k.arg, k.value

    # -- writes ------------------------------------------------------------
    def write(self, roots, n, how):
        for r in roots:
            self.s.writes.setdefault(r, (self.f.where(n), how))

    def target(self, t, env, n, how):
        """Subscript store."""
        b = t.value
        self.write(self.roots(b, env), n, how)

    def effects(self, n, env):
        """Calls inside a statement / expression."""
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Call):
                self.call_effects(x, env)
            stack.extend(ast.iter_child_nodes(x))

    def call_effects(self, c, env):
        nm = call_name(c)
        fn = c.func
        lib = None
        if isinstance(fn, ast.Attribute):
            lib = self.an.pp.absolute(self.f.module, fn)
            lib = lib if lib and lib.split('.')[0] in LIBS else None
            if lib is None and nm in WRITE_METHODS:
                r = self.roots(fn.value, env)
                ok = True
                if nm == 'sort' and not self.an.containers:
                    ok = bool(r)
                if ok:
                    self.write(r, c, '.%s()' % nm)
            if lib is None and self.an.containers and nm in LIST_METHODS:
                self.write(self.roots(fn.value, env), c, '.%s()' % nm)
        if lib and nm in WRITE_FUNCS and c.args:
            self.write(self.roots(c.args[WRITE_FUNCS[nm]], env), c,
                       '%s()' % nm)
        if lib and nm == 'at' and c.args:       # ufunc.at
            self.write(self.roots(c.args[0], env), c, 'ufunc.at()')
        for k in c.keywords:
            if k.arg == 'out':
                self.write(self.roots(k.value, env), c, 'out= of %s()' % nm)
            elif k.arg and k.arg.startswith('overwrite_') \
                    and isinstance(k.value, ast.Constant) and k.value.value:
                idx = {'overwrite_a': 0, 'overwrite_x': 0}.get(k.arg, 1)
                if idx < len(c.args):
                    self.write(self.roots(c.args[idx], env), c, k.arg)
        t = self.an.resolve(self.f, c)
        if t is not None:
            g, off = t
            s = self.an.of(g)
            if s is not None and s.writes:
                for p, a in self.bind(g, off, c):
                    for r, (w, h) in s.writes.items():
                        if r == 'param:' + p:
                            self.write(self.roots(a, env), c,
                                       'passed to %s() that writes it (%s)'
                                       % (g.qual, w))

    # -- statements ------------------------------------------------------
    def assign(self, t, value, env, n):
        if isinstance(t, ast.Name):
            env[t.id] = self.roots(value, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) \
               and len(value.elts) == len(t.elts):
                vals = [self.roots(v, env) for v in value.elts]
                for a, r in zip(t.elts, vals):
                    if isinstance(a, ast.Name):
                        env[a.id] = r
                    elif isinstance(a, ast.Subscript):
                        self.target(a, env, n, 'item assignment')
            else:
                r = frozenset(x for x in self.roots(value, env)
                              if x.startswith('shared:'))
                for a in t.elts:
                    if isinstance(a, ast.Starred):
                        a = a.value
                    if isinstance(a, ast.Name):
                        env[a.id] = r
                    elif isinstance(a, ast.Subscript):
                        self.target(a, env, n, 'item assignment')
        elif isinstance(t, ast.Subscript):
            self.target(t, env, n, 'item assignment')
        elif isinstance(t, ast.Attribute):
            if t.attr in ('flat', 'real', 'imag', 'data'):
                self.write(self.roots(t.value, env), n,
                           'assignment to .%s' % t.attr)

    @staticmethod
    def merge(a, b):
        out = {}
        for k in set(a) | set(b):
            out[k] = a.get(k, frozenset()) | b.get(k, frozenset())
        return out

    def block(self, stmts, env):
        for n in stmts:
            env = self.one(n, env)
        return env

    def one(self, n, env):
        t = type(n)
        if t is ast.Assign:
            self.effects(n.value, env)
            for tg in n.targets:
                self.assign(tg, n.value, env, n)
        elif t is ast.AnnAssign:
            if n.value is not None:
                self.effects(n.value, env)
                self.assign(n.target, n.value, env, n)
        elif t is ast.AugAssign:
            self.effects(n.value, env)
            if isinstance(n.target, ast.Name):
                r = env.get(n.target.id, frozenset())
                if n.target.id in self.arrayish or \
                   any(x.startswith('shared:') or x[6:] in self.arrayish
                       or x[6:].startswith(ARRAY_NAMES) for x in r):
                    self.write(r, n, 'augmented assignment')
            elif isinstance(n.target, ast.Subscript):
                self.target(n.target, env, n, 'augmented item assignment')
            elif isinstance(n.target, ast.Attribute):
                self.write(self.roots(n.target, env), n,
                           'augmented assignment')
        elif t is ast.If:
            self.effects(n.test, env)
            a = self.block(n.body, dict(env))
            b = self.block(n.orelse, dict(env))
            a_end = self.ends(n.body)
            b_end = self.ends(n.orelse)
            if a_end and not b_end:
                return b
            if b_end and not a_end:
                return a
            return self.merge(a, b)
        elif t in (ast.For, ast.While):
            if t is ast.For:
                self.effects(n.iter, env)
            else:
                self.effects(n.test, env)
            for _ in range(2):
                e = dict(env)
                if t is ast.For:
                    self.bind_for(n, e)
                e = self.block(n.body, e)
                env = self.merge(env, e)
            return self.block(n.orelse, env)
        elif t is ast.Try:
            a = self.block(n.body, dict(env))
            m = self.merge(env, a)
            outs = self.block(n.orelse, a)
            for h in n.handlers:
                outs = self.merge(outs, self.block(h.body, dict(m)))
            return self.block(n.finalbody, outs)
        elif t is ast.With:
            for it in n.items:
                self.effects(it.context_expr, env)
                if isinstance(it.optional_vars, ast.Name):
                    env[it.optional_vars.id] = frozenset()
            return self.block(n.body, env)
        elif t is ast.Return:
            if n.value is not None:
                self.effects(n.value, env)
                self.s.returns |= self.roots(n.value, env)
        elif t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Subscript) and self.an.containers:
                    self.target(x, env, n, 'item deletion')
        elif t in (ast.FunctionDef, ast.ClassDef):
            pass
        else:
            self.effects(n, env)
        return env

    @staticmethod
    def ends(stmts):
        return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise,
                                                      ast.Continue,
                                                      ast.Break))

    def bind_for(self, n, env):
        it, t = n.iter, n.target
        nm = call_name(it) if isinstance(it, ast.Call) else None
        if nm == 'enumerate' and isinstance(t, ast.Tuple) \
           and len(t.elts) == 2 and it.args:
            env[getattr(t.elts[0], 'id', '_')] = frozenset()
            self.bind_one(t.elts[1], it.args[0], env)
        elif nm == 'zip' and isinstance(t, ast.Tuple):
            for a, b in zip(t.elts, it.args):
                self.bind_one(a, b, env)
        else:
            self.bind_one(t, it, env)

    def bind_one(self, t, it, env):
        """Iterating an array gives views of it."""
        if isinstance(t, ast.Name):
            env[t.id] = self.roots(it, env) if isinstance(
                it, (ast.Name, ast.Attribute, ast.Subscript)) else frozenset()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a in t.elts:
                if isinstance(a, ast.Name):
                    env[a.id] = frozenset()
