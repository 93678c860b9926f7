"""Closed forms of straight-line Python code.

The values of a function are derived from its syntax tree as exact algebraic
expressions of its parameters: numbers are rationals, parameters are symbols,
arrays are tables of expressions. Only code without data dependent branches
has such a form; everything else is Undecided. Nothing of the analysed
package is imported or executed.
"""
import ast
import operator
import os

import numpy as np
import sympy as sp

from .polys import Undecided

MAXSTEPS = 200000


class Obj:
    """An object with known attributes and, possibly, a class of the package."""

    def __init__(self, cls=None, **attrs):
        self.__dict__['cls'] = cls
        self.__dict__['attrs'] = dict(attrs)


class Class:
    def __init__(self, mod, node, scope=None):
        self.mod, self.node, self.scope = mod, node, scope
        self.over = {}

    def derives(self, other):
        if self is other or self.node is other.node:
            return True
        return any(b.derives(other) for b in self.base_classes())

    def base_classes(self):
        out = []
        for b in self.node.bases:
            try:
                c = self.mod.forms.ev(b, Scope(self.mod, self.scope))
            except Undecided:
                continue
            if isinstance(c, Class):
                out.append(c)
        return out

    def member(self, name, seen=()):
        if name in self.over:
            return self.over[name]
        for s in self.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return Function(s, self.mod, self.scope)
        for s in self.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        scope = Scope(self.mod, None)
                        return self.mod.forms.ev(s.value, scope)
        for c in self.base_classes():
            v = c.member(name)
            if v is not None:
                return v
        return None


def is_static(node):
    return any(getattr(d, 'id', None) == 'staticmethod'
               for d in getattr(node, 'decorator_list', ()))


class Function:
    def __init__(self, node, mod, scope, this=None):
        self.node, self.mod, self.scope, self.this = node, mod, scope, this
        self.attrs = {}

    def bound(self, obj):
        return Function(self.node, self.mod, self.scope, obj)

    def __call__(self, *args, **kw):
        return self.mod.forms.apply(self, list(args), kw)


class Module:
    def __init__(self, forms, rel, tree):
        self.forms, self.rel, self.tree = forms, rel, tree
        self.vals = {}
        self.defs = {}
        self.load(tree.body)

    def load(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (s, a)
            elif isinstance(s, ast.Try):
                self.load(s.body)
                self.load(s.orelse)

    def get(self, name):
        if name in self.vals:
            v = self.vals[name]
            if v is Undecided:
                raise Undecided('module ' + name)
            return v
        if name not in self.defs:
            raise Undecided('name ' + name)
        d = self.defs[name]
        self.vals[name] = Undecided
        if isinstance(d, ast.FunctionDef):
            v = Function(d, self, None)
        elif isinstance(d, ast.ClassDef):
            v = Class(self, d)
        elif isinstance(d, ast.Assign):
            sc = Scope(self, None)
            self.forms.stmt(d, sc)
            v = sc.vars[name]
        else:
            v = self.forms.imported(self, *d)
        self.vals[name] = v
        return v


class Scope:
    def __init__(self, mod, up):
        self.mod, self.up, self.vars = mod, up, {}

    def get(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.up
        if name in BUILTINS:
            if name in self.mod.defs:
                return self.mod.get(name)
            return BUILTINS[name]
        return self.mod.get(name)


class Lib:
    """A name of a library module: 'numpy.linalg', 'numpy.array', ..."""

    def __init__(self, path):
        self.path = path


class Bound:
    """A method of an analysed value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


def arr(x):
    return np.array(x, dtype=object)


def num(x):
    """Exact number or expression."""
    if isinstance(x, bool):
        return x
    if isinstance(x, float):
        return sp.Rational(repr(x))
    return x


def isnum(x):
    return isinstance(x, (int, sp.Basic)) and not isinstance(x, bool)


def exact(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return exact(x.item())
        if x.dtype == object:
            return x
        if x.dtype == bool:
            return x
        return arr([num(v.item()) for v in x.ravel()]).reshape(x.shape)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return num(float(x))
    return num(x)


def ints(x):
    """Index tables as integers."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        flat = []
        for v in x.ravel():
            if isinstance(v, sp.Integer):
                v = int(v)
            if isinstance(v, bool) or isinstance(v, int):
                flat.append(v)
            else:
                raise Undecided('index')
        if flat and all(isinstance(v, bool) for v in flat):
            return np.array(flat, dtype=bool).reshape(x.shape)
        return np.array(flat, dtype=int).reshape(x.shape)
    if isinstance(x, sp.Integer):
        return int(x)
    if isinstance(x, list):
        return [ints(v) for v in x]
    if isinstance(x, tuple):
        return tuple(ints(v) for v in x)
    if isinstance(x, slice):
        return slice(ints(x.start), ints(x.stop), ints(x.step))
    if x is None or x is Ellipsis or isinstance(x, (bool, int, np.ndarray)):
        return x
    raise Undecided('index')


def sqrt(x):
    if isinstance(x, np.ndarray):
        return arr([sqrt(v) for v in x.ravel()]).reshape(x.shape)
    x = sp.factor(sp.cancel(sp.sympify(x)))
    return sp.powdenest(sp.sqrt(x), force=False)


def det(m):
    m = np.asarray(m, dtype=object)
    if m.ndim > 2:
        out = [det(v) for v in m.reshape((-1,) + m.shape[-2:])]
        return arr(out).reshape(m.shape[:-2])
    return sp.Matrix(m.tolist()).det(method='berkowitz')


def inv(m):
    m = np.asarray(m, dtype=object)
    if m.ndim > 2:
        out = [inv(v) for v in m.reshape((-1,) + m.shape[-2:])]
        return arr(out).reshape(m.shape)
    n = m.shape[0]
    mm = sp.Matrix(m.tolist())
    d = sp.factor(mm.det(method='berkowitz'))
    if d == 0:
        raise Undecided('singular')
    adj = mm.adjugate(method='berkowitz')
    return arr([[sp.cancel(adj[i, j] / d) for j in range(n)]
                for i in range(n)])


def norm(x, *args, **kw):
    axis = kw.get('axis', args[1] if len(args) > 1 else None)
    x = np.asarray(x, dtype=object)
    if axis is None:
        return sqrt(sum(v * v for v in x.ravel()))
    return sqrt(np.sum(x * x, axis=ints(axis)))


def cross(a, b, **kw):
    if kw:
        raise Undecided('cross')
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        if a.shape[-1] == 2 and b.shape[-1] == 2:
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        raise Undecided('cross')
    return np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                     a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)


def allclose(a, b, *args, **kw):
    return True


def elementwise(f):
    def g(x):
        if isinstance(x, np.ndarray):
            return arr([f(v) for v in x.ravel()]).reshape(x.shape)
        return f(sp.sympify(x))
    return g


def reduced(f, x, axis):
    if axis is None:
        return f(*x.ravel())
    axes = ints(axis)
    axes = axes if isinstance(axes, tuple) else (axes,)
    keep = [k for k in range(x.ndim) if k not in
            [a % x.ndim for a in axes]]
    y = x.transpose(keep + [a % x.ndim for a in axes])
    sh = [x.shape[k] for k in keep]
    y = y.reshape(sh + [-1])
    return arr([f(*v) for v in y.reshape((-1, y.shape[-1]))]).reshape(sh)


def shape_of(x):
    x = ints(x)
    return x if isinstance(x, (int, tuple)) else tuple(x)


def filled(v):
    def f(shape, *a, **kw):
        out = np.empty(shape_of(shape), dtype=object)
        out[...] = v
        return out
    return f


def filled_like(v):
    def f(x, *a, **kw):
        out = np.empty(np.shape(x), dtype=object)
        out[...] = v
        return out
    return f


def to_array(x, *a, **kw):
    if isinstance(x, np.ndarray):
        return x.copy()
    out = np.array(x, dtype=object)
    return out


def as_array(x, *a, **kw):
    return x if isinstance(x, np.ndarray) else to_array(x)


def nodtype(f):
    def g(*a, **kw):
        kw.pop('dtype', None)
        kw = {k: ints(v) if k in ('axis', 'axis1', 'axis2') else v
              for k, v in kw.items()}
        return f(*a, **kw)
    return g


def einsum(spec, *ops, **kw):
    return np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops])


def reshape(x, sh, *a):
    return np.reshape(x, shape_of(sh))


FUNS = {
    'array': to_array, 'asarray': as_array, 'asanyarray': as_array,
    'ascontiguousarray': as_array, 'atleast_1d': np.atleast_1d,
    'atleast_2d': np.atleast_2d, 'copy': to_array,
    'zeros': filled(sp.Integer(0)), 'ones': filled(sp.Integer(1)),
    'empty': filled(sp.Integer(0)), 'zeros_like': filled_like(sp.Integer(0)),
    'ones_like': filled_like(sp.Integer(1)),
    'empty_like': filled_like(sp.Integer(0)),
    'eye': lambda n, m=None, **kw: arr(
        np.eye(ints(n), ints(m) if isnum(m) else None, dtype=int)),
    'identity': lambda n, **kw: arr(np.eye(ints(n), dtype=int)),
    'full': lambda s, v, **kw: filled(v)(s),
    'arange': lambda *a, **kw: arr(np.arange(*ints(tuple(a)))),
    'outer': np.outer, 'dot': np.dot, 'matmul': np.matmul,
    'diag': np.diag, 'trace': nodtype(np.trace), 'sum': nodtype(np.sum),
    'prod': nodtype(np.prod), 'transpose': np.transpose,
    'concatenate': nodtype(np.concatenate), 'hstack': np.hstack,
    'vstack': np.vstack, 'stack': nodtype(np.stack), 'kron': np.kron,
    'column_stack': np.column_stack, 'einsum': einsum, 'reshape': reshape,
    'meshgrid': lambda *a: [arr(x) for x in np.meshgrid(*a)],
    'ix_': lambda *a: tuple(np.ix_(*[ints(np.asarray(x, dtype=object))
                                     for x in a])),
    'sort': lambda x: arr(np.sort(ints(to_array(x)))),
    'setdiff1d': lambda a, b: arr(np.setdiff1d(ints(to_array(a)),
                                               ints(to_array(b)))),
    'sqrt': sqrt, 'cross': cross, 'allclose': allclose,
    'repeat': nodtype(lambda x, n, axis=None: np.repeat(x, ints(n), axis)),
    'tile': lambda x, n: np.tile(x, ints(n)),
    'sin': elementwise(sp.sin), 'cos': elementwise(sp.cos),
    'tan': elementwise(sp.tan), 'exp': elementwise(sp.exp),
    'log': elementwise(sp.log), 'ravel': np.ravel, 'squeeze': np.squeeze,
    'swapaxes': lambda x, a, b: np.swapaxes(x, ints(a), ints(b)),
    'tensordot': lambda a, b, axes=2: np.tensordot(a, b, ints(axes)),
    'linalg.inv': inv, 'linalg.det': det, 'linalg.norm': norm,
    'linalg.solve': lambda a, b: np.dot(inv(a), b),
    'power': operator.pow, 'multiply': operator.mul, 'add': operator.add,
    'subtract': operator.sub, 'divide': operator.truediv,
    'float64': num, 'isscalar': lambda x: not isinstance(x, np.ndarray),
    'insert': None, 'abs': elementwise(sp.Abs), 'shape': np.shape,
    'absolute': elementwise(sp.Abs), 'where': lambda c: tuple(
        arr(x) for x in np.where(ints(c))), 'nonzero': lambda c: tuple(
        arr(x) for x in np.nonzero(ints(c))),
    'amax': lambda x, axis=None: reduced(sp.Max, x, axis),
    'max': lambda x, axis=None: reduced(sp.Max, x, axis),
    'amin': lambda x, axis=None: reduced(sp.Min, x, axis),
    'min': lambda x, axis=None: reduced(sp.Min, x, axis),
    'sparse.csr_array': lambda *a, **kw: None,
}
CONSTS = {'pi': sp.pi, 'newaxis': None, 'float64': float, 'int32': int,
          'complex128': complex, 'uint32': int, 'intp': int}
LIBS = {'numpy': 'numpy', 'scipy': 'scipy', 'sympy': 'sympy',
        'math': 'math'}


def truth(x):
    if isinstance(x, (bool, str, type(None), list, tuple, dict, int)):
        return bool(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, sp.Basic) and x.is_number:
        return bool(x != 0)
    if isinstance(x, sp.logic.boolalg.BooleanAtom):
        return bool(x)
    if isinstance(x, (Obj, Function, Class)):
        return True
    raise Undecided('condition')


def concrete(x):
    if isinstance(x, sp.Basic) and x.is_number:
        return True
    return isinstance(x, (bool, int, str, type(None), tuple, list, dict,
                          sp.Number))


def is_instance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    known = {tuple: tuple, list: list, dict: dict, str: str}
    out = False
    for u in ts:
        if isinstance(u, Lib) and u.path == 'numpy.ndarray':
            out = out or isinstance(x, np.ndarray)
        elif isinstance(u, Class):
            out = out or (isinstance(x, Obj) and x.cls is not None
                          and x.cls.derives(u))
        elif u in known:
            out = out or isinstance(x, u)
        else:
            raise Undecided('isinstance')
    return out


BUILTINS = {
    'len': len, 'range': lambda *a: list(range(*ints(tuple(a)))),
    'list': list, 'tuple': tuple, 'dict': dict, 'sum': sum, 'zip':
    lambda *a: list(zip(*a)), 'enumerate':
    lambda x, *a: list(enumerate(x, *ints(tuple(a)))),
    'sorted': sorted, 'set': set, 'reversed': lambda x: list(reversed(x)),
    'str': str, 'float': num, 'int': ints, 'min': min, 'max': max,
    'True': True, 'False': False, 'None': None, 'slice': slice,
    'map': lambda f, *a: [f(*x) for x in zip(*a)], 'bool': truth,
    'pow': operator.pow, 'isinstance': is_instance, 'print': lambda *a, **k: None,
    'hasattr': None, 'getattr': None, 'any': any, 'all': all, 'abs': None,
    'Ellipsis': Ellipsis,
}

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
       ast.MatMult: operator.matmul, ast.Mod: operator.mod,
       ast.FloorDiv: operator.floordiv}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
       ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


class Forms:
    def __init__(self, repo, models=None):
        self.repo = repo
        self.mods = {}
        self.models = {'is_sequence': lambda x: isinstance(
            x, (list, tuple, np.ndarray)), 'get_default': lambda a, b, *m:
            b if a is None else a}
        self.models.update(models or {})
        self.steps = 0
        self.depth = 0

    # -- modules

    def module(self, rel):
        if rel not in self.mods:
            path = os.path.join(self.repo, rel)
            if not os.path.exists(path):
                raise Undecided('no ' + rel)
            with open(path) as fd:
                self.mods[rel] = Module(self, rel, ast.parse(fd.read()))
        return self.mods[rel]

    def find(self, dotted):
        p = dotted.replace('.', '/')
        for rel in (p + '.py', p + '/__init__.py'):
            if os.path.exists(os.path.join(self.repo, rel)):
                return self.module(rel)
        return None

    def imported(self, mod, s, a):
        if isinstance(s, ast.Import):
            top = a.name.split('.')[0]
            if top in LIBS:
                return Lib(a.name if a.asname else top)
            m = self.find(a.name)
            if m is not None and a.asname:
                return m
            raise Undecided('import ' + a.name)
        base = s.module or ''
        if s.level:
            pkg = os.path.dirname(mod.rel).split('/')
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        if a.name in self.models:
            return self.models[a.name]
        top = base.split('.')[0]
        if top in LIBS:
            return Lib(base + '.' + a.name)
        m = self.find(base + '.' + a.name)
        if m is not None:
            return m
        m = self.find(base)
        if m is None:
            raise Undecided('import ' + base)
        if a.name not in m.defs:
            for st in m.tree.body:
                if isinstance(st, ast.ImportFrom) \
                   and any(x.name == '*' for x in st.names):
                    try:
                        return self.imported(
                            m, st, ast.alias(name=a.name, asname=None))
                    except Undecided:
                        pass
        return m.get(a.name)

    def function(self, rel, name):
        f = self.module(rel).get(name)
        if not isinstance(f, Function):
            raise Undecided(name)
        return f

    def cls(self, rel, name):
        c = self.module(rel).get(name)
        if not isinstance(c, Class):
            raise Undecided(name)
        return c

    def make(self, cls, **attrs):
        return Obj(cls, **attrs)

    # -- calls

    def apply(self, f, args, kw):
        node = f.node
        if self.depth > 40:
            raise Undecided('depth')
        if f.this is not None:
            args = [f.this] + list(args)
        sc = Scope(f.mod, f.scope)
        a = node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        for p, v in zip(names, args):
            sc.vars[p] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise Undecided('arguments')
            sc.vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            sc.vars[a.vararg.arg] = ()
        extra = {}
        allowed = set(names) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in allowed:
                sc.vars[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            sc.vars[a.kwarg.arg] = extra
        elif extra:
            raise Undecided('arguments')
        dsc = Scope(f.mod, f.scope)
        for p, d in list(zip(names[len(names) - len(a.defaults):],
                             a.defaults)) \
                + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
                   if d is not None]:
            if p not in sc.vars:
                sc.vars[p] = self.ev(d, dsc)
        for p in names:
            if p not in sc.vars:
                raise Undecided('missing argument ' + p)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, sc)
            self.block(node.body, sc)
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    def call(self, f, args, kw):
        if isinstance(f, Function):
            return self.apply(f, args, kw)
        if isinstance(f, Lib):
            name = f.path.split('.', 1)[1] if '.' in f.path else ''
            g = FUNS.get(name)
            if g is None:
                raise Undecided('library ' + f.path)
            try:
                return exact(g(*args, **kw))
            except (Undecided, Return):
                raise
            except Exception as e:
                raise Undecided('%s: %s' % (f.path, e))
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, Class):
            obj = Obj(f)
            init = f.member('__init__')
            if isinstance(init, Function):
                self.apply(init.bound(obj), args, kw)
            elif init is not None:
                self.call(init, [obj] + list(args), kw)
            else:
                obj.attrs.update(kw)
            return obj
        if isinstance(f, Obj):
            m = self.attr(f, '__call__')
            return self.call(m, args, kw)
        if callable(f):
            try:
                return f(*args, **kw)
            except (Undecided, Return):
                raise
            except Exception as e:
                raise Undecided('call: %s' % e)
        raise Undecided('call')

    def method(self, o, name, args, kw):
        if isinstance(o, np.ndarray):
            if name == 'copy':
                return o.copy()
            if name in ('astype',):
                return o.copy()
            if name == 'eliminate_zeros':
                return None
            if name == 'reshape':
                sh = args[0] if len(args) == 1 else tuple(args)
                return o.reshape(shape_of(sh))
            if name == 'transpose':
                sh = args[0] if len(args) == 1 else tuple(args)
                return o.transpose(shape_of(sh)) if args else o.T
            if name == 'fill':
                o[...] = args[0]
                return None
            if name in ('sum', 'dot', 'trace', 'ravel', 'flatten', 'squeeze',
                        'repeat', 'prod', 'swapaxes', 'max', 'min'):
                kw = {k: ints(v) for k, v in kw.items() if k != 'dtype'}
                if name in ('max', 'min'):
                    return FUNS[name](o, *ints(tuple(args)), **kw)
                if name in ('sum', 'prod', 'swapaxes', 'repeat'):
                    args = ints(tuple(args))
                return exact(getattr(o, name)(*args, **kw))
            if name == 'tolist':
                return o.tolist()
        if isinstance(o, dict) and name in ('items', 'keys', 'values'):
            return list(getattr(o, name)())
        if isinstance(o, dict) and name in ('get', 'update', 'copy', 'pop',
                                            'setdefault'):
            return getattr(o, name)(*args, **kw)
        if isinstance(o, list) and name in ('append', 'extend', 'index',
                                            'copy', 'insert', 'reverse'):
            return getattr(o, name)(*args)
        if isinstance(o, str) and name in ('format', 'join', 'split',
                                           'startswith', 'endswith'):
            return getattr(o, name)(*args)
        if isinstance(o, sp.Basic) and name in ('copy', 'squeeze'):
            return o
        raise Undecided('method ' + name)

    def attr(self, o, name):
        if isinstance(o, Lib):
            path = o.path + '.' + name
            key = path.split('.', 1)[1]
            if key in CONSTS and key not in FUNS:
                return CONSTS[key]
            if key == 'r_' or key == 'c_':
                return Lib(path)
            return Lib(path)
        if isinstance(o, Module):
            return o.get(name)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__dict__':
                return o.attrs
            if o.cls is not None:
                v = o.cls.member(name)
                if isinstance(v, Function) and is_static(v.node):
                    return v
                if isinstance(v, Function):
                    return v.bound(o)
                if v is not None:
                    return v
            raise Undecided('attribute ' + name)
        if isinstance(o, Class):
            v = o.member(name)
            if v is None:
                raise Undecided('attribute ' + name)
            return v
        if isinstance(o, slice) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if isinstance(o, Function):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__dict__':
                return o.attrs
            raise Undecided('attribute ' + name)
        if isinstance(o, np.ndarray):
            if name == 'T':
                return o.T
            if name in ('shape', 'ndim', 'size'):
                return getattr(o, name)
            if name == 'dtype':
                return float
            if name == 'flat':
                return o.ravel()
        if isinstance(o, sp.Basic):
            if name == 'T':
                return o
            if name == 'ndim':
                return 0
            if name == 'shape':
                return ()
        return Bound(o, name)

    # -- expressions

    def ev(self, n, sc):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided('steps')
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Undecided(type(n).__name__)
        return m(n, sc)

    def ev_Constant(self, n, sc):
        return num(n.value)

    def ev_Name(self, n, sc):
        v = sc.get(n.id)
        if v is None and n.id in BUILTINS and n.id != 'None' \
           and BUILTINS[n.id] is None and n.id not in sc.vars:
            s = sc
            while s is not None:
                if n.id in s.vars:
                    return v
                s = s.up
            raise Undecided('builtin ' + n.id)
        return v

    def ev_Attribute(self, n, sc):
        return self.attr(self.ev(n.value, sc), n.attr)

    def elements(self, elts, sc):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += list(self.ev(e.value, sc))
            else:
                out.append(self.ev(e, sc))
        return out

    def ev_List(self, n, sc):
        return self.elements(n.elts, sc)

    def ev_Tuple(self, n, sc):
        return tuple(self.elements(n.elts, sc))

    def ev_Set(self, n, sc):
        return set(self.elements(n.elts, sc))

    def ev_Dict(self, n, sc):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(self.ev(v, sc))
            else:
                out[self.ev(k, sc)] = self.ev(v, sc)
        return out

    def ev_JoinedStr(self, n, sc):
        return '?'

    def ev_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not):
            return not truth(v)
        if isinstance(n.op, ast.USub) and (isnum(v)
                                           or isinstance(v, np.ndarray)):
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        raise Undecided('unary')

    def ev_BoolOp(self, n, sc):
        v = None
        for e in n.values:
            v = self.ev(e, sc)
            if truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def ev_IfExp(self, n, sc):
        return self.ev(n.body if truth(self.ev(n.test, sc)) else n.orelse, sc)

    def ev_Compare(self, n, sc):
        left = self.ev(n.left, sc)
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, sc)
            res = self.compare(op, left, right)
            if isinstance(res, np.ndarray):
                if len(n.ops) > 1:
                    raise Undecided('comparison')
                return exact(res)
            if not res:
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = a is b or (isinstance(a, (bool, int, str))
                              and type(a) is type(b) and a == b)
            return same == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if not isinstance(b, (list, tuple, dict, set, str)):
                raise Undecided('in')
            return (a in b) == isinstance(op, ast.In)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            # Tables of indices only.
            return CMP[type(op)](ints(a), ints(b))
        if isinstance(a, slice) or isinstance(b, slice):
            return CMP[type(op)](a, b)
        if not (concrete(a) or a in (float, int, complex)) \
           or not (concrete(b) or b in (float, int, complex)):
            raise Undecided('comparison')
        try:
            return bool(CMP[type(op)](a, b))
        except TypeError:
            raise Undecided('comparison')

    def ev_BinOp(self, n, sc):
        return self.binop(n.op, self.ev(n.left, sc), self.ev(n.right, sc))

    def binop(self, op, a, b):
        if isinstance(a, str):
            if isinstance(op, ast.Mod):
                return '?'
            if isinstance(op, ast.Add) and isinstance(b, str):
                return a + b
            raise Undecided('text')
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.objop(op, a, b)
        for v in (a, b):
            if not (isnum(v) or isinstance(v, (np.ndarray, list, tuple))):
                raise Undecided('operand')
        if isinstance(op, ast.Div):
            if isinstance(a, int) and isinstance(b, int):
                if not b:
                    raise Undecided('zero')
                return sp.Rational(a, b)
            if isnum(b) and b == 0:
                raise Undecided('zero')
            return a / b if not isinstance(b, np.ndarray) \
                or isinstance(a, np.ndarray) else arr(sp.sympify(a)) / b
        if isinstance(op, ast.Pow):
            if isinstance(b, np.ndarray):
                raise Undecided('power')
            if b == sp.Rational(1, 2):
                return sqrt(a)
            if isinstance(a, np.ndarray):
                if isinstance(b, sp.Integer):
                    b = int(b)
                return a**b
            return sp.sympify(a)**b if not isinstance(a, int) \
                or not isinstance(b, int) or b < 0 else a**b
        f = BIN.get(type(op))
        if f is None:
            raise Undecided('operator')
        if isinstance(b, np.ndarray) and isinstance(a, sp.Basic):
            a = arr(a)
        try:
            return exact(f(a, b))
        except (TypeError, ValueError) as e:
            raise Undecided(str(e))

    def objop(self, op, a, b):
        raise Undecided('operand')

    def index(self, n, sc):
        if isinstance(n, ast.Slice):
            return slice(*(None if x is None else self.ev(x, sc)
                           for x in (n.lower, n.upper, n.step)))
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x, sc) for x in n.elts)
        return self.ev(n, sc)

    def ev_Subscript(self, n, sc):
        o = self.ev(n.value, sc)
        i = self.index(n.slice, sc)
        return self.item(o, i)

    def item(self, o, i):
        if isinstance(o, Lib):
            items = i if isinstance(i, tuple) else (i,)
            if o.path.endswith('.r_') or o.path.endswith('.c_'):
                f = np.r_ if o.path.endswith('.r_') else np.c_
                try:
                    return exact(f[tuple(
                        x if isinstance(x, np.ndarray) else to_array(x)
                        if isinstance(x, (list, tuple)) else arr([x])
                        for x in items)])
                except Exception as e:
                    raise Undecided(str(e))
        if isinstance(o, dict):
            if i not in o:
                raise Undecided('key')
            return o[i]
        if isnum(o):
            o = arr(o)
        if isinstance(o, (list, tuple, str)):
            i = ints(i)
            try:
                return o[i]
            except (IndexError, TypeError):
                raise Undecided('index')
        if isinstance(o, np.ndarray):
            try:
                return exact(o[self.array_index(i)])
            except (IndexError, TypeError) as e:
                raise Undecided(str(e))
        raise Undecided('subscript')

    def array_index(self, i):
        return ints(i)

    def comp(self, n, sc):
        out = []

        def rec(k, s):
            if k == len(n.generators):
                out.append(self.ev(n.elt, s) if not isinstance(
                    n, ast.DictComp) else (self.ev(n.key, s),
                                           self.ev(n.value, s)))
                return
            g = n.generators[k]
            for v in self.iterate(self.ev(g.iter, s)):
                s2 = Scope(s.mod, s)
                self.assign(g.target, v, s2)
                if all(truth(self.ev(c, s2)) for c in g.ifs):
                    rec(k + 1, s2)
        rec(0, sc)
        return out

    def ev_ListComp(self, n, sc):
        return self.comp(n, sc)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, sc):
        return set(self.comp(n, sc))

    def ev_DictComp(self, n, sc):
        return dict(self.comp(n, sc))

    def ev_Lambda(self, n, sc):
        return Function(n, sc.mod, sc)

    def ev_Starred(self, n, sc):
        raise Undecided('starred')

    def ev_Call(self, n, sc):
        name = n.func.id if isinstance(n.func, ast.Name) else \
            getattr(n.func, 'attr', None)
        if name in self.models and (not isinstance(n.func, ast.Name)
                                    or n.func.id not in sc.vars):
            f = self.models[name]
        else:
            f = self.ev(n.func, sc)
        args = self.elements(n.args, sc)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    # -- statements

    def block(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def iterate(self, v):
        if isinstance(v, np.ndarray):
            return [exact(x) for x in v]
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        raise Undecided('iteration')

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided('steps')
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return
            try:
                self.ev(v, sc)
            except Undecided:
                name = getattr(getattr(v, 'func', None), 'id', None)
                if name in ('output', 'print', 'assert_',
                            'output_array_stats'):
                    return
                raise
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, sc)
            for t in s.targets:
                self.assign(t, v, sc)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, sc), sc)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(ast.parse(ast.unparse(s.target),
                                    mode='eval').body, sc)
            v = self.ev(s.value, sc)
            new = self.binop(s.op, old, v)
            if isinstance(s.target, ast.Name) and isinstance(old, np.ndarray):
                try:
                    old[...] = new
                except ValueError:
                    raise Undecided('shape')
            elif isinstance(s.target, ast.Name) and isinstance(old, list):
                old[:] = new
            else:
                self.assign(s.target, new, sc)
        elif isinstance(s, ast.Return):
            raise Return(None if s.value is None else self.ev(s.value, sc))
        elif isinstance(s, ast.If):
            self.block(s.body if truth(self.ev(s.test, sc)) else s.orelse, sc)
        elif isinstance(s, ast.For):
            for v in self.iterate(self.ev(s.iter, sc)):
                self.assign(s.target, v, sc)
                try:
                    self.block(s.body, sc)
                except Break:
                    return
                except Continue:
                    pass
            self.block(s.orelse, sc)
        elif isinstance(s, ast.While):
            k = 0
            while truth(self.ev(s.test, sc)):
                k += 1
                if k > 1000:
                    raise Undecided('loop')
                try:
                    self.block(s.body, sc)
                except Break:
                    return
                except Continue:
                    pass
        elif isinstance(s, ast.FunctionDef):
            f = Function(s, sc.mod, sc)
            sc.vars[s.name] = self.decorated(s, f, sc)
        elif isinstance(s, ast.ClassDef):
            sc.vars[s.name] = Class(sc.mod, s, sc)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                try:
                    sc.vars[a.asname or a.name.split('.')[0]] = \
                        self.imported(sc.mod, s, a)
                except Undecided:
                    pass
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Nonlocal, ast.Global)):
            pass
        elif isinstance(s, ast.Break):
            raise Break()
        elif isinstance(s, ast.Continue):
            raise Continue()
        elif isinstance(s, ast.Delete):
            pass
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    raise Undecided('with')
            self.block(s.body, sc)
        else:
            raise Undecided(type(s).__name__)

    def decorated(self, s, f, sc):
        if s.decorator_list:
            for d in s.decorator_list:
                c = d.func if isinstance(d, ast.Call) else d
                name = getattr(c, 'id', getattr(c, 'attr', None))
                if name not in self.transparent:
                    raise Undecided('decorator')
        return f

    transparent = ('_cache', 'staticmethod', 'classmethod', 'lru_cache',
                   'cache', 'wraps')

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            sc.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            if any(isinstance(e, ast.Starred) for e in t.elts) \
               or len(vals) != len(t.elts):
                raise Undecided('unpacking')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            if isinstance(o, (Obj, Function)):
                o.attrs[t.attr] = v
            elif isinstance(o, np.ndarray) and t.attr == 'shape':
                try:
                    o.shape = shape_of(v)
                except (ValueError, AttributeError) as e:
                    raise Undecided(str(e))
            else:
                raise Undecided('attribute')
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.index(t.slice, sc)
            if isinstance(o, np.ndarray):
                try:
                    o[self.array_index(i)] = v
                except (ValueError, IndexError, TypeError) as e:
                    raise Undecided(str(e))
            elif isinstance(o, dict):
                o[i] = v
            elif isinstance(o, list):
                o[ints(i)] = v
            else:
                raise Undecided('store')
        else:
            raise Undecided('target')


def same(a, b):
    """Equality of expressions: True, False or None."""
    d = sp.sympify(a) - sp.sympify(b)
    if d == 0:
        return True
    try:
        if not d.has(sp.Pow) or all(p.exp.is_Integer
                                    for p in d.atoms(sp.Pow)):
            if not d.has(sp.sin, sp.cos):
                return sp.cancel(d) == 0
        e = sp.simplify(d)
    except Exception:
        return None
    if e == 0:
        return True
    syms = sorted(d.free_symbols, key=str)
    for k in range(3):
        at = {s: sp.Rational(7 + 4 * i + 3 * k, 5 + i)
              for i, s in enumerate(syms)}
        v = d.subs(at).evalf(40)
        if v.is_number and abs(v) > sp.Float('1e-25'):
            return False
    return None


def same_arrays(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    out = True
    for x, y in zip(a.ravel(), b.ravel()):
        r = same(x, y)
        if r is False:
            return False
        if r is None:
            out = None
    return out
