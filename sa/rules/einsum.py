"""
T04: the integrands of multi-linear terms are the documented ones.
"""
import ast
import itertools
from fractions import Fraction

from .. import pyfe
from ..core import AnalysisBroken
from .. import tensors as T
from ..tensors import Arr, Mismatch, Undecided
from .termif import rows_of

EXPLANATION = (
    'Abstract interpretation of get_function() of every multi-linear term for'
    ' each declared row of arguments, argument shapes, term mode and space'
    ' dimension 2, 3: arrays are sums of products of named factors with index'
    ' variables (symmetric storage, compound axes). The expression given to'
    ' make_function() is contracted with them; the result in a normal form'
    ' (names of summed indices, order of factors and terms) must be the'
    ' documented integrand. Tables of storage conversions are compared with'
    ' the documented ordering of components; operands added by the expression'
    ' builder must list the axes of the arrays they are taken from.')
RULE = ('one obligation per make_function() call reached in a configuration;'
        ' per table; per operand kind of the expression builder')
ASSUMPTIONS = [
    'gradients of parameters are stored as (derivative, component)',
    'the documented formulas, read once into the table of the rule',
    'nm.einsum and its replacements contract as numpy documents',
]

# Documented integrands. v, d, e: value, gradient [component, derivative],
# strain in symmetric storage of the argument of the given position, A: array
# argument, n: normal, G: gradient of a parameter [derivative, component],
# I: identity, T: gradient to strain table; i.j: pair stored row by row,
# i~j: pair in symmetric storage. Keys: shape of the material, term mode.
SPEC = {
    'de_integrate': {None: 'v1', '*': 'A0 v1'},
    'de_laplace': {None: 'd1[,i] d2[,i]', '*': 'A0 d1[,i] d2[,i]'},
    'de_dot': {None: 'v1[i] v2[i]', '1, 1': 'A0 v1[i] v2[i]',
               'D, D': 'A0[i,j] v1[i] v2[j]', 'N, N': 'A0[i,j] v1[i] v2[j]'},
    'de_s_dot_mgrad_s': {'*': 'A0[i] v1 d2[,i]'},
    'de_non_penetration_p': {'*': 'A0 n[i] v1[i] n[j] v2[j]'},
    'de_div_grad': {None: 'd1[i,j] d2[i,j]', '*': 'A0 d1[i,j] d2[i,j]'},
    'de_stokes_traction': {None: 'v1[i] d2[i,j] n[j]',
                           '*': 'A0 v1[i] d2[i,j] n[j]'},
    'de_convect': {None: 'v1[i] d2[i,j] v2[j]',
                   '*': 'A0 v1[i] d2[i,j] v2[j]'},
    'de_lin_convect': {'*': 'v0[i] d2[i,j] v1[j]'},
    'de_div': {None: 'd1[i,i]', '*': 'A0 d1[i,i]'},
    'de_grad': {None: 'd1[i,j] -> ij', '1, 1': 'A0 d1[i,j] -> ij',
                'N, 1': 'A0[j] d1[i,j] -> i',
                'N, N': 'A0[j,k] d1[i,j] -> ik'},
    'de_stokes': {None: 'd1[i,i] v2', '*': 'A0 d1[i,i] v2'},
    'de_lin_elastic': {'*': 'A0[I,K] e1[I] e2[K]'},
    'de_cauchy_stress': {'*': 'A0[I,K] e1[K] -> I'},
    'de_nonsym_elastic': {'*': 'A0[i.j,k.l] d1[i,j] d2[k,l]'},
    'de_diffusion': {'*': 'A0[i,j] d1[,i] d2[,j]'},
    'de_surface_ltr': {None: 'v1[i] n[i]', '1, 1': 'A0 v1[i] n[i]',
                       'D, 1': 'A0[i] v1[i]', 'D, D': 'A0[i,j] v1[i] n[j]',
                       'S, 1': 'A0[i~j] v1[i] n[j]'},
    'de_surface_flux': {'*': 'A0[i,j] n[i] v1 d2[,j]'},
    'ev_surface_flux2': {None: 'n[i] d1[,i]', '*': 'A0[i,j] n[i] d1[,j]'},
    'de_surface_piezo_flux': {'*': 'A0[i,J] n[i] v1 e2[J]'},
    'ev_surface_piezo_flux': {'*': 'A0[i,J] n[i] e1[J]'},
    'de_mass': {'*': 'A0 v3[i] v4[i]'},
    'ev_sd_piezo_coupling': {
        '*': 'A0[k,i~j] G3[l,l] d1[i,j] d2[,k]'
             ' - A0[k,i~l] G3[l,j] d1[i,j] d2[,k]'
             ' - A0[l,i~j] G3[l,k] d1[i,j] d2[,k]'},
    'de_sd_piezo_coupling': {
        '*': 'A0[k,i~j] G3[l,l] d1[i,j] d2[,k]'
             ' - A0[k,i~l] G3[l,j] d1[i,j] d2[,k]'
             ' - A0[l,i~j] G3[l,k] d1[i,j] d2[,k]'},
    'de_sd_lin_elastic': {
        'S, S': 'A0[i~j,k~l] G3[q,q] d1[i,j] d2[k,l]'
                ' - A0[i~j,k~q] G3[q,l] d1[i,j] d2[k,l]'
                ' - A0[i~q,k~l] G3[q,j] d1[i,j] d2[k,l]',
        'D2, D2': 'A0[i.j,k.l] G3[q,q] d1[i,j] d2[k,l]'
                  ' - A0[i.j,k.q] G3[q,l] d1[i,j] d2[k,l]'
                  ' - A0[i.q,k.l] G3[q,j] d1[i,j] d2[k,l]'},
    'de_sd_diffusion': {
        '*': 'A0[i,j] G3[q,q] d1[,i] d2[,j]'
             ' - A0[i,q] G3[q,j] d1[,i] d2[,j]'
             ' - A0[q,j] G3[q,i] d1[,i] d2[,j]'},
    'de_sd_stokes': {
        None: 'G3[q,q] d1[i,i] v2 - G3[i,j] d1[i,j] v2',
        '*': 'A0 G3[q,q] d1[i,i] v2 - A0 G3[i,j] d1[i,j] v2'},
    'de_sd_v_dot_grad_s': {
        None: 'G3[q,q] v1[i] d2[,i] - G3[i,j] v1[i] d2[,j]',
        '*': 'A0 G3[q,q] v1[i] d2[,i] - A0 G3[i,j] v1[i] d2[,j]'},
    'de_sd_div_grad': {
        None: 'G3[q,q] d1[i,j] d2[i,j] - G3[j,l] d1[i,j] d2[i,l]'
              ' - G3[l,j] d1[i,j] d2[i,l]',
        '*': 'A0 G3[q,q] d1[i,j] d2[i,j] - A0 G3[j,l] d1[i,j] d2[i,l]'
             ' - A0 G3[l,j] d1[i,j] d2[i,l]'},
    'de_sd_dot': {
        None: 'G3[q,q] v1[i] v2[i]', '1, 1': 'A0 G3[q,q] v1[i] v2[i]',
        'D, D': 'A0[i,j] G3[q,q] v1[i] v2[j]'},
    'de_sd_surface_ltr': {
        None: 'G2[q,q] v1[i] n[i] - G2[i,j] n[j] v1[i]',
        '1, 1': 'A0 G2[q,q] v1[i] n[i] - A0 G2[i,j] n[j] v1[i]',
        'D, D': 'A0[i,j] G2[q,q] v1[i] n[j] - A0[i,q] G2[q,j] n[j] v1[i]',
        'S, 1': 'A0[i~j] G2[q,q] v1[i] n[j] - A0[i~q] G2[q,j] n[j] v1[i]'},
    'de_m_sg_elastic': {
        ('*', None): 'A0[k.I,l.J] T[I,i] T[J,j] d1[i,k] d2[j,l]',
        ('*', 'strain'): 'T[I,i] v2[i] -> I',
        ('*', 'grad_strain'): 'T[J,j] d2[j,l] -> Jl',
        ('*', 'double_stress'): 'A0[k.I,l.J] T[I,i] T[J,j] d2[j,l] -> ik'},
    'de_m_flexo_coupling': {
        ('*', None): 'A0[j,k.I] T[I,i] d1[i,k] d2[,j]',
        ('*', 'electric_displacement'): 'A0[j,k.I] T[I,i] d1[i,k] -> j',
        ('*', 'double_stress'): 'A0[j,k.I] T[I,i] d2[,j] -> ik'},
    'de_m_flexo': {'*': 'd0[i,j] v1[i.j]'},
}

SYM = {2: [0, 2, 2, 1], 3: [0, 3, 4, 3, 1, 5, 4, 5, 2]}
SYM_PAIRS = {2: [(0, 0), (1, 1), (0, 1)],
             3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}


class U:
    """Unknown value."""
    def __repr__(self):
        return '?'


UNK = U()


class Var:
    def __init__(self, pos, ncomp, role):
        self.pos = pos
        self.ncomp = ncomp
        self.role = role


class Geo:
    pass


class Region:
    pass


class SelfObj:
    pass


class Fn:
    def __init__(self, f):
        self.f = f


class Const:
    """A constant array (list)."""
    def __init__(self, v):
        self.v = v


class Letters:
    def __init__(self, s):
        self.s = s
        self.k = 0

    def next(self):
        self.k += 1
        return self.s[self.k - 1]


class Obj:
    """An object with known attributes."""
    def __init__(self, cls=None, **attrs):
        self.cls = cls
        self.attrs = attrs


class Interp:
    """Interpretation of one get_function() in one configuration."""
    MAXPATHS = 64

    def __init__(self, pp, cls, conf):
        self.pp = pp
        self.cls = cls
        self.conf = conf
        self.calls = []        # (node, expr, operands)
        self.depth = 0

    # -- statements: generator of (env, returned) ------------------------
    def block(self, body, env, f):
        states = [(env, None)]
        for s in body:
            nxt = []
            for e, r in states:
                if r is not None:  # returned, broken out, continued
                    nxt.append((e, r))
                else:
                    nxt += self.stmt(s, e, f)
            states = nxt[:self.MAXPATHS]
            if not states:
                break
        return states

    def stmt(self, s, env, f):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.bind(t, v, env, f)
            return [(env, None)]
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, f), env, f)
            return [(env, None)]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                a = env.get(s.target.id, UNK)
                b = self.ev(s.value, env, f)
                env[s.target.id] = self.binop(s.op, a, b)
            elif not self.store(s.target, None, env, f, s):
                self.ev(s.value, env, f)
                self.taint(s.target, env)
            return [(env, None)]
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env, f) if s.value is not None else None
            return [(env, ('ret', v))]
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, f)
            return [(env, None)]
        if isinstance(s, ast.If):
            t = self.truth(self.ev(s.test, env, f))
            out = []
            if t is not False:
                out += self.block(s.body, dict(env), f)
            if t is not True:
                out += self.block(s.orelse, dict(env), f)
            return out
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, (ast.FunctionDef,)):
            env[s.name] = UNK
            return [(env, None)]
        if isinstance(s, ast.Pass):
            return [(env, None)]
        if isinstance(s, ast.Break):
            return [(env, ('break', None))]
        if isinstance(s, ast.Continue):
            return [(env, ('continue', None))]
        if isinstance(s, ast.Assert):
            return [(env, None)]
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env, f)
            return self.block(s.body, env, f)
        if isinstance(s, ast.Try):
            return self.block(s.body + s.orelse + s.finalbody, env, f)
        if isinstance(s, (ast.For, ast.While)):
            it = None
            if isinstance(s, ast.For):
                it = self.ev(s.iter, env, f)
                if isinstance(it, (list, tuple)) and len(it) <= 40 and not (
                        it and it[0] in ('name', 'meth')):
                    states, done = [(env, None)], []
                    for x in it:
                        nxt = []
                        for e, r in states:
                            self.bind(s.target, x, e, f)
                            for e2, r2 in self.block(s.body, e, f):
                                if r2 is None or r2[0] == 'continue':
                                    nxt.append((e2, None))
                                elif r2[0] == 'break':
                                    done.append((e2, None))
                                else:
                                    done.append((e2, r2))
                        states = nxt[:self.MAXPATHS]
                    if s.orelse:
                        states = [y for e, r in states
                                  for y in self.block(s.orelse, e, f)]
                    return states + done
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = UNK
            return [(env, None)]
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global)):
            return [(env, None)]
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = UNK
        return [(env, None)]

    def taint(self, t, env):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Name) and t.id in env:
            env[t.id] = UNK

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (tuple, list)) and len(v) == len(t.elts) \
               and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v):
                    self.bind(x, y, env, f)
            else:
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x,
                              UNK, env, f)
        elif not self.store(t, v, env, f):
            self.taint(t, env)

    def store(self, t, v, env, f, aug=None):
        """Store into lists and modelled objects."""
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            if isinstance(o, Obj):
                if aug is not None:
                    v = self.binop(aug.op, o.attrs.get(t.attr, UNK),
                                   self.ev(aug.value, env, f))
                o.attrs[t.attr] = v
                return True
            return False
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            k = self.ev(t.slice, env, f) if not isinstance(
                t.slice, ast.Slice) else UNK
            if isinstance(o, list) and isinstance(k, int) \
               and -len(o) <= k < len(o):
                if aug is not None:
                    v = self.binop(aug.op, o[k], self.ev(aug.value, env, f))
                o[k] = v
                return True
        return False

    @staticmethod
    def truth(v):
        if v is UNK or isinstance(v, (U, Arr)):
            return None
        if isinstance(v, (Var, Geo, SelfObj, Fn, Obj)):
            return True
        try:
            return bool(v)
        except Exception:
            return None

    # -- expressions -------------------------------------------------------
    def ev(self, n, env, f):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr) and not isinstance(
                        n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                            ast.DictComp, ast.SetComp)):
                    self.ev(c, env, f)
            return UNK
        return m(n, env, f)

    def x_Constant(self, n, env, f):
        return n.value

    def x_Name(self, n, env, f):
        if n.id in env:
            return env[n.id]
        t = self.pp.resolve_name(f.module, n.id) \
            if hasattr(self.pp, 'resolve_name') else None
        if isinstance(t, pyfe.Func):
            return Fn(t)
        vals = f.module.assigns.get(n.id)
        if vals and len(vals) == 1:
            try:
                return ast.literal_eval(vals[0])
            except Exception:
                return UNK
        return ('name', n.id)

    def x_Tuple(self, n, env, f):
        return tuple(self.ev(x, env, f) for x in n.elts)

    def x_List(self, n, env, f):
        return [self.ev(x, env, f) for x in n.elts]

    def x_Dict(self, n, env, f):
        out = {}
        for k, v in zip(n.keys, n.values):
            kv = self.ev(k, env, f) if k is not None else UNK
            vv = self.ev(v, env, f)
            try:
                out[kv] = vv
            except TypeError:
                return UNK
        return out

    def x_ListComp(self, n, env, f):
        out = []

        def rec(k, e):
            if k == len(n.generators):
                out.append(self.ev(n.elt, e, f))
                return True
            g = n.generators[k]
            it = self.ev(g.iter, e, f)
            if not isinstance(it, (list, tuple, str)) or (
                    isinstance(it, tuple) and it and it[0] == 'name'):
                return False
            for x in it:
                e2 = dict(e)
                self.bind(g.target, x, e2, f)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2, f))
                    if t is None:
                        return False
                    ok = ok and t
                if ok and not rec(k + 1, e2):
                    return False
            return True
        return out if rec(0, dict(env)) else UNK

    x_GeneratorExp = x_ListComp

    def x_IfExp(self, n, env, f):
        t = self.truth(self.ev(n.test, env, f))
        if t is True:
            return self.ev(n.body, env, f)
        if t is False:
            return self.ev(n.orelse, env, f)
        return UNK

    def x_BoolOp(self, n, env, f):
        res = None
        unk = False
        for x in n.values:
            v = self.ev(x, env, f)
            t = self.truth(v)
            if isinstance(n.op, ast.And):
                if t is False:
                    return v
            else:
                if t is True and not unk:
                    return v
            if t is None:
                unk = True
            res = v
        return UNK if unk else res

    def x_UnaryOp(self, n, env, f):
        v = self.ev(n.operand, env, f)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return UNK if t is None else not t
        if isinstance(n.op, ast.USub):
            if isinstance(v, Arr):
                return v.scale(-1)
            if isinstance(v, (int, float)):
                return -v
        return UNK

    def x_JoinedStr(self, n, env, f):
        out = ''
        for x in n.values:
            if isinstance(x, ast.Constant):
                out += x.value
            else:
                v = self.ev(x.value, env, f)
                if not isinstance(v, (str, int)):
                    return UNK
                out += str(v)
        return out

    def x_Compare(self, n, env, f):
        vals = [self.ev(x, env, f) for x in [n.left] + n.comparators]
        res = True
        for op, a, b in zip(n.ops, vals, vals[1:]):
            if isinstance(op, (ast.Is, ast.IsNot)):
                if a is UNK or b is UNK:
                    return UNK
                if a is None or b is None:
                    r = (a is None) == (b is None)
                else:
                    return UNK
                r = r if isinstance(op, ast.Is) else not r
            else:
                if self.opaque(a) or self.opaque(b):
                    return UNK
                try:
                    if isinstance(op, ast.Eq):
                        r = a == b
                    elif isinstance(op, ast.NotEq):
                        r = a != b
                    elif isinstance(op, ast.Lt):
                        r = a < b
                    elif isinstance(op, ast.LtE):
                        r = a <= b
                    elif isinstance(op, ast.Gt):
                        r = a > b
                    elif isinstance(op, ast.GtE):
                        r = a >= b
                    elif isinstance(op, ast.In):
                        r = a in b
                    elif isinstance(op, ast.NotIn):
                        r = a not in b
                    else:
                        return UNK
                except TypeError:
                    return UNK
            if not r:
                return False
        return res

    def opaque(self, v):
        if isinstance(v, (tuple, list)):
            if v and isinstance(v, tuple) and v[0] in ('name',):
                return True
            return any(self.opaque(x) for x in v)
        return isinstance(v, (U, Arr, Var, Geo, SelfObj, Fn, Region, Const, Obj))

    def x_BinOp(self, n, env, f):
        return self.binop(n.op, self.ev(n.left, env, f),
                          self.ev(n.right, env, f))

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (int, float)):
                a = Arr.const(a)
            if isinstance(b, (int, float)):
                if isinstance(op, ast.Div):
                    return a.scale(1 / Fraction(b)) if b else UNK
                b = Arr.const(b)
            if not (isinstance(a, Arr) and isinstance(b, Arr)):
                return UNK
            if isinstance(op, ast.Mult):
                return T.mul(a, b)
            if isinstance(op, ast.Add):
                return T.add(a, b)
            if isinstance(op, ast.Sub):
                return T.add(a, b, -1)
            if isinstance(op, ast.MatMult):
                return T.matmul(a, b)
            return UNK
        try:
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.FloorDiv):
                    return a // b
                if isinstance(op, ast.Div):
                    return a / b
                if isinstance(op, ast.Pow):
                    return a ** b
                if isinstance(op, ast.Mod):
                    return a % b
            if isinstance(op, ast.Add) and type(a) is type(b) \
               and isinstance(a, (str, tuple, list)):
                return a + b
            if isinstance(op, ast.Mod) and isinstance(a, str) \
               and not self.opaque(b):
                return a % b
            if isinstance(op, ast.Mult) and isinstance(a, (list, tuple, str)) \
               and isinstance(b, int):
                return a * b
        except Exception:
            return UNK
        return UNK

    def x_Attribute(self, n, env, f):
        v = self.ev(n.value, env, f)
        a = n.attr
        if isinstance(v, SelfObj):
            if a == 'region':
                return Region()
            if a == 'mode':
                return self.conf['self_mode'] or UNK
            k, val = self.cls.find_attr(a)
            if isinstance(val, pyfe.Func):
                return ('method', val)
            if isinstance(val, ast.AST):
                try:
                    return ast.literal_eval(val)
                except Exception:
                    return UNK
            return UNK
        if isinstance(v, Obj):
            if a in v.attrs:
                return v.attrs[a]
            if v.cls is not None:
                k, val = v.cls.find_attr(a)
                if isinstance(val, pyfe.Func):
                    return ('objmeth', v, val)
                if isinstance(val, ast.AST):
                    try:
                        return ast.literal_eval(val)
                    except Exception:
                        return UNK
            return UNK
        if isinstance(v, list):
            return ('listmeth', v, a)
        if isinstance(v, Region):
            return self.conf['D'] if a in ('dim', 'tdim') else UNK
        if isinstance(v, Geo):
            if a == 'normal':
                return Arr.named('n', [self.conf['D'], 1])
            return UNK
        if isinstance(v, Var):
            if a == 'dim':
                return self.conf['D']
            if a == 'n_components':
                return v.ncomp
            return UNK
        if isinstance(v, Arr):
            if a == 'shape':
                return v.shape
            if a == 'ndim':
                return v.lead + len(v.axes)
            if a == 'T' and v.lead == 0 and len(v.axes) == 2:
                return v.transpose([1, 0])
            return ('meth', v, a)
        if isinstance(v, str):
            return ('strmeth', v, a)
        if isinstance(v, tuple) and v and v[0] == 'name':
            if v[1] in ('nm', 'np', 'numpy') and a == 'newaxis':
                return None
            return ('name', v[1] + '.' + a)
        return UNK

    def x_Subscript(self, n, env, f):
        v = self.ev(n.value, env, f)
        sl = n.slice
        if isinstance(v, Arr):
            parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            return self.index(v, parts, env, f)
        if isinstance(v, (tuple, list, str)) and not (
                isinstance(v, tuple) and v and isinstance(v[0], str)
                and v[0] in ('name', 'meth', 'method', 'strmeth')):
            try:
                if isinstance(sl, ast.Slice):
                    g = [self.ev(x, env, f) if x is not None else None
                         for x in (sl.lower, sl.upper, sl.step)]
                    return v[slice(*g)]
                return v[self.ev(sl, env, f)]
            except Exception:
                return UNK
        if isinstance(v, dict):
            try:
                return v.get(self.ev(sl, env, f), UNK)
            except TypeError:
                return UNK
        return UNK

    def index(self, v, parts, env, f):
        full = v.lead + len(v.axes)
        ell = [i for i, p in enumerate(parts)
               if isinstance(p, ast.Constant) and p.value is Ellipsis]
        vals = []
        for p in parts:
            if isinstance(p, ast.Slice):
                if p.lower is None and p.upper is None and p.step is None:
                    vals.append(':')
                else:
                    return UNK
            elif isinstance(p, ast.Constant) and p.value is Ellipsis:
                vals.append('...')
            else:
                x = self.ev(p, env, f)
                if x is None:
                    vals.append('new')
                elif isinstance(x, int):
                    vals.append(x)
                elif isinstance(x, (list, Const)):
                    vals.append(Const(x) if isinstance(x, list) else x)
                else:
                    return UNK
        n_use = sum(1 for x in vals if x not in ('...', 'new'))
        if ell:
            k = ell[0]
            vals[k:k + 1] = [':'] * (full - n_use)
        else:
            vals += [':'] * (full - n_use)
        pos = 0
        out = v
        for x in vals:
            if x == ':':
                pos += 1
            elif x == 'new':
                if pos < out.lead:
                    return UNK
                out = out.insert(pos - out.lead)
                pos += 1
            elif isinstance(x, int):
                if pos < out.lead:
                    return UNK
                k = pos - out.lead
                if x < 0:
                    x += out.size(out.axes[k])
                out = out.drop(k, x)
            else:
                if pos < out.lead:
                    return UNK
                k = pos - out.lead
                d = self.conf['D']
                if list(x.v) == SYM[d]:
                    out = out.split_sym(k, d)
                else:
                    raise Mismatch('components are selected by %s, which is'
                                   ' not the symmetric storage' % (x.v,))
                pos += 1
        return out

    def args(self, n, env, f):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, f)
                if isinstance(v, (tuple, list)):
                    pos += list(v)
                else:
                    pos.append(UNK)
                    kw['*'] = True
            else:
                pos.append(self.ev(a, env, f))
        for k in n.keywords:
            if k.arg is None:
                self.ev(k.value, env, f)
            else:
                kw[k.arg] = self.ev(k.value, env, f)
        return pos, kw

    def x_Call(self, n, env, f):
        D = self.conf['D']
        # self methods
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, env, f)
            if isinstance(recv, SelfObj):
                return self.self_call(n, env, f)
        fn = self.ev(n.func, env, f)
        pos, kw = self.args(n, env, f)
        if isinstance(fn, tuple) and fn and fn[0] == 'strmeth':
            if not self.opaque(pos) and not self.opaque(list(kw.values())) \
               and fn[2] in ('format', 'join', 'replace', 'upper', 'lower',
                             'strip', 'split', 'count', 'index', 'isdigit',
                             'isnumeric', 'find'):
                try:
                    return getattr(fn[1], fn[2])(*pos, **kw)
                except Exception:
                    return UNK
            return UNK
        if isinstance(fn, tuple) and fn and fn[0] == 'objmeth':
            return self.inline(fn[2], pos, kw, fn[1])
        if isinstance(fn, tuple) and fn and fn[0] == 'listmeth':
            if fn[2] == 'append' and len(pos) == 1:
                fn[1].append(pos[0])
                return None
            if fn[2] == 'extend' and len(pos) == 1 and isinstance(
                    pos[0], (list, tuple)):
                fn[1].extend(pos[0])
                return None
            if fn[2] == 'copy':
                return list(fn[1])
            if fn[2] in ('count', 'index') and not self.opaque(pos):
                try:
                    return getattr(fn[1], fn[2])(*pos)
                except Exception:
                    return UNK
            return UNK
        if isinstance(fn, tuple) and fn and fn[0] == 'meth':
            return self.arr_method(fn[1], fn[2], pos, kw)
        name = None
        if isinstance(fn, tuple) and fn and fn[0] == 'name':
            name = fn[1].split('.', 1)[-1] if '.' in fn[1] else fn[1]
        if isinstance(fn, Fn):
            name = fn.f.name
        r = self.known(name, pos, kw)
        if r is not NotImplemented:
            return r
        if isinstance(fn, Fn):
            return self.inline(fn.f, pos, kw, None)
        return UNK

    def inline(self, fun, pos, kw, selfobj):
        if self.depth > 4:
            return UNK
        ps = list(fun.params)
        env = {}
        if selfobj is not None and ps and not fun.is_static:
            env[ps[0]] = selfobj
            ps = ps[1:]
        for p in ps:
            env[p] = UNK
        a = fun.node.args
        ds = a.defaults
        names = [x.arg for x in a.posonlyargs + a.args]
        for p, d in zip(names[len(names) - len(ds):], ds):
            if isinstance(d, ast.Constant):
                env[p] = d.value
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            env[p.arg] = d.value if isinstance(d, ast.Constant) else UNK
        if a.vararg:
            env[a.vararg.arg] = tuple(pos[len(ps):])
        if a.kwarg:
            env[a.kwarg.arg] = UNK
        for p, v in zip(ps, pos):
            env[p] = v
        for k, v in kw.items():
            if k in env or k in ps:
                env[k] = v
        self.depth += 1
        try:
            outs = self.block(fun.node.body, env, fun)
        finally:
            self.depth -= 1
        rets = [r[1] for _, r in outs if r is not None]
        if len(outs) == 1 and rets:
            return rets[0]
        if not rets:
            return None if outs else UNK
        if all(not self.opaque(r) for r in rets) \
           and all(r == rets[0] for r in rets):
            return rets[0]
        return UNK

    def self_call(self, n, env, f):
        name = n.func.attr
        pos, kw = self.args(n, env, f)
        if name == 'make_function':
            self.calls.append((n, f, pos[0] if pos else UNK, pos[1:],
                               bool(kw.get('*'))))
            return ('function',)
        if name == 'get_mapping':
            return (Geo(), UNK)
        if name == 'get_normals':
            return Arr.named('n', [self.conf['D']])
        if name == 'get':
            if len(pos) > 1 and isinstance(pos[0], Var):
                D = self.conf['D']
                v, what = pos[0], pos[1]
                if what == 'grad':
                    return Arr.named('G%d' % v.pos, [D, v.ncomp])
                if what == 'div':
                    g = Arr.named('G%d' % v.pos, [D, v.ncomp])
                    t = T.trace(g, 0, 1)
                    return t.insert(0).insert(0)
                if what == 'val':
                    return Arr.named('V%d' % v.pos, [v.ncomp, 1])
            return UNK
        m = self.cls.find(name)
        if m is not None:
            return self.inline(m, pos, kw, SelfObj())
        return UNK

    def arr_method(self, v, name, pos, kw):
        if name == 'transpose':
            p = pos[0] if len(pos) == 1 and isinstance(pos[0], (tuple, list)) \
                else tuple(pos)
            if len(p) == v.lead + len(v.axes) and all(isinstance(x, int)
                                                      for x in p):
                p = [x % len(p) for x in p]
                if list(p[:v.lead]) == list(range(v.lead)):
                    return v.transpose([x - v.lead for x in p[v.lead:]])
            return UNK
        if name == 'reshape':
            d = pos[0] if len(pos) == 1 and isinstance(pos[0], (tuple, list)) \
                else tuple(pos)
            if len(d) >= 2 and (d[0] in (-1, 'c')) and d[1] in ('q', UNK) \
               and all(isinstance(x, int) for x in d[2:]):
                return v.reshape(list(d[2:]))
            return UNK
        if name == 'swapaxes' and len(pos) == 2 \
                and all(isinstance(x, int) for x in pos):
            n = v.lead + len(v.axes)
            p = list(range(n))
            a, b = pos[0] % n, pos[1] % n
            p[a], p[b] = p[b], p[a]
            if a >= v.lead and b >= v.lead:
                return v.transpose([x - v.lead for x in p[v.lead:]])
            return UNK
        if name in ('copy', 'astype'):
            return v
        if name == 'trace':
            return self.known('trace', [v] + pos, kw)
        return UNK

    def known(self, name, pos, kw):
        D = self.conf['D']
        if name == 'dim2sym':
            return pos[0] * (pos[0] + 1) // 2 if pos and isinstance(
                pos[0], int) else UNK
        if name == 'sym2dim':
            return UNK
        if name == 'dot_sequences':
            mode = pos[2] if len(pos) > 2 else kw.get('mode', 'AB')
            if len(pos) < 2 or not (isinstance(pos[0], Arr)
                                    and isinstance(pos[1], Arr)):
                return UNK
            a, b = pos[0], pos[1]
            if not isinstance(mode, str):
                return UNK
            sq = False
            if len(b.axes) + b.lead != len(a.axes) + a.lead:
                b = b.insert(len(b.axes))
                sq = True
            if 'BT' in mode:
                p = list(range(len(b.axes)))
                p[-1], p[-2] = p[-2], p[-1]
                b = b.transpose(p)
            if 'AT' in mode:
                p = list(range(len(a.axes)))
                p[-1], p[-2] = p[-2], p[-1]
                a = a.transpose(p)
            out = T.matmul(a, b)
            return out.drop(len(out.axes) - 1) if sq else out
        if name in ('matmul', 'dot') and len(pos) == 2 \
                and all(isinstance(x, Arr) for x in pos):
            return T.matmul(pos[0], pos[1]) if name == 'matmul' else UNK
        if name == 'eye':
            if pos and isinstance(pos[0], int):
                return T.eye(pos[0], D)
            return UNK
        if name == 'trace':
            if not pos or not isinstance(pos[0], Arr):
                return UNK
            v = pos[0]
            n = v.lead + len(v.axes)
            a1 = kw.get('axis1', pos[2] if len(pos) > 2 else 0)
            a2 = kw.get('axis2', pos[3] if len(pos) > 3 else 1)
            if not (isinstance(a1, int) and isinstance(a2, int)):
                return UNK
            a1, a2 = a1 % n - v.lead, a2 % n - v.lead
            if a1 < 0 or a2 < 0:
                return UNK
            return T.trace(v, a1, a2)
        if name == 'tile':
            if len(pos) == 2 and isinstance(pos[0], Arr) and isinstance(
                    pos[1], tuple) and all(x == 1 for x in pos[1][2:]):
                return pos[0]
            return UNK
        if name in ('asarray', 'array', 'ascontiguousarray', 'asanyarray',
                    'require'):
            if pos and isinstance(pos[0], Arr):
                return pos[0]
            if pos and isinstance(pos[0], list) and all(
                    isinstance(x, int) for x in pos[0]):
                return Const(pos[0])
            return UNK
        if name == 'transpose' and len(pos) == 2 and isinstance(pos[0], Arr):
            return self.arr_method(pos[0], 'transpose', [pos[1]], {})
        if name == 'einsum':
            return self.einsum(pos)
        if name == 'sym2nonsym':
            ax = pos[1] if len(pos) > 1 else kw.get('axes', [3])
            if isinstance(ax, int):
                ax = [ax]
            if pos and isinstance(pos[0], Arr) and isinstance(
                    ax, (list, tuple)) and all(isinstance(x, int)
                                               for x in ax):
                v = pos[0]
                for a in ax:
                    v = v.split_sym(a - v.lead, D)
                return v
            return UNK
        if name == 'get_nonsym_grad_op':
            if pos and isinstance(pos[0], Arr) and len(pos[0].axes) == 2:
                g = pos[0].fresh()
                i, k = T.new(D), T.new(D)
                return Arr([(i,) + g.axes[0], (k,) + g.axes[1]],
                           [(c, fs + (('I', ((i,), (k,))),))
                            for c, fs in g.terms], g.lead)
            return UNK
        if name == 'make_grad2strain':
            if pos and isinstance(pos[0], int):
                d = pos[0]
                return Arr.named('T', [d * (d + 1) // 2, d * d])
            return UNK
        if name == 'len':
            if pos and isinstance(pos[0], (tuple, list, str)):
                return len(pos[0])
            return UNK
        if name == 'copy' and len(pos) == 1:
            return list(pos[0]) if isinstance(pos[0], list) else pos[0]
        if name == 'next' and pos and isinstance(pos[0], Letters):
            return pos[0].next()
        if name in ('zip', 'enumerate', 'list', 'tuple') and pos and all(
                isinstance(x, (list, tuple, str)) for x in pos):
            return {'zip': lambda *a: list(zip(*a)),
                    'enumerate': lambda *a: list(enumerate(*a)),
                    'list': list, 'tuple': tuple}[name](*pos)
        if name in ('isnumeric', 'isdigit') and pos and isinstance(pos[0],
                                                                   str):
            return getattr(pos[0], name)()
        if name in ('set', 'sorted') and pos and isinstance(
                pos[0], (str, list, tuple)) and not self.opaque(pos[0]):
            return sorted(set(pos[0])) if name == 'set' else sorted(pos[0])
        if name in ('min', 'max', 'int', 'range', 'sum', 'tuple', 'list',
                    'str', 'zip', 'enumerate'):
            if not self.opaque(pos):
                try:
                    r = {'min': min, 'max': max, 'int': int, 'sum': sum,
                         'range': range, 'tuple': tuple, 'list': list,
                         'str': str, 'zip': zip,
                         'enumerate': enumerate}[name](*pos)
                    return r if isinstance(r, (int, str, tuple)) else list(r)
                except Exception:
                    return UNK
            return UNK
        if name == 'isinstance':
            return UNK
        return NotImplemented

    def einsum(self, pos):
        if not pos or not isinstance(pos[0], str) or not all(
                isinstance(x, Arr) for x in pos[1:]):
            return UNK
        if '->' not in pos[0]:
            return UNK
        ins, out = pos[0].replace(' ', '').split('->')
        groups = ins.split(',')
        if len(groups) != len(pos) - 1:
            raise Mismatch('einsum %r has %d operands' % (pos[0],
                                                          len(pos) - 1))
        lead = None
        gs = []
        for g, a in zip(groups, pos[1:]):
            if g.startswith('...'):
                pre, g = g[:3], g[3:]
            else:
                pre, g = g[:a.lead], g[a.lead:]
            if a.lead and lead not in (None, pre):
                return UNK
            lead = pre if a.lead else lead
            gs.append(g)
        if lead is None or not out.startswith(lead):
            return UNK
        outl = out[len(lead):]
        # keep the output letters: contract with markers
        res = contract_to(list(pos[1:]), gs, outl)
        return res


def contract_to(ops, gs, outl):
    prod, letters = None, []
    for o, g in zip(ops, gs):
        if len(o.axes) != len(g):
            raise Mismatch('einsum indices %r for %d axes' % (g,
                                                             len(o.axes)))
        prod = o.fresh() if prod is None else T.outer(prod, o)
        letters += list(g)
    first = {}
    for p, ch in enumerate(letters):
        if ch in first:
            prod = T.join(prod, first[ch], p)
        else:
            first[ch] = p
    if any(ch not in first for ch in outl):
        raise Mismatch('unknown output index')
    return Arr([prod.axes[first[ch]] for ch in outl], prod.terms)


# ----------------------------------------------------------------- operands
def parse_expr(texpr):
    """[(kind, letters...)] per operand."""
    out = []
    depth = 0
    cur = ''
    for ch in texpr.replace(' ', ''):
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


RESERVED = set('cqdefghrstuvwxyz')


def operands(texpr, ops, conf):
    """(arrays, groups) of a make_function() call."""
    toks = parse_expr(texpr)
    if len(toks) != len(ops):
        raise Mismatch('%d indexed operands, %d arguments are given'
                       % (len(toks), len(ops)))
    D = conf['D']
    arrs, groups = [], []
    for tok, op in zip(toks, ops):
        if isinstance(op, tuple) and op and isinstance(op[0], Arr):
            op = op[0]
        if isinstance(op, U) or (isinstance(op, tuple)):
            raise Undecided('operand %s' % tok)
        mod = None
        letter = None
        if '->' in tok:
            head, letter = tok.split('->')
            if '(' not in head or not head.endswith(')') \
               or len(letter) != 1:
                raise Mismatch('operand %r' % tok)
            mod, inner = head[:-1].split('(')
            if mod not in ('s', 'v'):
                raise Mismatch('modifier %r' % mod)
        else:
            inner = tok
        used = set(ch for ch in (letter or inner) if ch.isalpha())
        if used & RESERVED:
            raise Mismatch('reserved index letters %s in %r'
                           % (''.join(sorted(used & RESERVED)), tok))
        if isinstance(op, Arr):
            if mod or '.' in inner or ':' in inner:
                raise Mismatch('%r for an array argument' % tok)
            arrs.append(op)
            groups.append(list(inner))
            continue
        if not isinstance(op, Var):
            raise Mismatch('%r for the value %r' % (tok, op))
        nc = op.ncomp
        if mod:
            sep = ':' if mod == 's' else '.'
            parts = inner.replace(':', '.').split('.')
            if len(parts) != 2 or len(parts[0]) != 1 or len(parts[1]) != 1:
                raise Mismatch('operand %r' % tok)
            if mod == 's' and sep not in inner:
                raise Mismatch('operand %r has no symmetric gradient' % tok)
            if nc != D:
                raise Mismatch('%r for a variable with %d components'
                               % (tok, nc))
            if parts[0] == parts[1]:
                raise Mismatch('operand %r repeats an index' % tok)
            if mod == 's':
                arrs.append(Arr.named('e%d' % op.pos, [D * (D + 1) // 2]))
            else:
                a = Arr.named('d%d' % op.pos, [D, D])
                arrs.append(Arr([a.axes[0] + a.axes[1]], a.terms))
            groups.append([letter])
            continue
        if '.' in inner or ':' in inner:
            parts = inner.replace(':', '.').split('.')
            if len(parts) != 2 or len(parts[0]) != 1 or len(parts[1]) != 1:
                raise Mismatch('operand %r' % tok)
            if nc == 1:
                arrs.append(Arr.named('d%d' % op.pos, [D]))
                groups.append([parts[1]])
            else:
                if parts[0].isdigit():
                    raise Mismatch('%r for a variable with %d components'
                                   % (tok, nc))
                arrs.append(Arr.named('d%d' % op.pos, [nc, D]))
                groups.append([parts[0], parts[1]])
        else:
            if len(inner) != 1:
                raise Mismatch('operand %r' % tok)
            if nc == 1:
                arrs.append(Arr.named('v%d' % op.pos, []))
                groups.append([])
            else:
                if inner.isdigit():
                    raise Mismatch('%r for a variable with %d components'
                                   % (tok, nc))
                arrs.append(Arr.named('v%d' % op.pos, [nc]))
                groups.append([inner])
    return arrs, groups


def spec_form(text, sizes, D):
    """Normal form of a table entry; sizes: factor -> axis sizes."""
    body, _, out = text.partition('->')
    out = out.strip()
    terms = []
    sign = 1
    toks = body.split()
    cur = []
    for t in toks + ['+']:
        if t in ('+', '-'):
            if cur:
                terms.append((sign, cur))
            sign = 1 if t == '+' else -1
            cur = []
        else:
            cur.append(t)
    form = {}
    for sg, facs in terms:
        ids = {}

        def var(ch):
            if ch not in ids:
                ids[ch] = T.new(0)
            return ids[ch]
        free = [var(ch) for ch in out]
        fs = []
        for fac in facs:
            name, _, ix = fac.partition('[')
            ix = ix.rstrip(']').split(',') if ix else []
            idx = []
            scalar = sizes.get(name[0] + name[1:]) == 1
            for k, i in enumerate(ix):
                if i == '':
                    continue
                if name[0] in 'vd' and k == 0 and sizes.get(name) == 1:
                    continue
                if '~' in i:
                    a, b = i.split('~')
                    idx.append(('s', var(a), var(b)))
                else:
                    idx.append(tuple(var(ch) for ch in i.split('.')))
            fs.append((name, tuple(idx)))
        s = T.canon_term(fs, free)
        form[s] = form.get(s, 0) + sg
    return {k: v for k, v in form.items() if v}


# ------------------------------------------------------------------- shapes
def shape_sets(cls):
    k, v = cls.find_attr('arg_shapes')
    if v is None or isinstance(v, pyfe.Func):
        return None
    try:
        sh = ast.literal_eval(v)
    except Exception:
        return None
    if isinstance(sh, dict):
        sh = [sh]
    out, cur = [], {}
    for s in sh:
        cur = dict(cur)
        cur.update(s)
        out.append(dict(cur))
    return out


def dims(text, conf):
    tab = {'D': conf['D'], 'S': conf['D'] * (conf['D'] + 1) // 2,
           'D2': conf['D'] ** 2,
           'SD': conf['D'] ** 2 * (conf['D'] + 1) // 2,
           'N': conf['N'], '1': 1}
    try:
        return [tab[x.strip()] if x.strip() in tab else int(x)
                for x in text.split(',')]
    except (KeyError, ValueError):
        return None


def configurations(cls):
    rows, modes = rows_of(cls)
    sets = shape_sets(cls)
    if rows is None or sets is None:
        return
    gf = cls.find('get_function')
    tms = {None}
    for n in ast.walk(gf.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) \
           and n.left.id == 'term_mode':
            for c in n.comparators:
                for x in ast.walk(c):
                    if isinstance(x, ast.Constant) and isinstance(x.value,
                                                                  str):
                        tms.add(x.value)
    for D in (2, 3):
        for ir, row in enumerate(rows):
            smode = modes[ir] if modes and len(rows) > 1 else None
            for sh in sets:
                em = ['weak'] if 'virtual' in row else ['eval', 'qp']
                ns = [D, 5] if 'N' in str(sh) else [D]
                for tm, m, n in itertools.product(sorted(tms, key=str), em,
                                                  ns):
                    yield {'D': D, 'N': n, 'self_mode': smode, 'row': row,
                           'shapes': sh, 'term_mode': tm, 'eval_mode': m}


def arguments(conf):
    """(values, material shape, component counts) or None."""
    vals, mat, nc = [], '', {}
    row, sh, mode = conf['row'], conf['shapes'], conf['self_mode']
    for pos, a in enumerate(row):
        kind = a
        s = sh.get('%s/%s' % (a, mode), sh.get(a, '?')) if mode \
            else sh.get(a, '?')
        if s == '?':
            return None
        if 'material' in kind:
            if s is None:
                vals.append(None)
                if mat == '':
                    mat = None
            elif s.startswith('.'):
                vals.append(UNK)
            else:
                d = dims(s, conf)
                if d is None:
                    return None
                vals.append(Arr.named('A%d' % pos, d))
                if mat == '':
                    mat = s
        else:
            if isinstance(s, tuple):
                s = s[0]
            d = dims(str(s), conf)
            if d is None or len(d) != 1:
                return None
            vals.append(Var(pos, d[0], a))
            nc['v%d' % pos] = nc['d%d' % pos] = d[0]
    return vals, mat, nc


def find_spec(name, mat, tm):
    tab = SPEC.get(name)
    if tab is None:
        return None
    for k in ((mat, tm), ('*', tm)):
        if k in tab and not (k[0] == '*' and mat is None):
            return tab[k]
    if any(isinstance(k, tuple) for k in tab):
        return None
    if mat in tab:
        return tab[mat]
    if mat is not None and '*' in tab:
        return tab['*']
    return None


def run(ctx):
    pp = pyfe.load(ctx.repo)
    base = pp.cls('sfepy.terms.terms_multilinear.ETermBase')
    if base is None:
        raise AnalysisBroken('no ETermBase')
    for c in sorted(pp.subclasses(base, strict=True), key=lambda c: c.name):
        if 'name' not in c.attrs:
            continue
        nm = pyfe.const_str(c.attrs['name'])
        gf = c.find('get_function')
        if nm is None or gf is None:
            continue
        ctx.count('terms')
        check_term(ctx, pp, c, nm, gf)
    check_builder(ctx, pp)
    check_tables(ctx, pp)
    ctx.floor('terms', 25)
    ctx.floor('compared_integrands', 100)


def check_term(ctx, pp, c, nm, gf):
    for conf in configurations(c):
        got = arguments(conf)
        if got is None:
            ctx.count('undeclared_configurations')
            continue
        vals, mat, nc = got
        ctx.count('configurations')
        it = Interp(pp, c, conf)
        where = gf.where()
        desc = 'row %s, material %s%s, %dD' % (
            '/'.join(conf['row']), mat if mat != '' else '-',
            ', term mode %s' % conf['term_mode'] if conf['term_mode']
            else '', conf['D'])
        try:
            it.inline(gf, vals, {'mode': conf['eval_mode'], 'diff_var': UNK,
                                 'term_mode': conf['term_mode']}, SelfObj())
        except Mismatch as exc:
            ctx.violation('einsum.arrays:%s:%s' % (nm, mat),
                          'term %s (%s): %s' % (nm, desc, exc), where)
            continue
        except Undecided:
            ctx.count('undecided')
            continue
        for node, f, expr, ops, star in it.calls:
            if not isinstance(expr, str) or star:
                ctx.count('undecided')
                continue
            w = f.where(node)
            try:
                arrs, groups = operands(expr, ops, conf)
                res = T.contract(arrs, groups)
                have = T.canon(res)
            except Undecided:
                ctx.count('undecided')
                continue
            except Mismatch as exc:
                ctx.violation('einsum.expression:%s:%s:%s' % (nm, mat, conf[
                    'term_mode']), 'term %s (%s), expression %r: %s'
                    % (nm, desc, expr, exc), w)
                continue
            spec = find_spec(nm, mat if mat != '' else '-',
                             conf['term_mode'])
            if spec is None:
                ctx.count('integrands_without_definition')
                continue
            ctx.count('compared_integrands')
            want = spec_form(spec, nc, conf['D'])
            ctx.sample('%s (%s): %s' % (nm, desc, T.show(have)))
            if have != want:
                ctx.violation('einsum.integrand:%s:%s:%s' % (nm, mat, conf[
                    'term_mode']), 'term %s (%s): the expression %r computes'
                    ' %s, the definition is %s' % (nm, desc, expr,
                                                   T.show(have),
                                                   T.show(want)), w)


# ------------------------------------------------------- expression builder
BIG = {'c': 101, 'q': 103}
NODES = {'v': 107, 'u': 109, 'w': 113}


class BuilderInterp(Interp):
    """ExpressionBuilder.build() with given indexed operands."""
    def __init__(self, pp, cls, conf, eins, mods):
        Interp.__init__(self, pp, cls, conf)
        self.eins = eins
        self.mods = mods

    def known(self, name, pos, kw):
        if name == 'parse_term_expression':
            return (list(self.eins), list(self.mods))
        if name == 'output':
            return None
        return Interp.known(self, name, pos, kw)


def operand_array(name, kinds, conf, grp):
    """The array of an operand, by the name given by the builder."""
    D = conf['D']
    an, val = name.split('.')
    k = kinds.get(an)
    n = NODES.get(an)
    if val == 'det':
        return Arr.named('det', [101, 103])
    if val == 'ivol':
        return Arr.named('ivol', [101])
    if k is None:
        return None
    if k[0] == 'ndarray':
        return Arr.named('M' + an, [101, 103] + [D if ch in 'ijkl' else
                                                 D * (D + 1) // 2 if conf[
                                                     'mod'] == 's' else D * D
                                                 for ch in k[2]
                                                 if not ch.isdigit()]) \
            if val == 'arg' else None
    nc = k[1]
    if val == 'bfg':
        return Arr.named('bfg' + an, [101, 103, D, n])
    if val == 'bf':
        return Arr.named('bf' + an, [101, 103, n] if conf['facet_extra']
                         else [103, n])
    if val == 'dofs':
        return Arr.named('dofs' + an, [101, nc, n] if nc > 1 else [101, n])
    if val == 'I':
        return T.eye(nc, D)
    if val == 'Psg':
        a, b, s = T.new(D), T.new(D), T.new(D * (D + 1) // 2)
        return Arr([(a,), (b,), (s,)], [(Fraction(1), (('Psg', (
            ('s', a, b), (s,))),))])
    if val == 'Pvg':
        a, b, x, y = [T.new(D) for _ in range(4)]
        return Arr([(a,), (b,), (x, y)], [(Fraction(1), (
            ('I', ((a,), (x,))), ('I', ((b,), (y,)))))])
    return None


def reference(case, ia, conf):
    """The normal form the built expression has to have."""
    D = conf['D']
    args, mode, diff = case['args'], case['mode'], case['diff']
    ops, groups = [], []
    virt = [a for a in args if a[0] == 'virtual']
    if mode != 'qp':
        ops.append(Arr.named('det', [101, 103]))
        groups.append('cq')
        if mode == 'el_avg' and not virt:
            ops.append(Arr.named('ivol', [101]))
            groups.append('c')
    out = 'c' if mode != 'qp' else 'cq'
    vout = sout = ''
    fresh = iter('ABCDEFGHLMNOPQRSTUVWXYZ'.replace('I', '').replace('K', ''))
    count = 0
    letters = ''.join(x[3] for x in args)
    for kind, an, nc, ein, mod in args:
        if kind == 'ndarray':
            sizes = [D if ch in 'ijkl' else D * (D + 1) // 2
                     if mod_of(case) == 's' else D * D
                     for ch in ein if not ch.isdigit()]
            ops.append(Arr.named('M' + an, [101, 103] + sizes))
            groups.append('cq' + ''.join(ch for ch in ein
                                         if not ch.isdigit()))
            continue
        n = NODES[an]
        nl, cl = next(fresh), next(fresh)
        der = '.' in ein or ':' in ein
        if der:
            ops.append(Arr.named('bfg' + an, [101, 103, D, n]))
            groups.append('cq' + ein[2] + nl)
        elif conf['facet_extra']:
            ops.append(Arr.named('bf' + an, [101, 103, n]))
            groups.append('cq' + nl)
        else:
            ops.append(Arr.named('bf' + an, [103, n]))
            groups.append('q' + nl)
        # component of the operand = component of the degrees of freedom
        if mod == 's':
            a, b, s = T.new(D), T.new(D), T.new(D * (D + 1) // 2)
            ops.append(Arr([(a,), (b,), (s,)], [(Fraction(1), (('Psg', (
                ('s', a, b), (s,))),))]))
            groups.append(cl + ein[2] + ein[0])
        elif mod == 'v':
            a, b, x, y = [T.new(D) for _ in range(4)]
            ops.append(Arr([(a,), (b,), (x, y)], [(Fraction(1), (
                ('I', ((a,), (x,))), ('I', ((b,), (y,)))))]))
            groups.append(cl + ein[2] + ein[0])
        elif nc > 1:
            ops.append(T.eye(nc, D))
            groups.append(cl + ein[0])
        wrt = False
        if kind == 'state' and diff == an:
            wrt = count == ia
            count += 1
        if kind == 'virtual' or wrt:
            o = (cl if nc > 1 else '') + nl
            if kind == 'virtual':
                vout += o
            else:
                sout += o
        else:
            ops.append(Arr.named('dofs' + an, [101, nc, n] if nc > 1
                                 else [101, n]))
            groups.append('c' + (cl if nc > 1 else '') + nl)
    used = ''.join(groups)
    free = sorted(ch for ch in set(letters)
                  if ch.isalpha() and used.count(ch) == 1)
    return T.canon(contract_to(ops, groups, out + vout + sout
                               + ''.join(free)))


def mod_of(case):
    for a in case['args']:
        if a[4]:
            return a[4]
    return None


def builder_cases():
    V = 'virtual'
    S = 'state'
    M = 'ndarray'

    def mods(a, b, m):
        sep = ':' if m == 's' else '.'
        return 'I' + sep + a, 'K' + sep + b

    for D in (2, 3):
        s1, s2 = 'I:j', 'K:l'
        v1, v2 = 'I.j', 'K.l'
        lists = [
            [(V, 'v', 1, '0', None), (S, 'u', 1, '0', None)],
            [(V, 'v', 1, '0.j', None), (S, 'u', 1, '0.j', None)],
            [(M, 'm', 0, '00', None), (V, 'v', 1, '0', None)],
            [(M, 'm', 0, 'ij', None), (V, 'v', D, 'i', None),
             (S, 'u', D, 'j', None)],
            [(M, 'm', 0, '00', None), (V, 'v', D, 'i.j', None),
             (S, 'u', D, 'i.j', None)],
            [(M, 'm', 0, 'i0', None), (S, 'u', 1, '0', None),
             (V, 'v', 1, '0.i', None)],
            [(S, 'u', D, 'i.i', None), (V, 'v', 1, '0', None)],
            [(M, 'm', 0, 'IK', None), (V, 'v', D, s1, 's'),
             (S, 'u', D, s2, 's')],
            [(M, 'm', 0, 'IK', None), (V, 'v', D, v1, 'v'),
             (S, 'u', D, v2, 'v')],
            [(V, 'v', D, 'i', None), (S, 'u', D, 'i.j', None),
             (S, 'u', D, 'j', None)],
            [(V, 'v', D, 'i', None), (S, 'u', D, 'i.j', None),
             (S, 'w', D, 'j', None)],
        ]
        for args in lists:
            for diff in (None, 'u'):
                for fx in (False, True):
                    yield {'args': args, 'mode': 'weak', 'diff': diff,
                           'facet_extra': fx, 'D': D}
        evals = [
            [(M, 'm', 0, 'IK', None), (S, 'u', D, s2, 's')],
            [(M, 'm', 0, 'IK', None), (S, 'u', D, v2, 'v')],
            [(S, 'u', D, 'i.j', None)],
            [(M, 'm', 0, '00', None), (S, 'u', 1, '0', None)],
            [(M, 'm', 0, 'ij', None), (S, 'u', D, 'i', None),
             (S, 'w', D, 'j', None)],
        ]
        for args in evals:
            for mode in ('eval', 'el_avg', 'qp'):
                for fx in (False, True):
                    yield {'args': args, 'mode': mode, 'diff': None,
                           'facet_extra': fx, 'D': D}


def check_builder(ctx, pp):
    bc = pp.cls('sfepy.terms.terms_multilinear.ExpressionBuilder')
    build = bc.find('build') if bc is not None else None
    if build is None:
        raise AnalysisBroken('no ExpressionBuilder.build()')
    for case in builder_cases():
        D = case['D']
        conf = {'D': D, 'N': D, 'self_mode': None, 'mod': mod_of(case),
                'facet_extra': case['facet_extra']}
        n_add = max(1, sum(1 for a in case['args']
                           if a[0] == 'state' and a[1] == case['diff'])) \
            if case['diff'] is not None else 1
        if case['diff'] is not None and not any(
                a[0] == 'state' and a[1] == case['diff']
                for a in case['args']):
            continue
        args, kinds = [], {}
        for kind, an, nc, ein, mod in case['args']:
            term = Obj(integration='facet_extra' if case['facet_extra']
                       else 'cell')
            args.append(Obj(name=an, kind=kind, n_components=nc, dim=D,
                            term=term))
            kinds[an] = (kind, nc, ein)
        eins = [a[3] for a in case['args']]
        mods = [[[a[4], a[3], a[3][0]]] if a[4] else None
                for a in case['args']]
        it = BuilderInterp(pp, bc, conf, eins, mods)
        aux = bc.attrs.get('_aux_letters')
        lets = pyfe.const_str(aux) if aux is not None else None
        b = Obj(cls=bc, n_add=n_add, subscripts=[[] for _ in range(n_add)],
                operand_names=[[] for _ in range(n_add)],
                components=[[] for _ in range(n_add)],
                out_subscripts=['c'] * n_add, ia=0,
                aux_letters=Letters(lets or 'rstuvwxyz'))
        desc = '%s, mode %s%s%s' % (
            ', '.join('%s %s' % (a[0], a[3]) for a in case['args']),
            case['mode'], ', derivative' if case['diff'] else '',
            ', facets' if case['facet_extra'] else '')
        env_outs = None
        try:
            it.depth = 0
            it.inline(build, ['<expression>'] + args,
                      {'mode': case['mode'], 'diff_var': case['diff']}, b)
        except (Undecided, Mismatch, IndexError, RecursionError):
            ctx.count('builder_undecided')
            continue
        bad = None
        try:
            for ia in range(n_add):
                subs = b.attrs['subscripts'][ia]
                names = b.attrs['operand_names'][ia]
                comps = b.attrs['components'][ia]
                out = b.attrs['out_subscripts'][ia]
                if any(not isinstance(x, str) for x in subs + names) \
                   or not isinstance(out, str):
                    raise Undecided('strings')
                if not len(subs) == len(names) == len(comps):
                    bad = ('%d subscripts, %d operands and %d component'
                           ' selections' % (len(subs), len(names),
                                            len(comps)))
                    break
                ops = []
                for nm, g, co in zip(names, subs, comps):
                    o = operand_array(nm, kinds, conf, g)
                    if o is None:
                        raise Undecided('operand ' + nm)
                    k = kinds.get(nm.split('.')[0])
                    want = [int(ch) if ch.isdigit() else None
                            for ch in k[2]] if nm.endswith('.arg') else []
                    if list(co) != want:
                        bad = 'components %s of operand %s, not %s' \
                            % (co, nm, want)
                    ops.append(o)
                if bad:
                    break
                have = T.canon(contract_to(ops, subs, out))
                want = reference(case, ia, conf)
                ctx.count('built_expressions')
                if have != want:
                    bad = 'contracts %s -> %s of %s' % (','.join(subs), out,
                                                      ', '.join(names))
                    break
        except Undecided:
            ctx.count('builder_undecided')
            continue
        except Mismatch as exc:
            bad = '%s of %s: %s' % (','.join(subs), ', '.join(names), exc)
        if bad:
            ctx.violation('einsum.builder:%s' % desc,
                          'expression of (%s) in %dD: %s' % (desc, D, bad),
                          build.where())
    ctx.floor('built_expressions', 40)


# ------------------------------------------------------------------- tables
def check_tables(ctx, pp):
    m = pp.modules.get('sfepy.terms.terms_multilinear')
    # symmetric -> nonsymmetric components
    for mod in pp.modules.values():
        for f in mod.funcs:
            if f.name == 'sym2nonsym':
                tab_check(ctx, f)
            elif f.name in ('make_psg', 'make_pvg'):
                proj_check(ctx, f)
            elif f.name == 'make_grad2strain':
                g2s_check(ctx, f)
            elif f.name == 'get_nonsym_grad_op':
                op_check(ctx, f)
    for mod in pp.modules.values():
        for f in mod.funcs:
            if f.name == 'apply_layout':
                layout_check(ctx, f)
            elif f.name == 'get_einsum_ops':
                source_check(ctx, pp, f)
    ctx.floor('tables', 6)


def int_list(n):
    if isinstance(n, ast.Call) and n.args:
        n = n.args[0]
    try:
        v = ast.literal_eval(n)
    except Exception:
        return None
    return v if isinstance(v, (list, tuple)) else None


def tab_check(ctx, f):
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Dict):
            continue
        for k, v in zip(n.keys, n.values):
            v = int_list(v)
            if not isinstance(k, ast.Constant) or v is None:
                continue
            ctx.count('tables')
            d = {3: 2, 6: 3}.get(k.value)
            if d is None or list(v) != SYM[d]:
                ctx.violation('einsum.table:%s:%s' % (f.qual, k.value),
                              '%s: components %s for symmetric storage of'
                              ' size %s, %s is the documented order'
                              % (f.qual, v, k.value, SYM.get(d)), f.where(n))


def branches(fn):
    """(dimension, statements) of `if dim == N` chains."""
    for n in ast.walk(fn.node):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) \
           and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Eq) \
           and isinstance(n.test.left, ast.Name) \
           and isinstance(n.test.comparators[0], ast.Constant) \
           and n.test.comparators[0].value in (1, 2, 3):
            yield n.test.comparators[0].value, n.body


def const_index(n):
    try:
        return ast.literal_eval(n)
    except Exception:
        return None


def proj_check(ctx, f):
    psg = f.name == 'make_psg'
    for d, body in branches(f):
        ones, ok = set(), True
        for s in body:
            if not (isinstance(s, ast.Assign)
                    and isinstance(s.targets[0], ast.Subscript)
                    and isinstance(s.value, ast.Constant)
                    and s.value.value == 1):
                ok = False
                continue
            ix = const_index(s.targets[0].slice)
            if not isinstance(ix, tuple) or len(ix) != 3:
                ok = False
                continue
            ls = [x if isinstance(x, (list, tuple)) else None for x in ix]
            n = max([len(x) for x in ls if x is not None] + [1])
            for k in range(n):
                ones.add(tuple(x[k] if isinstance(x, (list, tuple)) else x
                               for x in ix))
        if not ok or not ones:
            ctx.count('tables_undecided')
            continue
        ctx.count('tables')
        want = set()
        for i in range(d):
            for j in range(d):
                want.add((i, j, SYM[d][i * d + j] if psg else i * d + j))
        if ones != want:
            ctx.violation('einsum.table:%s:%d' % (f.qual, d),
                          '%s in %dD: gradient components are put to %s, the'
                          ' documented order of components requires %s'
                          % (f.qual, d, sorted(ones - want),
                             sorted(want - ones)), f.where(body[0]))


def g2s_check(ctx, f):
    for d, body in branches(f):
        for s in body:
            if not isinstance(s, ast.Assign):
                continue
            v = int_list(s.value)
            if v is None or not v or not isinstance(v[0], (list, tuple)):
                continue
            ctx.count('tables')
            n = d * (d + 1) // 2
            tab = SYM.get(d, [0])
            want = [[1 if tab[c] == r else 0 for c in range(d * d)]
                    for r in range(n)]
            if [list(r) for r in v] != want:
                ctx.violation('einsum.table:%s:%d' % (f.qual, d),
                              '%s in %dD does not map gradient components to'
                              ' the strain in the documented order'
                              % (f.qual, d), f.where(s))


def op_check(ctx, f):
    for d, body in branches(f):
        blocks, ok = [], True
        for s in body:
            if not (isinstance(s, ast.Assign)
                    and isinstance(s.targets[0], ast.Subscript)
                    and isinstance(s.targets[0].slice, ast.Tuple)
                    and isinstance(s.value, ast.Name)
                    and s.value.id in f.params):
                ok = False
                continue
            sl = [x for x in s.targets[0].slice.elts
                  if isinstance(x, ast.Slice)]
            try:
                blocks.append(tuple((ast.literal_eval(x.lower),
                                     ast.literal_eval(x.upper))
                                    for x in sl[-2:]))
            except Exception:
                ok = False
        if not ok or not blocks:
            ctx.count('tables_undecided')
            continue
        ctx.count('tables')
        want = {((k * d, k * d + d), (k * d, k * d + d)) for k in range(d)}
        if set(blocks) != want:
            ctx.violation('einsum.table:%s:%d' % (f.qual, d),
                          '%s in %dD: blocks %s, the gradient operator has'
                          ' blocks %s' % (f.qual, d, blocks, sorted(want)),
                          f.where(body[0]))


LAYOUT = {'det': 'cq', 'bf': ('qd', 'cqd'), 'bfg': 'cqgd',
          'dofs': ('cd', 'cvd'), 'mat': 'cq'}


def layout_check(ctx, f):
    """Default order of axes of the operands."""
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Dict):
            continue
        try:
            d = ast.literal_eval(n)
        except Exception:
            continue
        if 'bfg' not in d:
            continue
        for k, v in d.items():
            if k not in LAYOUT:
                continue
            ctx.count('tables')
            if v != LAYOUT[k]:
                ctx.violation('einsum.layout:%s' % k, 'default layout %r of'
                              ' operand %s, its axes are %r'
                              % (v, k, LAYOUT[k]), f.where(n))


SOURCES = {'dofs': 'get_dofs', 'bf': 'get_bf', 'bfg': 'bfg', 'det': 'det',
           'ivol': 'volume', 'I': 'make_eye', 'Psg': 'make_psg',
           'Pvg': 'make_pvg'}


def source_check(ctx, pp, f):
    """Operands are taken from what they are named for."""
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.If) and isinstance(n.test, ast.Compare)
                and len(n.test.ops) == 1
                and isinstance(n.test.ops[0], ast.Eq)):
            continue
        c = pyfe.const_str(n.test.comparators[0])
        if c not in SOURCES:
            continue
        used = set()

        def collect(body, depth=0):
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute):
                        used.add(x.attr)
                    elif isinstance(x, ast.Name):
                        used.add(x.id)
                        t = pp.resolve_name(f.module, x.id)
                        if isinstance(t, pyfe.Func) and depth < 2:
                            collect(t.node.body, depth + 1)
        collect(n.body)
        ctx.count('operand_sources')
        others = (set(SOURCES.values()) - {SOURCES[c]}) & used
        if SOURCES[c] not in used and others:
            ctx.violation('einsum.source:%s' % c, 'operand %r is taken from'
                          ' %s, not %s' % (c, sorted(others), SOURCES[c]),
                          f.where(n))
