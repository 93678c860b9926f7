"""M01: closed formulas of materials, units, tensors and geometry."""
import itertools

import numpy as np
import sympy as sp

from ..core import AnalysisBroken
from ..formal import (Forms, Class, Function, Obj, Undecided, arr, same,
                      same_arrays, sqrt)

EXPLANATION = (
    'The functions are straight-line formulas: their results are derived from'
    ' the syntax trees as exact algebraic expressions of the parameters'
    ' (rational functions, with square roots of perfect squares resolved for'
    ' positive moduli) and compared with the definitions: the six elastic'
    ' constants in terms of the Lame parameters, stiffness tensors by'
    ' components, the stress condensation as a Schur complement, physical'
    ' dimensions of units, symmetric storage of tensors, rotations, volumes,'
    ' areas and circumcentres.')
RULE = 'one obligation per formula and component'
ASSUMPTIONS = [
    'elastic constants are positive; the Poisson ratio is not negative where'
    ' two materials have the same given constants',
    'code with data dependent branches has no closed form and is not judged']

MAT = 'sfepy/mechanics/matcoefs.py'
ELC = 'sfepy/mechanics/elastic_constants.py'
UNI = 'sfepy/mechanics/units.py'
TEN = 'sfepy/mechanics/tensors.py'
MEM = 'sfepy/mechanics/membranes.py'
GEO = 'sfepy/linalg/geometry.py'
SHE = 'sfepy/mechanics/shell10x.py'

L, G = sp.symbols('L G', positive=True)
E = G * (3*L + 2*G) / (L + G)
NU = L / (2*(L + G))
K = L + sp.Rational(2, 3)*G
M = L + 2*G
CONST = {'lam': L, 'mu': G, 'young': E, 'poisson': NU, 'bulk': K, 'p_wave': M}

# Symmetric storage.
SYM = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
       3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}


def syms(name, *shape):
    out = np.empty(shape, dtype=object)
    for i in itertools.product(*[range(n) for n in shape]):
        out[i] = sp.Symbol(name + '_' + '_'.join(map(str, i)), positive=True)
    return out


def symmetric(name, n):
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            out[i, j] = out[j, i] = sp.Symbol('%s_%d_%d' % (name, j, i),
                                              positive=True)
    return out


class Check:
    def __init__(self, ctx):
        self.ctx = ctx

    def fresh(self):
        return Forms(self.ctx.repo)

    def fact(self, key, where, make, expected, message):
        """make(forms) gives the value that should be `expected`."""
        f = self.fresh()
        try:
            got = make(f)
            exp = expected() if callable(expected) else expected
            if isinstance(exp, (tuple, list)) and not isinstance(
                    exp, np.ndarray):
                if not isinstance(got, (tuple, list)) \
                   or len(got) != len(exp):
                    raise Undecided('results')
                rs = [same_arrays(x, y) if np.ndim(x) or np.ndim(y)
                      else same(x, y) for x, y in zip(got, exp)]
                r = False if False in rs else None if None in rs else True
            else:
                r = same_arrays(got, exp)
        except Undecided as e:
            self.ctx.count('undecided')
            self.ctx.note('%s: no closed form (%s)' % (key, e))
            return
        except (RecursionError, TypeError, ValueError, AttributeError,
                KeyError, IndexError) as e:
            self.ctx.count('undecided')
            self.ctx.note('%s: no closed form (%s)' % (key, e))
            return
        if r is None:
            self.ctx.count('undecided')
            self.ctx.note('%s: equality not decided' % key)
            return
        self.ctx.count('formulas')
        if not r:
            self.ctx.violation(key, message, where)


def line(f, rel, name):
    try:
        o = f.module(rel).defs[name]
        return '%s:%d (%s)' % (rel, getattr(o, 'lineno', 0), name)
    except (KeyError, Undecided):
        return '%s (%s)' % (rel, name)


def check_relations(c):
    f = c.fresh()
    mod = f.module(ELC)
    where = line(f, ELC, 'relations')
    order = None
    try:
        order = mod.get('names')
    except Undecided:
        pass
    # The module variables are symbols of their names.
    import ast
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) \
           and getattr(s.value.func, 'attr', '') == 'symbols' \
           and isinstance(s.targets[0], ast.Tuple) \
           and isinstance(order, list):
            got = [getattr(e, 'id', None) for e in s.targets[0].elts]
            c.ctx.count('formulas')
            if got != order:
                c.ctx.violation('relations:symbols', 'the variables %s are'
                                ' symbols of other names' % got, where)
    for name, v in CONST.items():
        mod.vals[name] = v
    try:
        rel = mod.get('relations')
    except (Undecided, TypeError) as e:
        c.ctx.count('undecided')
        c.ctx.note('relations: %s' % e)
        return
    if not isinstance(rel, dict):
        c.ctx.count('undecided')
        return
    for a, b in itertools.combinations(sorted(CONST), 2):
        for u in CONST:
            if u in (a, b):
                continue
            c.ctx.count('formulas')
            key = (a, b, u)
            if key not in rel:
                c.ctx.violation('relations:%s,%s,%s' % key,
                                'no formula for this group of constants',
                                where)
                continue
            r = same(rel[key], CONST[u])
            if r is None:
                c.ctx.count('undecided')
            elif not r:
                c.ctx.violation('relations:%s,%s,%s' % key, 'the formula for'
                                ' %s from %s, %s does not hold' % (u, a, b),
                                where)


def isotropic(dim, lam, mu):
    idx = SYM[dim]
    d = lambda i, j: int(i == j)
    return arr([[lam*d(i, j)*d(k, l) + mu*(d(i, k)*d(j, l) + d(i, l)*d(j, k))
                 for k, l in idx] for i, j in idx])


def check_materials(c):
    f0 = c.fresh()
    pl = 2*L*G / (L + 2*G)

    def fact(name, tag, args, expected, msg, **kw):
        c.fact('%s:%s' % (name, tag), line(f0, MAT, name),
               lambda f: f.function(MAT, name)(*args, **kw), expected,
               '%s: %s' % (name, msg))

    for plane, lam in (('strain', L), ('stress', pl)):
        fact('lame_from_youngpoisson', plane, (E, NU), (lam, G),
             'not the Lame parameters of the material', plane=plane)
        for dim in (2, 3):
            fact('stiffness_from_youngpoisson', '%s%d' % (plane, dim),
                 (dim, E, NU), isotropic(dim, lam, G),
                 'not the isotropic stiffness', plane=plane)
            fact('stiffness_from_youngpoisson_mixed', '%s%d' % (plane, dim),
                 (dim, E, NU), isotropic(dim, -sp.Rational(2, 3)*G, G),
                 'not the deviatoric stiffness', plane=plane)
            fact('lame_from_stiffness', '%s%d' % (plane, dim),
                 (isotropic(dim, lam, G),), (L, G),
                 'not the parameters that give the stiffness', plane=plane)
            fact('youngpoisson_from_stiffness', '%s%d' % (plane, dim),
                 (isotropic(dim, lam, G),), (E, NU),
                 'not the parameters that give the stiffness', plane=plane)
        fact('bulk_from_youngpoisson', plane, (E, NU),
             lam + sp.Rational(2, 3)*G, 'not the bulk modulus', plane=plane)
    for dim in (1, 2, 3):
        fact('stiffness_from_lame', str(dim), (dim, L, G),
             isotropic(dim, L, G), 'not the isotropic stiffness')
        fact('stiffness_from_lame_mixed', str(dim), (dim, L, G),
             isotropic(dim, -sp.Rational(2, 3)*G, G),
             'not the deviatoric stiffness')
    fact('bulk_from_lame', '', (L, G), K, 'not the bulk modulus')

    lams, mus = arr(sp.symbols('l1 l2', positive=True)), \
        arr(sp.symbols('m1 m2', positive=True))
    fact('stiffness_from_lame', 'array', (3, lams, mus),
         lambda: arr([isotropic(3, a, b) for a, b in zip(lams, mus)]),
         'not the isotropic stiffness of each item')

    y, p, s = syms('E', 3), syms('nu', 3), syms('G', 3)
    comp = np.zeros((6, 6), dtype=object)
    for i in range(3):
        comp[i, i] = 1/y[i]
        comp[i + 3, i + 3] = 1/s[i]
    for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
        comp[i, j] = comp[j, i] = -p[k]/y[i]

    def ortho(f):
        d = f.function(MAT, 'stiffness_from_yps_ortho3')(y, p, s)
        if np.shape(d) != (6, 6):
            raise Undecided('shape')
        return np.dot(d, comp)
    c.fact('stiffness_from_yps_ortho3:', line(f0, MAT,
                                              'stiffness_from_yps_ortho3'),
           ortho, arr(np.eye(6, dtype=int)),
           'stiffness_from_yps_ortho3: not the inverse of the compliance')

    r = sp.Symbol('rho', positive=True)
    fact('youngpoisson_from_wave_speeds', '', (sqrt(M/r), sqrt(G/r), r),
         (E, NU), 'not the parameters of the material')
    c.fact('wave_speeds_from_youngpoisson:',
           line(f0, MAT, 'wave_speeds_from_youngpoisson'),
           lambda f: [v**2 for v in f.function(
               MAT, 'wave_speeds_from_youngpoisson')(E, NU, r)],
           [M/r, G/r],
           'wave_speeds_from_youngpoisson: not the wave speeds')


def check_plane(c):
    f0 = c.fresh()
    where = line(f0, MAT, 'TransformToPlane')
    c3 = symmetric('c', 6)
    for plane in ((0, 1), (0, 2), (1, 2)):
        m = [k for k, ij in enumerate(SYM[3])
             if ij[0] in plane and ij[1] in plane]
        s = [k for k in range(6) if k not in m]
        tag = '%d%d' % plane

        def made(f):
            return f.call(f.cls(MAT, 'TransformToPlane'), [list(plane)], {})

        c.fact('TransformToPlane:indices:' + tag, where,
               lambda f: [np.asarray(f.attr(made(f), a), dtype=object)
                          for a in ('i_m', 'i_s', 'i_ms', 'i_ss')],
               [arr(list(plane)),
                arr([k for k in range(3) if k not in plane]), arr(m),
                arr(s)], 'wrong components of the plane %s' % (plane,))

        # A material with one coupling of each kind of components.
        cc = np.zeros((6, 6), dtype=object)
        for i in range(6):
            cc[i, i] = c3[i, i]
        for i, j in itertools.combinations(range(3), 2):
            cc[i, j] = cc[j, i] = c3[i, j]
        cc[m[2], s[1]] = cc[s[1], m[2]] = c3[m[2], s[1]]

        def schur():
            ss = sp.Matrix(cc[np.ix_(s, s)].tolist())
            ms = sp.Matrix(cc[np.ix_(m, s)].tolist())
            mm = sp.Matrix(cc[np.ix_(m, m)].tolist())
            return arr((mm - ms * ss.inv(method='ADJ') * ms.T).tolist())
        c.fact('TransformToPlane:elastic:' + tag, where,
               lambda f: f.call(f.attr(made(f), 'tensor_plane_stress'),
                                [cc], {}), schur,
               'plane stress stiffness is not the stiffness with zero stress'
               ' out of the plane %s' % (plane,))

        iv = [k for k in range(3) if k not in plane]
        d3 = symmetric('d', 3)
        b3 = np.zeros((3, 6), dtype=object)
        for i in range(3):
            for k in (0, 1, 2) if i == iv[0] else (s[1], s[2]):
                b3[i, k] = sp.Symbol('b_%d_%d' % (i, k), positive=True)
        ci = np.zeros((6, 6), dtype=object)
        for i in range(6):
            ci[i, i] = c3[i, i]

        def piezo():
            # sigma = c e + b^T q, D = b e - d q; sigma_s = 0, D_s = 0.
            big = np.zeros((9, 9), dtype=object)
            big[:6, :6] = ci
            big[6:, :6] = b3
            big[:6, 6:] = b3.T
            big[6:, 6:] = -d3
            km = list(m) + [6 + k for k in plane]
            ks = list(s) + [6 + k for k in iv]
            mm = sp.Matrix(big[np.ix_(km, km)].tolist())
            ms = sp.Matrix(big[np.ix_(km, ks)].tolist())
            ss = sp.Matrix(big[np.ix_(ks, ks)].tolist())
            r = mm - ms * ss.inv(method='ADJ') * ms.T
            r = arr(r.tolist())
            return [r[:3, :3], -r[3:, 3:], r[3:, :3]]
        c.fact('TransformToPlane:piezo:' + tag, where,
               lambda f: f.call(f.attr(made(f), 'tensor_plane_stress'), [],
                                {'c3': ci, 'd3': d3, 'b3': b3}), piezo,
               'piezoelectric coefficients of the plane %s are not those with'
               ' zero stress and charge flux out of the plane' % (plane,))


DIMS = {
    'one': (0, 0, 0), 'time': (1, 0, 0), 'length': (0, 1, 0),
    'mass': (0, 0, 1), 'frequency': (-1, 0, 0), 'wave_number': (0, -1, 0),
    'velocity': (-1, 1, 0), 'acceleration': (-2, 1, 0),
    'density': (0, -3, 1), 'force': (-2, 1, 1), 'stress': (-2, -1, 1),
    'dyn_viscosity': (-1, -1, 1), 'compressibility': (2, 1, -1),
    'energy': (-2, 2, 1),
}
BASIC = {'m': (0, 1, 0), 's': (1, 0, 0), 'kg': (0, 0, 1), 'C': (0, 0, 0)}
QUANTITIES = {'density': (0, -3, 1), 'force': (-2, 1, 1),
              'stress': (-2, -1, 1), 'energy': (-2, 2, 1),
              'thermal_expandability': (-2, -1, 1)}
PREFIX = {'p': -12, 'n': -9, 'mu': -6, 'm': -3, 'c': -2, '': 0, 'd': 1,
          'k': 3, 'M': 6, 'G': 9, 'T': 12}


def check_units(c):
    f0 = c.fresh()
    a, b, m = sp.symbols('a b c', positive=True)
    x = sp.Symbol('x', positive=True)
    name = 'apply_unit_multipliers'
    for kind, (t, l, w) in DIMS.items():
        def val(f):
            out = f.function(UNI, name)([x], [kind], (a, b, m))
            if not isinstance(out, list) or len(out) != 1:
                raise Undecided('result')
            return out[0]
        c.fact('%s:%s' % (name, kind), line(f0, UNI, name), val,
               x / (a**t * b**l * m**w),
               '%s is not divided by its unit' % kind)
    base = {'m': b, 's': a, 'kg': m, 'C': sp.Symbol('theta', positive=True)}
    f = c.fresh()
    try:
        derived = f.module(UNI).get('derived_units')
        quant = f.module(UNI).get('units_of_quantities')
        pre = f.module(UNI).get('prefixes')
    except Undecided as e:
        c.ctx.note('units: %s' % e)
        c.ctx.count('undecided')
        return

    def unit(text, depth=0):
        import ast

        def ev(n):
            if isinstance(n, ast.BinOp):
                p, q = ev(n.left), ev(n.right)
                if isinstance(n.op, ast.Mult):
                    return p * q
                if isinstance(n.op, ast.Div):
                    return p / q
                if isinstance(n.op, ast.Pow):
                    return p**q
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                return -ev(n.operand)
            if isinstance(n, ast.Constant):
                return sp.sympify(n.value)
            if isinstance(n, ast.Name):
                if n.id in base:
                    return base[n.id]
                if n.id in derived and depth < 3:
                    return unit(derived[n.id], depth + 1)
            raise Undecided('unit')
        return ev(ast.parse(text, mode='eval').body)

    theta = base['C']
    for q, (t, l, w) in QUANTITIES.items():
        if not isinstance(quant, dict) or q not in quant:
            continue
        e = a**t * b**l * m**w
        if q == 'thermal_expandability':
            e = e / theta
        c.fact('units_of_quantities:' + q, line(f0, UNI,
                                                'units_of_quantities'),
               lambda f: unit(quant[q]), e, 'wrong unit of ' + q)
    si = {'Newton': (-2, 1, 1), 'Pa': (-2, -1, 1), 'J': (-2, 2, 1)}
    for u, (t, l, w) in si.items():
        if isinstance(derived, dict) and u in derived:
            c.fact('derived_units:' + u, line(f0, UNI, 'derived_units'),
                   lambda f: unit(derived[u]), a**t * b**l * m**w,
                   'wrong definition of the unit ' + u)
    if isinstance(pre, dict):
        for p, e in PREFIX.items():
            if p in pre:
                c.fact('prefixes:' + p, line(f0, UNI, 'prefixes'),
                       lambda f: pre[p], sp.Integer(10)**e,
                       'wrong multiplier of the prefix ' + repr(p))


def check_tensors(c):
    f0 = c.fresh()

    def fact(name, tag, make, expected, msg, rel=TEN):
        c.fact('%s:%s' % (name, tag), line(f0, rel, name),
               make if callable(make)
               else lambda f: f.function(rel, name)(*make),
               expected, '%s: %s' % (name, msg))

    for dim in (2, 3):
        idx = SYM[dim]
        n = len(idx)
        pos = {ij: k for k, ij in enumerate(idx)}
        full = arr([[pos[tuple(sorted((i, j)))] for j in range(dim)]
                    for i in range(dim)])
        fact('get_full_indices', dim, (dim,), full,
             'not the symmetric storage order')
        fact('get_sym_indices', dim, (dim,),
             arr([i*dim + j for i, j in idx]),
             'not the symmetric storage order')

        def nondiag(f):
            i1, i2 = f.function(TEN, 'get_non_diagonal_indices')(dim)
            return arr([list(i1), list(i2)])
        off = idx[dim:]
        fact('get_non_diagonal_indices', dim, nondiag,
             arr([[i*dim + j for i, j in off], [j*dim + i for i, j in off]]),
             'not the pairs of equal components')

        s = syms('s', 1, n)
        fs = np.empty((1, dim, dim), dtype=object)
        for i in range(dim):
            for j in range(dim):
                fs[0, i, j] = s[0, full[i, j]]
        tr = sum(fs[0, i, i] for i in range(dim))
        # 1D storage of one point, with the trailing axis.
        st = s[:, :, None]
        for sym, x in ((True, s), (True, st), (False, fs)):
            tag = '%d%s%d' % (dim, 'sym' if sym else 'full', x.ndim)
            fact('get_trace', tag,
                 lambda f: np.ravel(f.function(TEN, 'get_trace')(
                     x, sym_storage=sym)), arr([tr]), 'not the trace')
            if x is st:
                continue
            vol = np.zeros_like(x)
            if sym:
                vol[0, :dim] = tr / sp.Integer(dim)
            else:
                for i in range(dim):
                    vol[0, i, i] = tr / sp.Integer(dim)
            fact('get_volumetric_tensor', tag,
                 lambda f: f.function(TEN, 'get_volumetric_tensor')(
                     x, sym_storage=sym), vol, 'not the volumetric part')
            fact('get_deviator', tag,
                 lambda f: f.function(TEN, 'get_deviator')(
                     x, sym_storage=sym), x - vol, 'not the deviator')
        dev = fs[0].copy()
        if dim == 3:
            for i in range(3):
                dev[i, i] = dev[i, i] - tr / sp.Integer(3)
            vm = sp.Rational(3, 2) * np.sum(dev*dev)
        else:
            d3 = np.zeros((3, 3), dtype=object)
            d3[:2, :2] = dev
            for i in range(3):
                d3[i, i] = d3[i, i] - tr / sp.Integer(3)
            vm = sp.Rational(3, 2) * np.sum(d3*d3)
        for sym, x in ((True, s), (False, fs)):
            fact('get_von_mises_stress', '%d%s' % (dim, sym),
                 lambda f: np.ravel(f.function(
                     TEN, 'get_von_mises_stress')(x, sym_storage=sym))**2,
                 lambda: arr([sp.expand(vm)]), 'not the von Mises stress')
        t2 = syms('t', n, n)
        t4 = np.empty((dim,)*4, dtype=object)
        for i in itertools.product(range(dim), repeat=4):
            t4[i] = t2[full[i[0], i[1]], full[i[2], i[3]]]
        fact('get_t4_from_t2s', dim, (t2,), t4, 'not the full tensor')

    for dim in (1, 2, 3):
        g = syms('g', 1, dim, dim)
        exp = arr([g[0, i, j] if i == j else g[0, i, j] + g[0, j, i]
                   for i, j in SYM[dim]]).reshape((1, -1, 1))
        fact('get_cauchy_strain', dim, (g,), exp, 'not the symmetric'
             ' gradient (off-diagonal components summed)')

    # Transformations.
    mtx = syms('M', 1, 3, 3)
    v = syms('v', 1, 3)
    idx = SYM[3]
    pos = {ij: k for k, ij in enumerate(idx)}
    fact('transform_data', 'vector',
         lambda f: f.function(TEN, 'transform_data')(v, mtx=mtx),
         arr([np.dot(mtx[0], v[0])]), 'not the transformed vector')
    s = syms('s', 1, 6)
    fl = arr([[s[0, pos[tuple(sorted((i, j)))]] for j in range(3)]
              for i in range(3)])
    tt = np.dot(np.dot(mtx[0], fl), mtx[0].T)
    e2 = arr([sp.expand(tt[i, j]) for i, j in idx]).reshape((1, 6))
    for x, e in ((s, e2), (s[:, :, None], e2[:, :, None])):
        fact('transform_data', 'tensor%d' % x.ndim,
             lambda f: f.function(TEN, 'transform_data')(x, mtx=mtx), e,
             'not the transformed tensor')
    # Rows of the transformation of symmetric tensors.
    c4 = np.zeros((1, 6, 6), dtype=object)
    for i, j in ((0, 0), (0, 3), (3, 1), (4, 5), (5, 2), (2, 4)):
        c4[0, i, j] = sp.Symbol('c_%d_%d' % (i, j), positive=True)
    rot = mtx.copy()
    rot[0, 0, 2] = rot[0, 2, 1] = sp.Integer(0)

    def fourth():
        m = rot[0]
        p2 = np.empty((6, 6), dtype=object)
        for a, (i, j) in enumerate(idx):
            for b, (p, q) in enumerate(idx):
                p2[a, b] = m[i, p]*m[j, q]
                if p != q:
                    p2[a, b] = p2[a, b] + m[i, q]*m[j, p]
        out = np.dot(np.dot(p2, c4[0]), p2.T)
        return arr([[sp.expand(v) for v in r] for r in out])[None]

    def tr4(f):
        out = f.function(TEN, 'transform_data')(c4, mtx=rot)
        return arr([sp.expand(v) for v in out.ravel()]).reshape(out.shape)
    fact('transform_data', 'fourth', tr4, fourth,
         'not the transformed fourth order tensor')

    # Stress measures.
    for dim in (2, 3):
        idx = SYM[dim]
        pos = {ij: k for k, ij in enumerate(idx)}
        fg = syms('F', 1, 1, dim, dim)
        st = syms('S', 1, 1, len(idx), 1)
        fl = arr([[st[0, 0, pos[tuple(sorted((i, j)))], 0]
                   for j in range(dim)] for i in range(dim)])
        jac = sp.Matrix(fg[0, 0].tolist()).det()
        one = np.dot(fg[0, 0], fl)
        two = np.dot(one, fg[0, 0].T)

        def made(f):
            return f.call(f.cls(TEN, 'StressTransform'), [fg], {})
        c.fact('StressTransform:1pk:%d' % dim,
               line(f0, TEN, 'StressTransform'),
               lambda f: f.call(f.attr(made(f), 'get_1pk_from_2pk'), [st],
                                {}), one[None, None],
               'get_1pk_from_2pk: not F S')
        c.fact('StressTransform:cauchy:%d' % dim,
               line(f0, TEN, 'StressTransform'),
               lambda f: f.call(f.attr(made(f), 'get_cauchy_from_2pk'), [st],
                                {})[0, 0, :, 0],
               lambda: arr([two[i, j] / jac for i, j in idx]),
               'get_cauchy_from_2pk: not F S F^T / J')


def check_membranes(c):
    f0 = c.fresh()

    def fact(name, tag, make, expected, msg):
        c.fact('%s:%s' % (name, tag), line(f0, MEM, name), make, expected,
               '%s: %s' % (name, msg))
    n = 3
    u = syms('u', 1, n, 3)
    g = syms('g', 1, 1, 2, n)
    fm = np.zeros((2, 3), dtype=object)
    for a in range(2):
        for i in range(3):
            fm[a, i] = sum(g[0, 0, a, k]*u[0, k, i] for k in range(n)) \
                + int(a == i)
    cc = np.dot(fm, fm.T)
    det = cc[0, 0]*cc[1, 1] - cc[0, 1]**2
    models = {'insert_strided_axis': lambda x, axis, k: np.repeat(
        np.expand_dims(x, int(axis)), int(k), int(axis))}

    def deform(f):
        f.models.update(models)
        return f.function(MEM, 'describe_deformation')(u, g)
    fact('describe_deformation', 'C', lambda f: deform(f)[0], cc[None, None],
         'not the right Cauchy-Green tensor')
    fact('describe_deformation', 'C33', lambda f: deform(f)[1],
         arr([[1/det]]), 'not an incompressible deformation')

    def variation():
        out = np.empty((3, 3*n), dtype=object)
        for r, (a, b) in enumerate(((0, 0), (1, 1), (0, 1))):
            e = cc[a, b] / sp.Integer(2) if a == b else cc[a, b]
            for i in range(3):
                for k in range(n):
                    out[r, i*n + k] = sp.expand(sp.diff(e, u[0, k, i]))
        return out[None, None]
    fact('describe_deformation', 'B', lambda f: deform(f)[2], variation,
         'not the derivative of the Green strain')

    s = syms('s', 1, 1, 3, 1)

    def tangent():
        out = np.zeros((3*n, 3*n), dtype=object)
        for i in range(n):
            for j in range(n):
                v = s[0, 0, 0, 0]*g[0, 0, 0, i]*g[0, 0, 0, j] \
                    + s[0, 0, 1, 0]*g[0, 0, 1, i]*g[0, 0, 1, j] \
                    + s[0, 0, 2, 0]*(g[0, 0, 0, i]*g[0, 0, 1, j]
                                     + g[0, 0, 1, i]*g[0, 0, 0, j])
                for k in range(3):
                    out[k*n + i, k*n + j] = v
        return out[None, None]
    fact('get_tangent_stress_matrix', '',
         lambda f: f.function(MEM, 'get_tangent_stress_matrix')(s, g),
         tangent, 'not the initial stress matrix')

    mc = symmetric('C', 2)
    c33 = sp.Symbol('c33', positive=True)
    c3 = sp.Matrix([[mc[0, 0], mc[0, 1], 0], [mc[0, 1], mc[1, 1], 0],
                    [0, 0, c33]])
    fact('get_invariants', '',
         lambda f: [v[0, 0] for v in f.function(MEM, 'get_invariants')(
             mc[None, None], arr([[c33]]))],
         [c3.trace(), (c3.trace()**2 - (c3*c3).trace()) / 2],
         'not the invariants')
    fact('get_green_strain_sym3d', '',
         lambda f: f.function(MEM, 'get_green_strain_sym3d')(
             mc[None, None], arr([[c33]]))[0, 0, :, 0],
         arr([(c3[i, j] - int(i == j)) / sp.Integer(2) for i, j in SYM[3]]),
         'not the Green strain')

    t = syms('T', 1, 3, 3)
    v = syms('f', 1, 1, 3*n, 1)

    def vectors(f):
        x = v.copy()
        f.function(MEM, 'transform_asm_vectors')(x, t)
        return x[0, 0, :, 0]
    fact('transform_asm_vectors', '', vectors,
         arr([sum(t[0, i, k]*v[0, 0, k*n + p, 0] for k in range(3))
              for i in range(3) for p in range(n)]),
         'not the transformed vectors')
    nn = 2
    mm = syms('A', 1, 1, 3*nn, 3*nn)

    def matrices(f):
        x = mm.copy()
        f.function(MEM, 'transform_asm_matrices')(x, t)
        return x[0, 0]

    def mexp():
        out = np.empty((3*nn, 3*nn), dtype=object)
        for p in range(nn):
            for q in range(nn):
                blk = mm[0, 0][np.ix_([k*nn + p for k in range(3)],
                                      [k*nn + q for k in range(3)])]
                r = np.dot(np.dot(t[0], blk), t[0].T)
                for i in range(3):
                    for j in range(3):
                        out[i*nn + p, j*nn + q] = r[i, j]
        return out
    fact('transform_asm_matrices', '', matrices, mexp,
         'not the transformed matrices')

    x = np.zeros((1, 4, 3), dtype=object)
    a, b, d, h = sp.symbols('a b d h', positive=True)
    x[0, 1] = [a, 0, 0]
    x[0, 2] = [b + a, d, h]
    x[0, 3] = [b, d, h]

    def axes(f):
        m = f.function(MEM, 'create_transformation_matrix')(x)[0]
        gram = np.dot(m.T, m)
        inpl = np.dot(x[0], m)
        return list(gram.ravel()) + list(inpl[:, 2]) + [
            inpl[1, 1], sp.Matrix(m.tolist()).det()]
    fact('create_transformation_matrix', '', lambda f: arr(
        [sp.simplify(v) for v in axes(f)]),
        arr([1, 0, 0, 0, 1, 0, 0, 0, 1] + [0]*4 + [0, 1]),
        'not a right-handed orthonormal system of the face')


def quad_basis(q):
    """Bilinear basis of [0, 1]^2 in the points q and its gradients."""
    bf = np.empty((len(q), 1, 4), dtype=object)
    bfg = np.empty((len(q), 2, 4), dtype=object)
    for k, (x, y) in enumerate(q[:, :2]):
        bf[k, 0] = [(1 - x)*(1 - y), x*(1 - y), x*y, (1 - x)*y]
        bfg[k, 0] = [-(1 - y), 1 - y, y, -y]
        bfg[k, 1] = [-(1 - x), -x, x, 1 - x]
    return bf, bfg


def strain_of(t, e):
    """T E T^T of the strain e in the symmetric storage with shears 2e."""
    m = np.empty((3, 3), dtype=object)
    for v, (i, j) in zip(e, SYM[3]):
        m[i, j] = m[j, i] = v if i == j else v / sp.Integer(2)
    r = np.dot(np.dot(t, m), t.T)
    return arr([r[i, j] if i == j else 2*r[i, j] for i, j in SYM[3]])


def transform6(t):
    e = [sp.Symbol('e%d' % k) for k in range(6)]
    r = strain_of(t, e)
    return arr([[sp.diff(sp.expand(v), s) for s in e] for v in r])


def check_shell(c):
    f0 = c.fresh()
    R = sp.Rational

    def fact(name, tag, make, expected, msg):
        c.fact('%s:%s' % (name, tag), line(f0, SHE, name), make, expected,
               '%s: %s' % (name, msg))

    y, nu = sp.symbols('young poisson', positive=True)
    for shear in (True, False):
        k = R(5, 6) if shear else 1
        d = np.zeros((6, 6), dtype=object)
        d[0, 0] = d[1, 1] = y/(1 - nu**2)
        d[0, 1] = d[1, 0] = nu*y/(1 - nu**2)
        g = y/(2*(1 + nu))
        d[3, 3], d[4, 4], d[5, 5] = g, k*g, k*g

        def tensor(f):
            out = f.function(SHE, 'create_elastic_tensor')(y, nu, shear)
            # The transversal strain is not used by the element.
            out = np.array(out, dtype=object)
            out[2, 2] = sp.Integer(0)
            return out
        fact('create_elastic_tensor', shear, tensor, d, 'not the plane stress'
             ' tensor with corrected transversal shears')

    t = syms('T', 1, 1, 3, 3)
    fact('create_strain_transform', '', lambda f: f.function(
        SHE, 'create_strain_transform')(t)[0, 0],
        lambda: transform6(t[0, 0]), 'not the transformation of the strain')

    eb = syms('b', 1, 4, 3, 3)
    fact('create_rotation_ops', '', lambda f: f.function(
        SHE, 'create_rotation_ops')(eb),
        arr([[np.outer(eb[0, i, 0], eb[0, i, 1])
              - np.outer(eb[0, i, 1], eb[0, i, 0]) for i in range(4)]]),
        'not the rotation operators of the local bases')

    def drl():
        out = arr(np.eye(24, dtype=int))
        for i in range(4):
            n = eb[0, i, 2]
            p = arr(np.eye(3, dtype=int)) - np.outer(n, n)
            p[2] = n
            for a in range(3):
                for b in range(3):
                    out[12 + i + 4*a, 12 + i + 4*b] = p[a, b]
        return out[None]
    fact('create_drl_transform', '', lambda f: f.function(
        SHE, 'create_drl_transform')(eb), drl, 'not the projection of the'
        ' rotations to the tangent plane and the normal')

    x = syms('x', 1, 4, 2)
    q = syms('q', 2, 3)

    def dsg():
        out = np.zeros((1, 2, 2, 24), dtype=object)
        for iq in range(2):
            a, b = q[iq, 0], q[iq, 1]
            for row, i, j, w in ((0, 0, 1, 1 - b), (0, 3, 2, b),
                                 (1, 0, 3, 1 - a), (1, 1, 2, a)):
                dx = x[0, j] - x[0, i]
                v = out[0, iq, row]
                v[8 + i] -= w
                v[8 + j] += w
                for k in (i, j):
                    v[12 + k] -= w*dx[1]/2
                    v[16 + k] += w*dx[0]/2
        return out
    fact('get_dsg_strain', '', lambda f: f.function(
        SHE, 'get_dsg_strain')(x, q), dsg, 'not the transversal shear strains'
        ' interpolated from the sides of the cell')

    g = syms('g', 1, 1, 3, 3, 2)
    ds = syms('d', 1, 1, 2, 2)

    def bmat():
        m = transform6(t[0, 0])
        b = g[0, 0]
        rows = [b[0, 0], b[1, 1], b[2, 2], b[0, 1] + b[1, 0],
                np.dot(m[4, 4:], ds[0, 0]), np.dot(m[5, 4:], ds[0, 0])]
        return arr(rows)[None, None]
    fact('create_strain_matrix', '', lambda f: f.function(
        SHE, 'create_strain_matrix')(g, t, ds), bmat,
        'not the strain operator')

    bfu = syms('N', 1, 1, 4)
    dm = syms('D', 6, 6)

    few = np.zeros((6, 6), dtype=object)
    few[0, 1], few[3, 4] = dm[0, 1], dm[3, 4]
    for i in np.ndindex(6, 6):
        few[i] = sp.sympify(few[i])
    # Bases of one vertex only, the rest are zeros.
    eb1 = np.zeros((1, 4, 3, 3), dtype=object)
    for i in np.ndindex(1, 4, 3, 3):
        eb1[i] = eb[i] if i[1] == 2 else sp.Integer(0)

    def rotated1():
        m = transform6(bfu[0, 0, 2]*eb[0, 2])
        return np.dot(np.dot(m.T, few), m)
    fact('rotate_elastic_tensor', '', lambda f: f.function(
        SHE, 'rotate_elastic_tensor')(few[None, None], bfu, eb1)[0, 0],
        rotated1, 'not the tensor in the interpolated local basis')

    qp = arr([[R(1, 3), R(1, 5), R(1, 7)], [R(3, 4), R(2, 7), R(-1, 9)]])
    det, det0 = syms('J', 1, 2), syms('J0', 1, 1)
    mb = syms('B', 1, 2, 6, 3)

    def eas():
        m = transform6(t[0, 0])
        out = np.zeros((1, 2, 6, 10), dtype=object)
        out[..., :3] = mb
        for k in range(2):
            a, b = 8*(qp[k, 0] - R(1, 2)), 8*(qp[k, 1] - R(1, 2))
            e = np.zeros((6, 7), dtype=object)
            e[0, 0] = e[3, 2] = a
            e[1, 1] = e[3, 3] = b
            e[0, 4] = e[1, 5] = e[3, 6] = a*b
            out[0, k, :, 3:] = det0[0, 0]/det[0, k]*np.dot(m, e)
        return out
    fact('add_eas_dofs', '', lambda f: f.function(
        SHE, 'add_eas_dofs')(mb, qp, det, det0, t), eas,
        'not the enhanced strains')

    # A warped cell with rational data.
    co = arr([[[0, 0, 0], [2, R(1, 3), R(1, 5)], [R(5, 2), 2, R(-1, 4)],
               [R(1, 4), R(3, 2), R(1, 7)]]])
    nb = arr([[[[R(i + 2*a - b + 1, 3 + b) for b in range(3)]
                for a in range(3)] for i in range(4)]])
    rot = np.stack([np.outer(nb[0, i, 0], nb[0, i, 1])
                    - np.outer(nb[0, i, 1], nb[0, i, 0])
                    for i in range(4)])[None]
    w = arr([R(1, 2), R(1, 3)])

    def eval_basis(qc, diff=False, **kw):
        return quad_basis(qc)[1 if diff else 0]
    bf, bg = quad_basis(qp)

    def mapping():
        """Gradients of u = sum N_k (u_k + h R_k phi_k)."""
        u = syms('u', 24)
        xi = sp.symbols('xi0:3')
        one = arr([list(xi)])
        nn = quad_basis(one)[0][0, 0]
        pos = [sum(nn[k]*(co[0, k, i] + xi[2]*nb[0, k, 2, i])
                   for k in range(4)) for i in range(3)]
        dis = [sum(nn[k]*(u[4*i + k] + xi[2]*sum(
            rot[0, k, i, j]*u[12 + 4*j + k] for j in range(3)))
            for k in range(4)) for i in range(3)]
        out = np.empty((1, 2, 3, 3, 24), dtype=object)
        dets = np.empty((1, 2), dtype=object)
        for iq in range(2):
            at = dict(zip(xi, qp[iq]))
            jx = sp.Matrix(3, 3, lambda a, i: sp.diff(pos[i], xi[a])).subs(at)
            dets[0, iq] = jx.det()
            du = sp.Matrix(3, 3, lambda a, i: sp.diff(dis[i], xi[a])).subs(at)
            gr = jx.inv()*du
            for i in range(3):
                for a in range(3):
                    e = sp.expand(gr[a, i])
                    for k in range(24):
                        out[0, iq, a, i, k] = e.coeff(u[k])
        return [out, dets]

    def mapped(f):
        ps = Obj(None, eval_basis=eval_basis)
        _, _, bfgm, _, dt = f.function(SHE, 'get_mapping_data')(
            nb, rot, ps, co, qp, w)
        return [bfgm, dt]
    fact('get_mapping_data', '', mapped, mapping, 'not the gradients of the'
         ' displacements of the shell and the Jacobian')

    bases = arr([[[0, 0, 0], [3, 0, 1], [4, 2, 0], [0, 5, 2]]])

    def local(f):
        e = f.function(SHE, 'create_local_bases')(bases)[0]
        out = []
        for k in range(4):
            m = sp.Matrix(e[k].tolist())
            out += list(sp.simplify(m*m.T)) + [sp.simplify(m.det())]
            p, s = bases[0, (k + 1) % 4] - bases[0, k], \
                bases[0, (k + 3) % 4] - bases[0, k]
            out += [sp.simplify(np.dot(e[k, 2], p)),
                    sp.simplify(np.dot(e[k, 2], s)),
                    sp.simplify(e[k, 0, 1])]
        return arr(out)
    fact('create_local_bases', '', local,
         arr(([1, 0, 0, 0, 1, 0, 0, 0, 1] + [1] + [0, 0, 0])*4),
         'not right-handed orthonormal bases with the normals of the cell')

    nn = 2
    tr = syms('T', 1, 3, 3)
    mm = syms('A', 1, 1, 6*nn, 6*nn)
    blocks = arr([[i + nn*(3*h + k) for k in range(3)]
                  for h in range(2) for i in range(nn)])

    def matrices(f):
        out = mm.copy()
        f.function(SHE, 'transform_asm_matrices')(out, tr, blocks.astype(int))
        return out[0, 0]

    def mexp():
        out = mm[0, 0].copy()
        for ir in blocks.astype(int):
            for ic in blocks.astype(int):
                out[np.ix_(ir, ic)] = np.dot(np.dot(
                    tr[0], mm[0, 0][np.ix_(ir, ic)]), tr[0].T)
        return out
    fact('transform_asm_matrices10', '', matrices, mexp,
         'not the transformed matrices')


def check_geometry(c):
    f0 = c.fresh()

    def fact(name, tag, make, expected, msg):
        c.fact('%s:%s' % (name, tag), line(f0, GEO, name), make, expected,
               '%s: %s' % (name, msg))

    ang = sp.Symbol('phi', real=True)
    cs, sn = sp.cos(ang), sp.sin(ang)
    fact('rotation_matrix2d', '', lambda f: f.function(
        GEO, 'rotation_matrix2d')(ang*180/sp.pi),
        arr([[cs, -sn], [sn, cs]]), 'not the rotation by the angle')
    d = [sp.Rational(2, 7), sp.Rational(3, 7), sp.Rational(6, 7)]
    dd = arr(d)
    skew = arr([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
    ddt = np.outer(dd, dd)
    ref = ddt + cs*(arr(np.eye(3, dtype=int)) - ddt) + sn*skew
    fact('make_axis_rotation_matrix', '', lambda f: f.function(
        GEO, 'make_axis_rotation_matrix')([2, 3, 6], ang), ref,
        'not the rotation around the axis')

    a, b, h, p, q, r = sp.symbols('a b h p q r', positive=True)
    simp = {2: arr([[0, 0], [a, 0], [b, h]]),
            3: arr([[0, 0, 0], [a, 0, 0], [b, h, 0], [p, q, r]])}
    vols = {2: a*h/2, 3: a*h*r/6}
    for dim, x in simp.items():
        fact('get_simplex_volumes', dim, lambda f: f_models(f).function(
            GEO, 'get_simplex_volumes')(arr([list(range(dim + 1))]), x),
            arr([vols[dim]]), 'not the volume')
        w = syms('w', dim + 1)
        w[-1] = 1 - sum(w[:-1])
        pt = np.dot(w, x)
        fact('barycentric_coors', dim, lambda f: f_models(f).function(
            GEO, 'barycentric_coors')(arr([pt]), x)[:, 0], w,
            'not the barycentric coordinates')
        fact('transform_bar_to_space_coors', dim,
             lambda f: f_models(f).function(
                 GEO, 'transform_bar_to_space_coors')(arr([w]), x[None])[0],
             pt, 'not the point')

        def circ(f):
            ce = f_models(f).function(GEO, 'get_simplex_circumcentres')(
                x[None])[0]
            return arr([sp.cancel(sum((ce - v)**2) - sum((ce - x[0])**2))
                        for v in x])
        fact('get_simplex_circumcentres', dim, circ,
             arr([0]*(dim + 1)), 'not equally far from the vertices')
    tri3 = arr([[[0, 0, 0], [a, 0, 0], [b, h, 0]]])
    ce3 = sp.Symbol('ce')

    def circ3(f):
        ce = f_models(f).function(GEO, 'get_simplex_circumcentres')(tri3)[0]
        return arr([sp.cancel(sum((ce - v)**2) - sum((ce - tri3[0][0])**2))
                    for v in tri3[0]] + [ce[2]])
    fact('get_simplex_circumcentres', 'face', circ3, arr([0]*4),
         'not equally far from the vertices')
    quad = arr([[0, 0, 0], [a, 0, 0], [a + b, h, 0], [0, h, 0]])
    fact('get_face_areas', 'tri', lambda f: f_models(f).function(
        GEO, 'get_face_areas')(arr([[0, 1, 2]]), tri3[0]),
        arr([a*h/2]), 'not the area')
    fact('get_face_areas', 'tri2', lambda f: f_models(f).function(
        GEO, 'get_face_areas')(arr([[0, 1, 2]]), simp[2]),
        arr([a*h/2]), 'not the area')
    fact('get_face_areas', 'quad', lambda f: f_models(f).function(
        GEO, 'get_face_areas')(arr([[0, 1, 2, 3]]), quad),
        arr([(2*a + b)*h/2]), 'not the area')
    v2 = arr([sp.Integer(3), sp.Integer(4)])
    fact('get_perpendiculars', '2', lambda f: (lambda o: arr(
        [np.dot(o, v2), np.dot(o, o)]))(f_models(f).function(
            GEO, 'get_perpendiculars')(v2)), arr([0, 1]),
        'not a perpendicular unit vector')

    def perp3(f):
        v = arr([sp.Integer(2), sp.Integer(3), sp.Integer(6)])
        x, y = f_models(f).function(GEO, 'get_perpendiculars')(v)
        return arr([np.dot(x, v), np.dot(y, v), np.dot(x, y), np.dot(x, x),
                    np.dot(y, y)])
    fact('get_perpendiculars', '3', perp3, arr([0, 0, 0, 1, 1]),
         'not perpendicular unit vectors')

    # Products of sequences.
    x, y = syms('x', 2, 2, 3), syms('y', 2, 3, 2)
    w = syms('w', 2, 3)
    for mode, p1, p2, sub in (('AB', x, y, 'aij,ajk->aik'),
                              ('ATB', y, y, 'aji,ajk->aik'),
                              ('ABT', x, x, 'aij,akj->aik'),
                              ('ATBT', x, y, 'aji,akj->aik')):
        c.fact('dot_sequences:' + mode, line(f0, 'sfepy/linalg/utils.py',
                                             'dot_sequences'),
               lambda f: f.function('sfepy/linalg/utils.py',
                                    'dot_sequences')(p1, p2, mode),
               np.einsum(sub, p1, p2), 'dot_sequences: not the product '
               + mode)
    c.fact('dot_sequences:vector', line(f0, 'sfepy/linalg/utils.py',
                                        'dot_sequences'),
           lambda f: f.function('sfepy/linalg/utils.py',
                                'dot_sequences')(x, w),
           np.einsum('aij,aj->ai', x, w), 'dot_sequences: not the product'
           ' with vectors')
    for axis in (0, 1):
        for sq in (True, False):
            c.fact('norm_l2_along_axis:%d%s' % (axis, sq),
                   line(f0, 'sfepy/linalg/utils.py', 'norm_l2_along_axis'),
                   lambda f: (lambda o: o if sq else o**2)(f.function(
                       'sfepy/linalg/utils.py', 'norm_l2_along_axis')(
                           w, axis=axis, squared=sq)),
                   np.sum(w*w, axis=axis),
                   'norm_l2_along_axis: not the norm along the axis')


def f_models(f):
    from ..formal import det
    from sympy import factorial
    f.models['dets_fast'] = det
    f.models['factorial'] = lambda n: factorial(int(n))
    return f


def run(ctx):
    import os
    for rel in (MAT, ELC, UNI, TEN, MEM, GEO, SHE):
        if not os.path.exists(os.path.join(ctx.repo, rel)):
            raise AnalysisBroken('no ' + rel)
    c = Check(ctx)
    for part in (check_relations, check_materials, check_plane, check_units,
                 check_tensors, check_membranes, check_shell,
                 check_geometry):
        part(c)
    ctx.floor('formulas', 60)
