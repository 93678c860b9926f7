"""H01: native kernels of hyperelastic terms."""
import os
from fractions import Fraction as Q

from ..cfe import Program
from ..cformal import (P, Ptr, Buf, Struct, Eval, Undecided, Wrong, field,
                       item, index)
from ..core import AnalysisBroken

EXPLANATION = (
    'The results of the native kernels of finite strain terms are derived'
    ' from clang syntax trees of the kernels and of the functions they call'
    ' as exact algebraic expressions of the elements of their arguments, for'
    ' two cells with two quadrature points in 2D and 3D (and one cell of'
    ' material data). They are compared with the definitions: deformation'
    ' measures and invariants of a given displacement, stresses, tangent'
    ' moduli as derivatives of the stresses with respect to the deformation,'
    ' residuals as virtual works and matrices as their linearizations.')
RULE = 'one obligation per kernel, dimension, cell, point and entry'
ASSUMPTIONS = [
    'numbers of nodes and points do not change the formulas (two of each are'
    ' analysed)', 'deformations are regular']

HYP = 'sfepy/terms/extmods/terms_hyperelastic.c'
C3 = Q(1, 3)
SYM = {1: [(0, 0)], 3: [(0, 0), (1, 1), (0, 1)],
       6: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}
NC, NQ = 2, 2


def const(v):
    return lambda *a: P.c(v)


class Tensor:
    """Symmetric tensor with named components of one cell and point."""

    def __init__(self, name, sym, i, q, value=None):
        self.n = {1: 1, 3: 2, 6: 3}[sym]
        self.t = {}
        for k, (a, b) in enumerate(SYM[sym]):
            v = value(a, b) if value else P.v('%s_%d%d%d0' % (name, i, q, k))
            self.t[a, b] = self.t[b, a] = v

    def __getitem__(self, ab):
        return self.t[ab]


def unit(sym):
    return Tensor('', sym, 0, 0, lambda a, b: P.c(int(a == b)))


def square(t, sym):
    return Tensor('', sym, 0, 0, lambda a, b: sum(
        (t[a, k]*t[k, b] for k in range(t.n)), P()))


class Model:
    """S = a G0 + b G1 + c G2 as functions of J, tr and I2."""

    def __init__(self, coefs):
        self.coefs = coefs


J3 = 'J'   # J = (variable)^3


def jay(i, q):
    return P({(('J_%d%d' % (i, q), 3),): Q(1)})


def coefs(kind, m, J, tr, i2):
    z = P()
    if kind == 'bulk':
        return m*J*(J - 1), z, z
    if kind == 'active':
        return m*J, z, z
    if kind == 'pressure':
        return -m*J, z, z
    if kind == 'neohook':
        j = J.power(-2*C3)
        return -m*j*tr*C3, m*j, z
    if kind == 'mooney':
        j = J.power(-4*C3)
        return -m*j*i2*(2*C3), m*j*tr, -m*j
    raise ValueError(kind)


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        if not os.path.exists(os.path.join(ctx.repo, HYP)):
            raise AnalysisBroken('no ' + HYP)
        self.prog = Program(ctx.repo, files=[f for f in (
            HYP, 'sfepy/terms/extmods/form_sdcc.c',
            'sfepy/discrete/common/extmods/geommech.c',
            'sfepy/discrete/common/extmods/fmfield.c',
            'sfepy/discrete/common/extmods/refmaps.c',
            'sfepy/terms/extmods/terms.c') if os.path.exists(
                os.path.join(ctx.repo, f))])

    # ---------------------------------------------------------- machinery
    def kernel(self, name, key, args, checks):
        """checks: [(field, expected(cell, lev, row, col), text)]"""
        if self.prog.func(name) is None:
            self.ctx.count('missing')
            self.ctx.note('no kernel ' + name)
            return
        fn = self.prog.func(name)
        where = '%s:%d (%s)' % (fn.file, fn.line, name)
        try:
            Eval(self.prog).run(name, *args)
        except (Undecided, RecursionError) as e:
            self.ctx.count('undecided')
            self.ctx.note('%s %s: no normal form (%s)' % (name, key, e))
            return
        except Wrong as e:
            self.ctx.violation('%s:memory' % name, '%s (%s)' % (e, key),
                               where)
            return
        self.ctx.count('kernels')
        self.ctx.sample('%s %s' % (name, key))
        for f, expected, text in checks:
            s = f.load().m
            bad = None
            for i in range(s['nCell']):
                for j in range(s['nLev']):
                    for k in range(s['nRow']):
                        for l in range(s['nCol']):
                            v = item(f, i, j, k, l)
                            e = expected(i, j, k, l)
                            if e is None:
                                continue
                            self.ctx.count('entries')
                            if v is None:
                                bad = bad or ((i, j, k, l), 'is not set')
                            elif not (v - e) == 0:
                                bad = bad or ((i, j, k, l), None)
            if bad:
                self.ctx.violation(
                    '%s:%s' % (name, text), 'entry (cell %d, point %d, row %d,'
                    ' column %d) %s (%s)' % (bad[0] + (
                        bad[1] or 'is not the %s' % text, key)), where)

    # ------------------------------------------------------------ stresses
    def law(self, kind, stress, tangent, ul, sym, cells):
        """Stress and tangent modulus kernels of a constitutive relation."""
        key = '%dD%s' % ({3: 2, 6: 3}[sym], ', one material'
                         if cells == 1 else '')
        mat = field(index('m'), cells, NQ, 1, 1)
        J = field(lambda i, j, k, l: jay(i, j), NC, NQ, 1, 1)
        tr = field(lambda i, j, k, l: P.v('t_%d%d' % (i, j)), NC, NQ, 1, 1)
        i2 = field(lambda i, j, k, l: P.v('s_%d%d' % (i, j)), NC, NQ, 1, 1)
        A = field(index('A'), NC, NQ, sym, 1)     # C^-1 or B
        C = field(index('C'), NC, NQ, sym, 1)
        names = {'bulk': 'J', 'active': 'J', 'pressure': 'J',
                 'neohook': 'Jt', 'mooney': 'Jti'}[kind]
        args = [mat, J]
        if kind == 'neohook':
            args += [tr]
        if kind == 'mooney':
            args += [tr]
        if ul:
            if kind in ('neohook', 'mooney'):
                args += [A]
            if kind == 'mooney':
                args += [i2]
        else:
            args += [A]
            if kind == 'mooney':
                args += [C, i2]

        def state(i, q):
            a = Tensor('A', sym, i, q)
            one = unit(sym)
            if ul:
                g = one, a, square(a, sym)
            else:
                g = a, one, Tensor('C', sym, i, q)
            m = P.v('m_%d%d00' % (i if cells > 1 else 0, q))
            tr, i2 = P.v('t_%d%d' % (i, q)), P.v('s_%d%d' % (i, q))
            return g, coefs(kind, m, jay(i, q), tr, i2)

        def s(i, q, r, _):
            g, c = state(i, q)
            a, b = SYM[sym][r]
            return sum((x*t[a, b] for x, t in zip(c, g)), P())

        def d(i, q, r, col):
            g, c = state(i, q)
            a, b = SYM[sym][r]
            k, l = SYM[sym][col]
            # dC_kl = dC_lk = 1, doubled (2 dS/dC), half of engineering shear
            # is the entry of the symmetric perturbation: 2 dC_kk = 2,
            # 2 * (dC_kl + dC_lk) / 2.
            w = P.c(2 if k == l else 1)
            one = unit(sym)

            def dot(t):
                # t : dC with dC = e_k e_l (+ e_l e_k), weight 2 (1).
                return t[k, l]*w*(1 if k == l else 2)
            dJ = jay(i, q)*dot(g[0])*Q(1, 2)
            dtr = dot(g[1])
            t = P.v('t_%d%d' % (i, q))
            di2 = t*dot(g[1]) - dot(g[2])

            def pair(t):
                # derivative of the product: (t_ak t_bl + t_al t_bk)
                v = t[a, k]*t[b, l] + t[a, l]*t[b, k]
                return v*w*(Q(1, 2) if k == l else 1)
            jn = 'J_%d%d' % (i, q)
            jv = P.v(jn)

            def rules(v):
                if v == jn:
                    return dJ*jv.power(-2)*C3   # J = j^3
                if v == 't_%d%d' % (i, q):
                    return dtr
                if v == 's_%d%d' % (i, q):
                    return di2
                return None
            out = P()
            for x, tt in zip(c, g):
                out = out + x.diff(rules)*tt[a, b]
            out = out - c[0]*pair(g[0]) + c[2]*pair(g[1])
            return out
        out = field(None, NC, NQ, sym, 1)
        if stress:
            self.kernel(stress, key, [out] + args, [(out, s, 'stress')])
        if tangent:
            out = field(None, NC, NQ, sym, sym)
            self.kernel(tangent, key, [out] + args,
                        [(out, d, 'derivative of the stress')])

    def laws(self):
        for sym in (6, 3):
            for cells in (NC, 1):
                for kind, name in (('bulk', 'he_%s_bulk'),
                                   ('neohook', 'he_%s_neohook'),
                                   ('mooney', 'he_%s_mooney_rivlin')):
                    for ul in (0, 1):
                        p = 'dq_%s_' % ('ul' if ul else 'tl')
                        self.law(kind, p + name % 'stress',
                                 p + name % 'tan_mod', ul, sym, cells)
                self.law('active', 'dq_tl_he_stress_bulk_active',
                         'dq_tl_he_tan_mod_bulk_active', 0, sym, cells)
            for ul in (0, 1):
                p = 'dq_%s_' % ('ul' if ul else 'tl')
                self.law('pressure', p + 'stress_bulk_pressure',
                         p + 'tan_mod_bulk_pressure_u', ul, sym, NC)

    # ------------------------------------------------- deformation measures
    def mapping(self, dim, nep, nq=NQ, nc=NC, g='g'):
        m = Struct(bfGM=field(index(g), nc, nq, dim, nep),
                   det=field(index('w'), nc, nq, 1, 1),
                   volume=field(index('V'), nc, 1, 1, 1),
                   normal=field(index('n'), nc, nq, dim, 1),
                   bf=field(index('N'), 1, nq, 1, nep),
                   dim=dim, nEl=nc, nQP=nq, nEP=nep)
        return Ptr(Buf([m]))

    def strains(self):
        for dim in (2, 3):
            nep = dim + 1 if dim == 2 else 3
            sym = dim*(dim + 1)//2
            conn = [[2, 0, 1], [1, 3, 2]]
            off = 2

            def u(n, c):
                return P.v('u_%d%d' % (n, c))

            def state():
                vals = [P.v('zero%d' % i) for i in range(off)]
                vals += [u(n, c) for n in range(4) for c in range(dim)]
                p = Ptr(Buf(vals, 'f'))
                return Ptr(Buf([Struct(
                    nCell=1, nLev=1, nRow=len(vals), nCol=1, val=p, val0=p,
                    cellSize=len(vals), offset=0, nColFull=1,
                    nAlloc=len(vals))]))
            cache = {}

            def F(i, q):
                if (i, q) not in cache:
                    cache[i, q] = [[sum(
                        (u(conn[i][n], a)*P.v('g_%d%d%d%d' % (i, q, b, n))
                         for n in range(nep)), P.c(int(a == b)))
                        for b in range(dim)] for a in range(dim)]
                return cache[i, q]
            if dim == 3:
                # Keep the inverse manageable: gradients of simple shape.
                def grad(i, q, b, n):
                    return P.v('g_%d%d%d%d' % (i, q, b, n)) \
                        if (b == n or n == 0) and i == 0 \
                        else P.c(Q(1 + b + 2*n + 3*q + i, 3 + n)) \
                        if b == n else P()

                def F(i, q):
                    if (i, q) not in cache:
                        cache[i, q] = [[sum(
                            (u(conn[i][n], a)*grad(i, q, b, n)
                             for n in range(nep)), P.c(int(a == b)))
                            for b in range(dim)] for a in range(dim)]
                    return cache[i, q]
            for ul in (0, 1):
                name = 'dq_finite_strain_%s' % ('ul' if ul else 'tl')
                vg = self.mapping(dim, nep)
                if dim == 3:
                    vg.load().m['bfGM'] = field(grad, NC, NQ, dim, nep)
                fF = field(None, NC, NQ, dim, dim)
                fJ, fT, fI = [field(None, NC, NQ, 1, 1) for _ in range(3)]
                fC, fA, fE = [field(None, NC, NQ, sym, 1) for _ in range(3)]
                memo = {}

                def cg(i, q, ul=ul, memo=memo):
                    if (i, q) not in memo:
                        f = F(i, q)
                        memo[i, q] = [[sum(
                            (f[a][k]*f[b][k] if ul else f[k][a]*f[k][b]
                             for k in range(dim)), P())
                            for b in range(dim)] for a in range(dim)]
                    return memo[i, q]

                def inv2(i, q, k, l):
                    c = cg(i, q)
                    if dim == 2:
                        return (c[0][0]*c[1][1] - c[0][1]*c[1][0]
                                + c[0][0] + c[1][1])
                    return sum((c[a][a]*c[b][b] - c[a][b]*c[b][a]
                                for a in range(3) for b in range(a)), P())

                def green(i, q, k, l):
                    f = F(i, q)
                    a, b = SYM[sym][k]
                    v = sum((f[m][a]*f[m][b] for m in range(dim)), P())
                    return (v - int(a == b))*Q(1, 2)

                def cinv(i, q, k, l):
                    c = cg(i, q)
                    a, b = SYM[sym][k]
                    return cof(c, b, a)*det(c).inverse()
                args = [fF, fJ, fC, fT, fI]
                checks = [
                    (fF, lambda i, q, a, b: F(i, q)[a][b],
                     'deformation gradient'),
                    (fJ, lambda i, q, a, b: det(F(i, q)), 'determinant'),
                    (fC, lambda i, q, k, l: cg(i, q)[SYM[sym][k][0]][
                        SYM[sym][k][1]], 'Cauchy-Green tensor'),
                    (fT, lambda i, q, k, l: sum(
                        (cg(i, q)[a][a] for a in range(dim)),
                        P.c(1 if dim == 2 else 0)), 'trace'),
                    (fI, inv2, 'second invariant'),
                    (fE, green, 'Green strain')]
                if not ul:
                    args.append(fA)
                    checks.append((fA, cinv, 'inverse'))
                args += [fE, state(), off, vg,
                         Ptr(Buf([x for r in conn for x in r])), NC, nep]
                self.kernel(name, '%dD' % dim, args, checks)

            for mode in (0, 1):
                vg = self.mapping(dim, nep)
                if dim == 3:
                    vg.load().m['bfGM'] = field(grad, NC, NQ, dim, nep)
                st = state()
                st.load().m['val0'] = st.load().m['val'] = Ptr(
                    st.load().m['val0'].buf, off)
                out = field(None, NC, NQ, 1 if mode else dim,
                            1 if mode else dim)
                self.kernel('dq_def_grad', '%dD, mode %d' % (dim, mode), [
                    out, st, vg, Ptr(Buf([x for r in conn for x in r])), NC,
                    nep, mode],
                    [(out, (lambda i, q, a, b: det(F(i, q))) if mode else
                      (lambda i, q, a, b: F(i, q)[a][b]),
                      'determinant' if mode else 'deformation gradient')])

            # surface: cells of facets by the facet connectivity
            sg = self.mapping(dim, nep)
            if dim == 3:
                sg.load().m['bfGM'] = field(grad, NC, NQ, dim, nep)
            fis = [[1, 0], [0, 1]]
            conn2 = [conn[1], conn[0]]
            fF = field(None, NC, NQ, dim, dim)
            fI = field(None, NC, NQ, dim, dim)
            fJ = field(None, NC, NQ, 1, 1)
            self.kernel('dq_tl_finite_strain_surface', '%dD' % dim, [
                fF, fJ, fI, state(), off, sg,
                Ptr(Buf([x for r in fis for x in r])), NC, 2,
                Ptr(Buf([x for r in conn2 for x in r])), NC, nep], [
                (fF, lambda i, q, a, b: F(i, q)[a][b],
                 'deformation gradient'),
                (fJ, lambda i, q, a, b: det(F(i, q)), 'determinant'),
                (fI, lambda i, q, a, b: cof(F(i, q), b, a)
                 * det(F(i, q)).inverse(), 'inverse')])

    # -------------------------------------------------- residuals, matrices
    def virtual_work(self):
        for dim in (2, 3):
            nep = 2
            sym = dim*(dim + 1)//2
            n = dim*nep
            for ul in (0, 1):
                key = '%dD %s' % (dim, 'UL' if ul else 'TL')

                def setup():
                    return (field(index('S'), NC, NQ, sym, 1),
                            field(index('D'), NC, NQ, sym, sym),
                            field(index('F'), NC, NQ, dim, dim),
                            field(index('j'), NC, NQ, 1, 1),
                            self.mapping(dim, nep))

                def weight(i, q):
                    w = P.v('w_%d%d00' % (i, q))
                    return w/P.v('j_%d%d00' % (i, q)) if ul else w

                def g(i, q, b, a):
                    return P.v('g_%d%d%d%d' % (i, q, b, a))

                def strain(i, q, r, dof):
                    """Variation of the engineering strain."""
                    c, a = divmod(dof, nep)
                    p, s = SYM[sym][r]

                    def part(x, y):
                        if ul:
                            return g(i, q, y, a) if c == x else P()
                        return P.v('F_%d%d%d%d' % (i, q, c, x))*g(i, q, y, a)
                    if p == s:
                        return part(p, p)
                    return part(p, s) + part(s, p)

                def res(i, _, dof, l):
                    out = P()
                    for q in range(NQ):
                        for r in range(sym):
                            out = out + weight(i, q)*strain(i, q, r, dof) \
                                * P.v('S_%d%d%d0' % (i, q, r))
                    return out

                def stress(i, q, a, b):
                    k = [set(x) for x in SYM[sym]].index({a, b})
                    return P.v('S_%d%d%d0' % (i, q, k))

                def mtx(i, _, row, col):
                    out = P()
                    for q in range(NQ):
                        v = P()
                        for r in range(sym):
                            for c in range(sym):
                                v = v + strain(i, q, r, row) \
                                    * P.v('D_%d%d%d%d' % (i, q, r, c)) \
                                    * strain(i, q, c, col)
                        if row//nep == col//nep:
                            for a in range(dim):
                                for b in range(dim):
                                    v = v + g(i, q, a, row % nep) \
                                        * stress(i, q, a, b) \
                                        * g(i, q, b, col % nep)
                        out = out + weight(i, q)*v
                    return out
                S, D, F, J, vg = setup()
                out = field(None, NC, 1, n, 1)
                self.kernel('dw_he_rtm', key + ' residual', [
                    out, S, D, F, J, vg, 0, ul], [(out, res, 'virtual work')])
                S, D, F, J, vg = setup()
                out = field(None, NC, 1, n, n)
                self.kernel('dw_he_rtm', key + ' matrix', [
                    out, S, D, F, J, vg, 1, ul],
                    [(out, mtx, 'linearization of the virtual work')])
                S, D, F, J, vg = setup()
                out = field(None, NC, 1, sym, 1)
                els = [0, 1]
                self.kernel('de_he_rtm', key, [
                    out, S, J, vg, Ptr(Buf(list(els))), NC, ul], [
                    (out, lambda i, _, r, l: sum(
                        (weight(els[i], q)*P.v('S_%d%d%d0' % (els[i], q, r))
                         for q in range(NQ)), P()), 'integral')])

    def volumes(self):
        for dim in (2, 3):
            nep, nps = 2, 3
            sym = dim*(dim + 1)//2
            n = dim*nep

            def base():
                vgs = self.mapping(dim, nps, g='h')
                vgv = self.mapping(dim, nep)
                vgv.load().m['volume'] = field(index('V'), NC, 1, 1, 1)
                return vgs, vgv, field(index('j'), NC, NQ, 1, 1)

            def w(i, q):
                return P.v('w_%d%d00' % (i, q))

            def j(i, q):
                return P.v('j_%d%d00' % (i, q))

            def bf(q, a):
                return P.v('N_0%d0%d' % (q, a))

            def total(fun):
                return lambda i, _, r, c: sum(
                    (w(i, q)*fun(i, q, r, c) for q in range(NQ)), P())

            def dj(i, q, dof, ul):
                """Variation of J (TL), of volume (UL)."""
                c, a = divmod(dof, nep)
                if ul:
                    return P.v('g_%d%d%d%d' % (i, q, c, a))
                out = P()
                for x in range(dim):
                    for y in range(dim):
                        k = [set(z) for z in SYM[sym]].index({x, y})
                        out = out + P.v('A_%d%d%d0' % (i, q, k)) \
                            * P.v('F_%d%d%d%d' % (i, q, c, x)) \
                            * P.v('g_%d%d%d%d' % (i, q, y, a))
                return out*j(i, q)

            for ul in (0, 1):
                name = 'dw_ul_volume' if ul else 'dw_tl_volume'
                for mode, tr in ((0, 0), (1, 0), (1, 1), (-1, 0), (-1, 1),
                                 (2, 0), (3, 0)):
                    vgs, vgv, J = base()
                    fF = field(index('F'), NC, NQ, dim, dim)
                    A = field(index('A'), NC, NQ, sym, 1)
                    if mode == 0:
                        shape = (nps, 1)
                        exp = total(lambda i, q, r, c, ul=ul: bf(q, r)*(
                            P.c(1) - j(i, q).inverse() if ul else j(i, q)))
                        text = 'integral of the relative volume'
                    elif mode in (1, -1):
                        shape = (n, nps) if tr else (nps, n)
                        exp = total(lambda i, q, r, c, ul=ul, s=mode, t=tr: (
                            bf(q, c if t else r)
                            * dj(i, q, r if t else c, ul)*s))
                        text = 'derivative of the volume'
                    else:
                        shape = (1, 1)
                        exp = total(lambda i, q, r, c, m=mode: j(i, q) if m
                                    == 2 else j(i, q)/P.v('V_%d000' % i))
                        text = 'volume'
                    out = field(None, NC, 1, *shape)
                    args = [out] + ([J] if ul else [fF, A, J]) \
                        + [vgs, vgv, tr, mode]
                    self.kernel(name, '%dD, mode %d%s' % (
                        dim, mode, ', transposed' if tr else ''), args,
                        [(out, exp, text)])

    def diffusion(self):
        for dim in (2, 3):
            nep = 2
            for low in (0, 1):
                def jv(i, q):
                    # above and below of the positive porosity
                    x = P.v('x_%d%d' % (i, q))
                    n = P.v('por_%d%d00' % (i, q))
                    return P.c(1) - n - x if low else x + 1

                def fields():
                    return dict(
                        dp=field(index('p'), NC, NQ, dim, 1),
                        D=field(index('D'), NC, NQ, dim, dim),
                        por=field(index('por'), NC, NQ, 1, 1),
                        J=field(lambda i, q, k, l: jv(i, q), NC, NQ, 1, 1),
                        F=field(index('F'), NC, NQ, dim, dim),
                        FI=field(index('I'), NC, NQ, dim, dim),
                        vg=self.mapping(dim, nep))

                def fmat(i, q, name='F'):
                    return [[P.v('%s_%d%d%d%d' % (name, i, q, a, b))
                             for b in range(dim)] for a in range(dim)]

                def coef(i, q):
                    if low:
                        return P()
                    v = P.c(1) + P.v('x_%d%d' % (i, q))/P.v(
                        'por_%d%d00' % (i, q))
                    return v*v

                memo = {}

                def inverse(i, q, surface):
                    if (i, q, surface) not in memo:
                        if surface:
                            memo[i, q, surface] = fmat(i, q, 'I')
                        else:
                            f = fmat(i, q)
                            d = det(f).inverse()
                            memo[i, q, surface] = [
                                [cof(f, b, a)*d for b in range(dim)]
                                for a in range(dim)]
                    return memo[i, q, surface]

                def perm(i, q, surface=False):
                    fi = inverse(i, q, surface)
                    k = [[P() for _ in range(dim)] for _ in range(dim)]
                    if low:
                        return k
                    c = coef(i, q)*jv(i, q)
                    for a in range(dim):
                        for b in range(dim):
                            v = P()
                            for x in range(dim):
                                for y in range(dim):
                                    v = v + fi[a][x]*P.v(
                                        'D_%d%d%d%d' % (i, q, x, y)) \
                                        * fi[b][y]
                            k[a][b] = v*c
                    return k

                def w(i, q):
                    return P.v('w_%d%d00' % (i, q))

                def dp(i, q, a):
                    return P.v('p_%d%d%d0' % (i, q, a))

                def g(i, q, a, b):
                    return P.v('g_%d%d%d%d' % (i, q, a, b))
                kept = {}

                def K(i, q, s=False):
                    if (i, q, s) not in kept:
                        kept[i, q, s] = perm(i, q, s)
                    return kept[i, q, s]

                def mtx(i, _, r, c):
                    return sum((w(i, q)*g(i, q, a, r)*K(i, q)[a][b]
                                * g(i, q, b, c) for q in range(NQ)
                                for a in range(dim) for b in range(dim)), P())

                def res(i, _, r, c):
                    return sum((w(i, q)*g(i, q, a, r)*K(i, q)[a][b]
                                * dp(i, q, b) for q in range(NQ)
                                for a in range(dim) for b in range(dim)), P())

                def velocity(i, _, r, c):
                    out = P()
                    for q in range(NQ):
                        fi = inverse(i, q, False)
                        for x in range(dim):
                            for y in range(dim):
                                out = out - w(i, q)*coef(i, q)*P.v(
                                    'D_%d%d%d%d' % (i, q, r, x))*fi[y][x] \
                                    * dp(i, q, y)
                    return out/P.v('V_%d000' % i)
                for mode, shape, exp, text in (
                        (0, (nep, 1), res, 'transformed diffusion'),
                        (1, (nep, nep), mtx, 'transformed diffusion'),
                        (2, (dim, 1), velocity, 'diffusion velocity')):
                    f = fields()
                    out = field(None, NC, 1, *shape)
                    self.kernel('dw_tl_diffusion', '%dD, mode %d%s' % (
                        dim, mode, ', closed pores' if low else ''), [
                        out, f['dp'], f['D'], f['por'], f['F'], f['J'],
                        f['vg'], mode], [(out, exp, text)])

                def flux(i, mode):
                    v = sum((w(i, q)*P.v('n_%d%d%d0' % (i, q, a))
                             * K(i, q, True)[a][b]*dp(i, q, b)
                             for q in range(NQ) for a in range(dim)
                             for b in range(dim)), P())
                    return v/P.v('V_%d000' % i) if mode else v
                for mode in (0, 1):
                    f = fields()
                    out = field(None, NC, 1, 1, 1)
                    self.kernel('d_tl_surface_flux', '%dD, mode %d%s' % (
                        dim, mode, ', closed pores' if low else ''), [
                        out, f['dp'], f['D'], f['por'], f['FI'], f['J'],
                        f['vg'], mode],
                        [(out, lambda i, *a, m=mode: flux(i, m), 'flux')])

    def tractions(self):
        for dim in (2, 3):
            nep = 2
            fis = [[0, 1], [1, 0]]     # (cell, local facet)
            n = dim*nep

            def fields():
                return (field(index('T'), NC, NQ, dim, dim),
                        field(index('j'), NC, NQ, 1, 1),
                        field(index('I'), NC, NQ, dim, dim),
                        field(index('b'), 2, NQ, 1, nep),
                        self.mapping(dim, nep))

            def w(i, q):
                return P.v('w_%d%d00' % (i, q))*P.v('j_%d%d00' % (i, q))

            def fi(i, q, a, b):
                return P.v('I_%d%d%d%d' % (i, q, a, b))

            def normal(i, q, a):
                return sum((fi(i, q, k, a)*P.v('n_%d%d%d0' % (i, q, k))
                            for k in range(dim)), P())

            def grad(i, q, a, e):
                return sum((fi(i, q, k, a)*P.v('g_%d%d%d%d' % (i, q, k, e))
                            for k in range(dim)), P())

            def bf(i, q, e):
                return P.v('b_%d%d0%d' % (fis[i][1], q, e))

            def tr(i, q, a, b):
                return P.v('T_%d%d%d%d' % (i, q, a, b))

            def res(i, _, r, c):
                a, e = divmod(r, nep)
                return sum((w(i, q)*bf(i, q, e)*tr(i, q, b, a)
                            * normal(i, q, b) for q in range(NQ)
                            for b in range(dim)), P())

            def mtx(i, _, r, c):
                a, e = divmod(r, nep)
                d, k = divmod(c, nep)
                # d(J F^-T n) = J ((F^-T : dF) F^-T n - F^-T dF^T F^-T n)
                return sum((w(i, q)*bf(i, q, e)*tr(i, q, b, a)*(
                    normal(i, q, b)*grad(i, q, d, k)
                    - grad(i, q, b, k)*normal(i, q, d))
                    for q in range(NQ) for b in range(dim)), P())
            flat = [x for r in fis for x in r]
            T, J, I, b, sg = fields()
            out = field(None, NC, 1, n, 1)
            self.kernel('dw_tl_surface_traction', '%dD residual' % dim, [
                out, T, J, I, b, sg, Ptr(Buf(list(flat))), NC, 2, 0],
                [(out, res, 'work of the traction')])
            T, J, I, b, sg = fields()
            out = field(None, NC, 1, n, n)
            self.kernel('dw_tl_surface_traction', '%dD matrix' % dim, [
                out, T, J, I, b, sg, Ptr(Buf(list(flat))), NC, 2, 1],
                [(out, mtx, 'linearization')])

            conn = [[2, 0], [1, 2]]
            vals = [P.v('x_%d%d' % (k, a)) for k in range(3)
                    for a in range(dim)]
            p = Ptr(Buf(vals, 'f'))
            coors = Ptr(Buf([Struct(nCell=1, nLev=1, nRow=3, nCol=dim, val=p,
                                    val0=p, cellSize=3*dim, offset=0,
                                    nColFull=dim, nAlloc=3*dim)]))
            T, J, I, b, sg = fields()
            out = field(None, NC, 1, 1, 1)

            def volume(i, *args):
                v = P()
                for q in range(NQ):
                    for a in range(dim):
                        x = sum((P.v('N_0%d0%d' % (q, e))*P.v('x_%d%d' % (
                            conn[i][e], a)) for e in range(nep)), P())
                        v = v + w(i, q)*x*normal(i, q, a)
                return v*Q(1, dim)
            self.kernel('d_tl_volume_surface', '%dD' % dim, [
                out, coors, J, I, b, sg,
                Ptr(Buf([x for r in conn for x in r])), NC, nep],
                [(out, volume, 'volume')])


def cof(m, a, b):
    n = len(m)
    if n == 1:
        return P.c(1)
    sub = [[m[i][j] for j in range(n) if j != b] for i in range(n) if i != a]
    return det(sub)*(-1)**(a + b)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((m[0][j]*cof(m, 0, j) for j in range(len(m))), P())


def run(ctx):
    c = Check(ctx)
    c.laws()
    c.strains()
    c.virtual_work()
    c.volumes()
    c.diffusion()
    c.tractions()
    ctx.floor('kernels', 40)
