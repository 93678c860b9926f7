"""T07: the numerical fluxes of DG terms and their matrices."""
import os

import numpy as np
import sympy as sp

from ..core import AnalysisBroken
from ..formal import Forms, Function, Obj, Undecided, arr, same

EXPLANATION = (
    'The facet contributions of the discontinuous Galerkin terms are derived,'
    ' from the syntax trees, as exact expressions of symbolic DOFs, basis'
    ' values and gradients on facets, quadrature weights and coefficients, on'
    ' two cells with inner and boundary facets. The residual is compared with'
    ' the documented numerical flux, the matrix entries with the derivatives'
    ' of the residual w.r.t. the DOFs of the cell and of its neighbours.')
RULE = 'one obligation per term, mode and row (residual) or row and column'
ASSUMPTIONS = [
    'the facet data (normals, neighbours, basis, state values and weights)'
    ' are those of the field',
    'diffusion coefficients are scalar, as declared by the terms']

REL = 'sfepy/terms/terms_dg.py'
NC, NF, NQ, ND, DIM = 2, 2, 2, 2, 2
Q = sp.Rational


def syms(name, *shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = sp.Symbol(name + ''.join('_%d' % k for k in i), real=True)
    return out


class Data:
    """Facet data of two cells; facet (0, 1) and (1, 0) are boundary ones."""

    def __init__(self):
        self.p = syms('p', NC, ND)
        self.b = syms('b', ND, NF, NQ)
        self.bd = syms('bd', ND, NF, DIM, NQ)
        self.bo = syms('bo', NC, ND, NF, NQ)
        self.bod = syms('bod', NC, ND, NF, DIM, NQ)
        self.w = syms('w', NC, NF, NQ)
        self.n = arr([[[Q(3, 5), Q(4, 5)], [Q(-5, 13), Q(12, 13)]],
                      [[Q(8, 17), Q(-15, 17)], [Q(-3, 5), Q(-4, 5)]]])
        self.nbr = [[1, -1], [-1, 0]]
        self.g = syms('g', NC, NF, NQ)
        self.gd = syms('gd', NC, NF, DIM, NQ)

    def inner(self, c, f, q):
        return sum(self.p[c, d]*self.b[d, f, q] for d in range(ND))

    def outer(self, c, f, q):
        k = self.nbr[c][f]
        if k < 0:
            return self.g[c, f, q]
        return sum(self.p[k, d]*self.bo[c, d, f, q] for d in range(ND))

    def inner_d(self, c, f, k, q):
        return sum(self.p[c, d]*self.bd[d, f, k, q] for d in range(ND))

    def outer_d(self, c, f, k, q):
        m = self.nbr[c][f]
        if m < 0:
            return self.gd[c, f, k, q]
        return sum(self.p[m, d]*self.bod[c, d, f, k, q] for d in range(ND))

    def table(self, fun, *shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = fun(*i)
        return out

    def field(self, f):
        def state_vals(state, region, derivative=None, reduce_nod=True):
            if derivative:
                return (self.table(self.inner_d, NC, NF, DIM, NQ),
                        self.table(self.outer_d, NC, NF, DIM, NQ),
                        self.w.copy())
            return (self.table(self.inner, NC, NF, NQ),
                    self.table(self.outer, NC, NF, NQ), self.w.copy())

        def basis_vals(state, region, derivative=None):
            if derivative:
                return (np.stack([self.bd]*NC), self.bod.copy(),
                        self.w.copy())
            return np.stack([self.b]*NC), self.bo.copy(), self.w.copy()

        def facet_basis(derivative=False, basis_only=False):
            if derivative:
                raise Undecided('facet basis')
            out = self.b.transpose(2, 1, 0)[:, None, :, None, :].copy()
            return out if basis_only else (out, self.w[0][..., None])
        bubble = arr([[0, 1], [2, 3]])
        nbr = arr([[[1, 1], [-1, -1]], [[-1, -1], [0, 0]]])
        nbr[0, 0, 1], nbr[1, 1, 1] = 1, 0
        return Obj(None, family_name='volume_DG_legendre_discontinuous',
                   name='f', n_el_nod=ND, n_cell=NC, n_el_facets=NF, dim=DIM,
                   approx_order=sp.Symbol('ord', positive=True),
                   bubble_dofs=bubble, region=Obj(None, name='Omega'),
                   get_cell_normals_per_facet=lambda r: self.n.copy(),
                   get_facet_neighbor_idx=lambda r=None, e=None: nbr.copy(),
                   get_both_facet_state_vals=state_vals,
                   get_both_facet_basis_vals=basis_vals,
                   get_facet_basis=facet_basis)


class Check:
    def __init__(self, ctx):
        self.ctx = ctx

    def term(self, cls, mode, args, flux, matrix=True):
        n0 = self.ctx.counts.get('undecided', 0)
        self.term_at(cls, mode, args, flux, matrix, None)
        if self.ctx.counts.get('undecided', 0) > n0:
            # A branch on the parameters: their special and usual values.
            for v in (Q(2, 5), Q(0), Q(1)):
                self.term_at(cls, mode, args, flux, matrix, {AL: v})

    def term_at(self, cls, mode, args, flux, matrix, at):
        if at is not None:
            args, flux = special(args, at), special(flux, at)
        """args(data) -> material arguments in order; flux(data, c, f, q, d):
        the contribution of the facet to the residual of the test DOF d."""
        key = cls + (':' + mode if mode else '')
        data = Data()
        expected = data.table(lambda c, d: sum(
            data.w[c, f, q]*flux(data, c, f, q, d)
            for f in range(NF) for q in range(NQ)), NC, ND)
        where = None
        try:
            res, where = self.evaluate(cls, mode, args(data), data, None)
        except (Undecided, RecursionError, TypeError, ValueError,
                AttributeError, KeyError, IndexError) as e:
            self.undecided(key + ':residual', e)
            res = None
        if res is not None:
            bad = None
            for c in range(NC):
                for d in range(ND):
                    r = same(res[c, d], expected[c, d])
                    if r is None:
                        self.undecided(key + ':residual', 'equality')
                        continue
                    self.ctx.count('entries')
                    if not r:
                        bad = True
            if bad:
                self.ctx.violation(key + ':residual', 'the residual is not'
                                   ' the integral of the documented'
                                   ' numerical flux', where)
        if not matrix:
            return
        try:
            mtx, where = self.evaluate(cls, mode, args(data), data, 'p')
        except (Undecided, RecursionError, TypeError, ValueError,
                AttributeError, KeyError, IndexError) as e:
            self.undecided(key + ':matrix', e)
            return
        x = list(data.p.ravel())
        own, other = False, False
        for i, e in enumerate(expected.ravel()):
            for j, s in enumerate(x):
                r = same(mtx[i, j], sp.diff(e, s))
                if r is None:
                    self.undecided(key + ':matrix', 'equality')
                    continue
                self.ctx.count('entries')
                if not r:
                    if i // ND == j // ND:
                        own = True
                    else:
                        other = True
        for flag, tag, text in ((own, 'own', 'of the cell'),
                                (other, 'neighbour', 'of the neighbours')):
            if flag:
                self.ctx.violation(key + ':matrix:' + tag, 'the matrix is not'
                                   ' the derivative of the residual w.r.t.'
                                   ' the DOFs ' + text, where)

    def undecided(self, key, e):
        self.ctx.count('undecided')
        self.ctx.note('%s: no closed form (%s)' % (key, e))

    def evaluate(self, cls, mode, args, data, diff_var):
        f = Forms(self.ctx.repo, models={
            'output': lambda *a, **k: None, 'tile_mat': lambda m, n: m})
        c = f.cls(REL, cls)
        field = data.field(f)
        state = Obj(None, field=field, name='p', eq_map=Obj(None),
                    data=[data.p.ravel()])
        test = Obj(None, field=field, name='v', eq_map=Obj(None))
        names = c.member('arg_types')
        this = Obj(c, mode=mode)
        if mode and isinstance(names, tuple) and names \
           and isinstance(names[0], tuple):
            modes = c.member('modes')
            names = names[list(modes).index(mode)]
        vargs = [{'state': state, 'virtual': test}[n] for n in names
                 if n in ('state', 'virtual')]
        fa = c.member('get_fargs')
        fun = c.member('function')
        node = fun.node
        where = '%s:%d (%s.function)' % (REL, node.lineno, cls)
        fargs = f.call(f.attr(this, 'get_fargs'), list(args) + vargs,
                       dict(mode='weak', term_mode=None, diff_var=diff_var))
        out = np.empty((NC, 1, ND, 1), dtype=object)
        out[...] = sp.Integer(0)
        res = f.call(f.attr(this, 'function'), [out] + list(fargs), {})
        val = res[0]
        if diff_var is None:
            return np.asarray(val)[:, 0, :, 0], where
        vals, rows, cols = val[:3]
        mtx = np.zeros((NC*ND, NC*ND), dtype=object)
        if not len(vals) == len(rows) == len(cols):
            raise Undecided('matrix entries')
        for v, i, j in zip(vals, rows, cols):
            mtx[int(i), int(j)] += v
        return mtx, where


def special(fun, at):
    def put(x):
        if isinstance(x, sp.Basic):
            return x.subs(at)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = put(x[i])
            return out
        if isinstance(x, list):
            return [put(y) for y in x]
        return x
    return lambda *a: put(fun(*a))


AL, CW, DD = (sp.Symbol(n, positive=True) for n in ('alpha', 'Cw', 'D'))


def check(c):
    vel = syms('a', NC, DIM)

    def advect(d, ic, f, q, i):
        na = sum(d.n[ic, f, k]*vel[ic, k] for k in range(DIM))
        u, v = d.inner(ic, f, q), d.outer(ic, f, q)
        return (na*(u + v)/2 + (1 - AL)*sp.Abs(na)*(u - v)/2)*d.b[i, f, q]
    c.term('AdvectionDGFluxTerm', None, lambda d: [
        AL, vel[:, None, :, None]], advect)

    dmat = syms('D', NC)[:, None, None, None]

    def avg_state(d, ic, f, q, i):
        return dmat[ic, 0, 0, 0]*d.b[i, f, q]*sum(
            d.n[ic, f, k]*(d.inner_d(ic, f, k, q) + d.outer_d(ic, f, k, q))
            for k in range(DIM))/2

    def avg_virtual(d, ic, f, q, i):
        jump = d.inner(ic, f, q) - d.outer(ic, f, q)
        return dmat[ic, 0, 0, 0]*jump*sum(
            d.n[ic, f, k]*d.bd[i, f, k, q] for k in range(DIM))/2
    c.term('DiffusionDGFluxTerm', 'avg_state', lambda d: [dmat.copy()],
           avg_state)
    c.term('DiffusionDGFluxTerm', 'avg_virtual', lambda d: [dmat.copy()],
           avg_virtual)

    order = sp.Symbol('ord', positive=True)

    def penalty(d, ic, f, q, i):
        jump = d.inner(ic, f, q) - d.outer(ic, f, q)
        area = sum(d.w[ic, f, k] for k in range(NQ))
        return dmat[ic, 0, 0, 0]*CW*order**2/area*jump*d.b[i, f, q]
    c.term('DiffusionInteriorPenaltyTerm', None, lambda d: [
        dmat.copy(), CW], penalty)

    fs = [sp.Function('f%d' % k) for k in range(DIM)]
    ds = [sp.Function('df%d' % k) for k in range(DIM)]

    def applied(funs):
        def g(p):
            out = np.empty(p.shape + (DIM,), dtype=object)
            for i in np.ndindex(*p.shape):
                for k in range(DIM):
                    out[i + (k,)] = funs[k](sp.expand(p[i]))
            return out
        return g

    def speed(d, ic, f):
        return sp.Max(*[sp.Abs(sum(
            d.n[ic, f, k]*ds[k](sp.expand(v)) for k in range(DIM)))
            for q in range(NQ) for v in (d.inner(ic, f, q),
                                         d.outer(ic, f, q))])

    def hyper(d, ic, f, q, i):
        u, v = sp.expand(d.inner(ic, f, q)), sp.expand(d.outer(ic, f, q))
        avg = sum(d.n[ic, f, k]*(fs[k](u) + fs[k](v))
                  for k in range(DIM))/2
        return (avg + (1 - AL)*speed(d, ic, f)*(u - v)/2)*d.b[i, f, q]
    c.term('NonlinearHyperbolicDGFluxTerm', None, lambda d: [
        arr([AL]), applied(fs), applied(ds)], hyper, matrix=False)


def run(ctx):
    if not os.path.exists(os.path.join(ctx.repo, REL)):
        raise AnalysisBroken('no ' + REL)
    c = Check(ctx)
    check(c)
    ctx.floor('entries', 30)
