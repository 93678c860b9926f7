"""
T06: native matrix operations compute the documented contractions; native term
kernels compute their integrals, and their matrices are the derivatives.
"""
import itertools
import re
from fractions import Fraction

from .. import ckernels as CK
from .. import cloops
from .. import tensors as T
from ..cfe import Program
from ..core import AnalysisBroken

EXPLANATION = (
    'The loop nests of native matrix operations are turned into equations of'
    ' array elements (pointer increments, strides, loop bounds and'
    ' accumulation resolved symbolically for a choice of different sizes) and'
    ' compared element by element with the documented contraction. On top of'
    ' them, each term kernel is interpreted on arrays that are sums of'
    ' products of named factors with index variables, in one general cell of'
    ' its loop (work arrays start with the values of the previous cell): the'
    ' result must be the documented integral for each value of the flag, in'
    ' dimension 2 and 3, with different numbers of basis functions of each'
    ' variable; the matrix must be the derivative of the formula of the'
    ' residual with respect to the DOFs of the variable.')
RULE = ('one obligation per element of the result of a matrix operation; per'
        ' kernel, flag value and dimension')
ASSUMPTIONS = [
    'the documented formulas, read once into the tables of the rule',
    'sizes: results for the chosen distinct sizes stand for all sizes',
    'arguments of kernels are laid out as their Python callers document',
]

LONG = {'n': 7, 'm': 8, 'c': 9, 'r': 10, 'x': 11}
NLEV = 2

# name: (shapes of the FMField parameters, formula). d: dimension, s: symmetric
# storage, n, m: basis functions, c, r, x: any; :1 has one level (quadrature
# point), :q as many values as levels, * all cells, $ a number. i.j: row by
# row, i~j: symmetric storage.
HELPERS = {
    'fmf_mulC': ('r c, $', 'obj[r,c] = val obj[r,c]'),
    'fmfc_mulC': ('r c*, $', 'obj[r,c] = val obj[r,c]'),
    'fmf_mul': ('r c, :q', 'obj[r,c] = val obj[r,c]'),
    'fmf_mulAC': ('r c, r c, $', 'objR[r,c] = val objA[r,c]'),
    'fmf_mulATC': ('c r, r c, $', 'objR[c,r] = val objA[r,c]'),
    'fmf_mulAF': ('r c, r c, :q', 'objR[r,c] = val objA[r,c]'),
    'fmf_mulATF': ('c r, r c, :q', 'objR[c,r] = val objA[r,c]'),
    'fmf_mulAB_nn': ('r c, r x, x c', 'objR[r,c] = objA[r,x] objB[x,c]'),
    'fmf_mulAB_n1': ('r c, r x, x c:1', 'objR[r,c] = objA[r,x] objB[x,c]'),
    'fmf_mulAB_1n': ('r c, r x:1, x c', 'objR[r,c] = objA[r,x] objB[x,c]'),
    'fmf_mulATB_nn': ('r c, x r, x c', 'objR[r,c] = objA[x,r] objB[x,c]'),
    'fmf_mulATB_1n': ('r c, x r:1, x c', 'objR[r,c] = objA[x,r] objB[x,c]'),
    'fmf_mulABT_nn': ('r c, r x, c x', 'objR[r,c] = objA[r,x] objB[c,x]'),
    'fmf_mulATBT_nn': ('r c, x r, c x', 'objR[r,c] = objA[x,r] objB[c,x]'),
    'fmf_mulATBT_1n': ('r c, x r:1, c x', 'objR[r,c] = objA[x,r] objB[c,x]'),
    'fmf_addAB_nn': ('r c, r c, r c', 'objR[r,c] = objA[r,c] + objB[r,c]'),
    'fmf_subAB_nn': ('r c, r c, r c', 'objR[r,c] = objA[r,c] - objB[r,c]'),
    'fmfc_addAB_nn': ('r c*, r c*, r c*',
                      'objR[r,c] = objA[r,c] + objB[r,c]'),
    'fmf_averageCACB': ('r c, $, r c, $, r c',
                        'objR[r,c] = c1 objA[r,c] + c2 objB[r,c]'),
    'fmfc_averageCACB': ('r c*, $, r c*, $, r c*',
                         'objR[r,c] = c1 objA[r,c] + c2 objB[r,c]'),
    'fmf_addAmulF': ('r c, r c, :q',
                     'objR[r,c] = objR[r,c] + val objA[r,c]'),
    'fmf_copyAmulC': ('r c, r c, $', 'objR[r,c] = val objA[r,c]'),
    'fmf_sumLevelsMulF': ('r c:1, r c, :q', 'objR[r,c] = val objA[r,c]'),
    'fmf_sumLevelsTMulF': ('c r:1, r c, :q', 'objR[c,r] = val objA[r,c]'),
    'bf_act': ('e 1, 1 n, e n:1', 'out[i] = bf[a] in[i,a]'),
    'bf_ract': ('r e*n, 1 n, r e', 'out[r,i.a] = in[r,i] bf[a]'),
    'bf_actt': ('e*n c, 1 n, e c', 'out[i.a,c] = bf[a] in[i,c]'),
    'bf_actt_c1': ('e*n 1, 1 n, e 1', 'out[i.a] = bf[a] in[i]'),
    'bf_buildFTF': ('d*n d*m, n m', 'ftf[i.a,j.b] = I[i,j] ftf1[a,b]'),
    'form_sdcc_strainCauchy_VS': ('s 1, d d', 'strain[i+j] = dg[i,j]'),
    'form_sdcc_actOpGT_VS3': ('d*n 1, d n, s 1',
                              'diff[i.a] = gc[j,a] vec[i~j]'),
    'form_sdcc_actOpGT_M3': ('d*n c, d n, s c',
                             'diff[i.a,c] = gc[j,a] mtx[i~j,c]'),
    'form_sdcc_actOpG_RM3': ('r d*n, r s, d n',
                             'diff[r,i.a] = mtx[r,i~j] gc[j,a]'),
    'build_nonsym_grad': ('d*d d*n, d n', 'out[i.j,k.a] = I[i,k] gc[j,a]'),
    'op_nonsym_biot': ('d*n 1, d*d 1, d n', 'diff[i.a] = mtx[j.i] gc[j,a]',
                       ('1 d*n, d*d 1, d n',)),
    'laplace_build_gtg': ('n n, d n', 'out[a,b] = gc[i,a] gc[i,b]'),
    'laplace_act_g_m': ('d 1, d n, n 1', 'out[i] = gc[i,a] mtx[a]'),
    'laplace_act_gt_m': ('n c, d n, d c', 'out[a,c] = gc[i,a] mtx[i,c]'),
    'divgrad_build_gtg': ('d*n d*m, d n, d m',
                          'out[i.a,j.b] = I[i,j] gcv[k,a] gcs[k,b]'),
    'divgrad_act_g_m': ('d*d c, d n, d*n c',
                        'out[i.j,c] = gc[j,a] mtx[i.a,c]'),
    'divgrad_act_gt_m': ('d*n c, d n, d*d c',
                         'out[i.a,c] = gc[j,a] mtx[i.j,c]'),
    'divgrad_act_bg_m': ('d*d c, d n, d*n c',
                         'out[j.i,c] = gc[j,a] mtx[i.a,c]'),
    # writes only the diagonal blocks
    'convect_build_vtg': ('d d*n, d n, d 1',
                          'out[i,j.a] = I[i,j] gc[k,a] fv[k]', (), 'zero'),
    'convect_build_vtbg': ('d d*n, d n, d 1',
                           'out[i,j.a] = gc[i,a] fv[j]'),
    'geme_mulAVSB3': ('d c, s 1, d c', 'out[r,c] = vs[r~x] in[x,c]'),
    'sub_mul_gradddgrad_scalar': (
        '1 1, d*d 1, d*d 1, 1 1',
        'out = out - scalar grad1[i.j] grad2[j.i]'),
    'actBfT': ('n*d c*, 1 n*, d c*', 'out[a.i,c] = bf[a] A[i,c]'),
}


# not available in these dimensions
LIMITED = {('op_nonsym_biot', 1), ('divgrad_act_bg_m', 1),
           ('divgrad_act_bg_m', 2)}


def sym_index(i, j, d):
    if i == j:
        return i
    i, j = min(i, j), max(i, j)
    return {(0, 1): d, (0, 2): d + 1, (1, 2): d + 2}[(i, j)]


class Spec:
    def __init__(self, params, shapes, formula, d):
        self.d = d
        self.sizes = dict(LONG, d=d, e=d, s=d * (d + 1) // 2)
        self.shape = {}
        for name, sh in zip(params, [x.strip() for x in shapes.split(',')]):
            cells = 1
            if sh.endswith('*'):
                sh, cells = sh[:-1], 2
            if sh == '$':
                self.shape[name] = '$'
                continue
            lev = NLEV
            if sh == ':q':
                self.shape[name] = ('q',)
                continue
            if ':' in sh:
                sh, lv = sh.split(':')
                lev = int(lv)
            ax = [x.split('*') for x in sh.split()]
            self.shape[name] = (cells, lev, ax)
        lhs, rhs = formula.split('=')
        self.lhs = self.access(lhs.strip())
        self.terms = []
        sign = 1
        for tok in re.split(r'\s([+-])\s', ' ' + rhs.strip()):
            if tok in '+-':
                sign = 1 if tok == '+' else -1
                continue
            self.terms.append((sign, [self.access(x) for x in tok.split()]))

    @staticmethod
    def access(s):
        m = re.match(r'(\w+)(?:\[(.*)\])?$', s)
        return m.group(1), (m.group(2).split(',') if m.group(2) else [])

    def size(self, name, k):
        return 1 if k == '1' else self.sizes[k]

    def n(self, ax):
        out = 1
        for k in ax:
            out *= self.size(None, k)
        return out

    def dims(self, name):
        cells, lev, ax = self.shape[name]
        return cells, lev, self.n(ax[0]), self.n(ax[1])

    def ranges(self):
        rng = {}

        def see(name, groups):
            if name == 'I':
                return
            sh = self.shape[name]
            if sh == '$' or sh == ('q',):
                return
            axes = [a for a in sh[2] if a != ['1']]
            if len(axes) != len(groups):
                raise AnalysisBroken('bad formula')
            for g, a in zip(groups, axes):
                v = re.findall(r'\w', g)
                if '~' in g or '+' in g:
                    a = ['d', 'd']
                for x, k in zip(v, a):
                    if len(v) != len(a):
                        raise AnalysisBroken('bad formula')
                    rng[x] = self.sizes[k]
        see(*self.lhs)
        for _, fs in self.terms:
            for f in fs:
                see(*f)
        return rng

    def offset(self, acc, idx, cell, lev):
        name, groups = acc
        sh = self.shape[name]
        if sh == '$':
            return 0
        if sh == ('q',):
            return lev
        cells, nl, axes = sh
        it = iter(groups)
        pos = []
        for a in axes:
            if a == ['1']:
                pos.append((0, 1))
                continue
            g = next(it)
            v = re.findall(r'\w', g)
            if '~' in g or '+' in g:
                pos.append((sym_index(idx[v[0]], idx[v[1]], self.d),
                            self.sizes['s']))
            else:
                o = 0
                for x, k in zip(v, a):
                    o = o * self.sizes[k] + idx[x]
                pos.append((o, self.n(a)))
        (r, nr), (c, nc) = pos
        return ((((cell if cells > 1 else 0) * nl
                  + (lev if nl > 1 else 0)) * nr + r) * nc) + c

    def expected(self):
        rng = self.ranges()
        out = {}
        cells, nl, _ = self.shape[self.lhs[0]]
        lev = max([s[1] for s in self.shape.values()
                   if s != '$' and len(s) == 3])
        names = sorted(rng)
        plus = any('+' in g for g in self.lhs[1])
        lvars = set(re.findall(r'\w', ','.join(self.lhs[1])))
        for cell in range(cells):
            for q in range(lev):
                for sign, fs in self.terms:
                    used = lvars | {x for f in fs for g in f[1]
                                    for x in re.findall(r'\w', g)}
                    vs = [x for x in names if x in used]
                    for pt in itertools.product(*[range(rng[x])
                                                  for x in vs]):
                        idx = dict(zip(vs, pt))
                        o = self.offset(self.lhs, idx, cell, q)
                        cur = out.setdefault((self.lhs[0], o), {})
                        if any(f[0] == 'I' and idx[f[1][0]] != idx[f[1][1]]
                               for f in fs):
                            continue
                        mono = tuple(sorted(
                            (f[0], self.offset(f, idx, cell, q))
                            for f in fs if f[0] != 'I'))
                        cur[mono] = cur.get(mono, 0) + Fraction(sign)
        return out


def check_helper(ctx, prog, name, shapes, formula, alts=(), flag=''):
    for alt in alts:
        check_helper(ctx, prog, name, alt, formula)
    fn = prog.func(name)
    if fn is None:
        ctx.note('helper %s is gone' % name)
        return
    params = [p[0] for p in fn.params]
    ds = (1, 2, 3) if re.search(r'\b[des]\b', shapes) else (3,)
    for d in ds:
        sp = Spec(params, shapes, formula, d)
        args = []
        for p in params:
            sh = sp.shape.get(p)
            if sh == '$':
                args.append(cloops.Poly([(Fraction(1),
                                          ((p, cloops.Aff.c(0)),), ())]))
            elif sh == ('q',):
                args.append(cloops.Ptr(p, cloops.Aff.c(0)))
            else:
                args.append(cloops.Field(p, sp.dims(p)))
        try:
            an = cloops.Loops(fn, args)
            got = an.equations()
        except cloops.Wrong as exc:
            ctx.violation('T06:helper:%s' % name,
                          '%s() in dimension %d does not compute %s: %s'
                          % (name, d, formula, exc), fn.where())
            continue
        except cloops.Undecided as exc:
            ctx.count('undecided_helpers')
            ctx.note('%s (dimension %d): %s' % (name, d, exc))
            continue
        if an.reported:
            ctx.count('reported_dimensions')
            if (name, d) not in LIMITED:
                ctx.violation('T06:helper:%s' % name,
                              '%s() reports an error for sizes %s in'
                              ' dimension %d' % (name, shapes, d),
                              fn.where())
            continue
        ctx.count('helper_equations', len(got))
        ctx.count('helpers_in_dimensions')
        exp = sp.expected()
        out = sp.lhs[0]
        bad = None
        for key in sorted(set(exp) | set(got)):
            g = got.get(key)
            e = exp.get(key, None)
            if g is None:
                g = {} if key[0] in an.filled or flag == 'zero' \
                    else {(key,): Fraction(1)}
            if e is None:
                bad = 'element %d of %s is written outside of the result' \
                    % (key[1], key[0])
                break
            if g != e:
                cells, nl, nr, nc = sp.dims(out)
                r, c = divmod(key[1] % (nr * nc), nc)
                bad = 'element (%d, %d) of %s is %s, the formula gives %s' \
                    % (r, c, out, show(g), show(e))
                break
        if bad:
            ctx.violation('T06:helper:%s' % name,
                          '%s() in dimension %d does not compute %s: %s'
                          % (name, d, formula, bad), fn.where())


def show(p):
    if not p:
        return '0'
    return ' + '.join(('' if c == 1 else '%s ' % c)
                      + ' '.join('%s(%d)' % f for f in m)
                      for m, c in sorted(p.items())[:4])


# ------------------------------------------------------------------ kernels
# name, parameters after the result (shape, @n: mapping with n basis
# functions, $: a number, %: the flag, ~: connectivity, #: cells, -: not used, u: nodal
# values), cases: flag value -> (rows [| columns], formula) or
# (rows | columns, case, rule) for the derivative of a case.
S = 's'
KERNELS = [
    ('dw_laplace', 'grad:d 1, coef:1 1, vg@n, %',
     {0: ('a', 'vg.bfGM[i,a] coef grad[i] vg.det'),
      1: ('a|b', 0, 'grad[i] -> vg.bfGM[i,b]')}),
    ('d_laplace', 'grad1:d 1, grad2:d 1, coef:1 1, vg@n',
     {0: ('', 'grad1[i] coef grad2[i] vg.det')}),
    ('dw_diffusion', 'grad:d 1, D:d d, vg@n, %',
     {0: ('a', 'vg.bfGM[i,a] D[i,j] grad[j] vg.det'),
      1: ('a|b', 0, 'grad[j] -> vg.bfGM[j,b]')}),
    ('d_diffusion', 'grad1:d 1, grad2:d 1, D:d d, vg@n',
     {0: ('', 'grad1[i] D[i,j] grad2[j] vg.det')}),
    ('d_sd_diffusion', 'q:d 1, p:d 1, w:d d, divw:1 1, D:d d, vg@n',
     {0: ('', 'divw q[i] D[i,j] p[j] vg.det - q[i] w[j,i] D[j,k] p[k] vg.det'
          ' - q[i] D[i,j] w[j,k] p[k] vg.det')}),
    ('dw_diffusion_r', 'D:d 1, vg@n',
     {0: ('a', 'vg.bfGM[i,a] D[i] vg.det')}),
    ('d_surface_flux', 'grad:d 1, D:d d, sg@n, %',
     {0: ('', 'sg.normal[i] D[i,j] grad[j] sg.det'),
      1: ('', 'sg.normal[i] D[i,j] grad[j] sg.det 1/sg.volume')}),
    ('dw_surface_flux', 'grad:d 1, D:d d, bf:1 n, sg@n, -, -, -, %',
     {0: ('a', 'bf[a] sg.normal[i] D[i,j] grad[j] sg.det'),
      1: ('a|b', 0, 'grad[j] -> sg.bfGM[j,b]')}),
    ('dw_convect_v_grad_s', 'v:d 1, grad:d 1, vvg@n, svg@m, %',
     {0: ('a', 'svg.bf[a] v[i] grad[i] vvg.det'),
      1: ('a|b', 0, 'grad[i] -> svg.bfGM[i,b]'),
      2: ('a|i.b', 0, 'v[i] -> vvg.bf[b]')}),
    ('dw_surface_v_dot_n_s', 'coef:1 1, val:1 1, rsg@n, csg@m, %',
     {0: ('i.a', 'rsg.bf[a] rsg.normal[i] coef val rsg.det'),
      1: ('i.a|b', 0, 'val -> csg.bf[b]')}),
    ('dw_surface_s_v_dot_n', 'coef:1 1, val:d 1, rsg@n, csg@m, %',
     {0: ('a', 'rsg.bf[a] rsg.normal[i] coef val[i] rsg.det'),
      1: ('a|i.b', 0, 'val[i] -> csg.bf[b]')}),
    ('dw_volume_dot_vector', 'coef:1 1, val:d 1, rvg@n, cvg@m, %',
     {0: ('i.a', 'rvg.bf[a] coef val[i] rvg.det'),
      1: ('i.a|j.b', 0, 'val[i] -> I[i,j] cvg.bf[b]')}),
    ('dw_volume_dot_vector', 'coef:d d, val:d 1, rvg@n, cvg@m, %',
     {0: ('i.a', 'rvg.bf[a] coef[i,j] val[j] rvg.det'),
      1: ('i.a|j.b', 0, 'val[j] -> cvg.bf[b]')}),
    ('dw_volume_dot_scalar', 'coef:1 1, val:1 1, rvg@n, cvg@m, %',
     {0: ('a', 'rvg.bf[a] coef val rvg.det'),
      1: ('a|b', 0, 'val -> cvg.bf[b]')}),
    ('dw_v_dot_grad_s_vw', 'coef:1 1, grad:d 1, vvg@n, svg@m, %',
     {0: ('i.a', 'vvg.bf[a] coef grad[i] vvg.det'),
      1: ('i.a|b', 0, 'grad[i] -> svg.bfGM[i,b]')}),
    ('dw_v_dot_grad_s_vw', 'coef:d d, grad:d 1, vvg@n, svg@m, %',
     {0: ('i.a', 'vvg.bf[a] coef[i,j] grad[j] vvg.det'),
      1: ('i.a|b', 0, 'grad[j] -> svg.bfGM[j,b]')}),
    ('dw_v_dot_grad_s_sw', 'coef:1 1, val:d 1, vvg@n, svg@m, %',
     {0: ('a', 'svg.bfGM[i,a] coef val[i] vvg.det'),
      1: ('a|i.b', 0, 'val[i] -> vvg.bf[b]')}),
    ('dw_v_dot_grad_s_sw', 'coef:d d, val:d 1, vvg@n, svg@m, %',
     {0: ('a', 'svg.bfGM[i,a] coef[j,i] val[j] vvg.det'),
      1: ('a|j.b', 0, 'val[j] -> vvg.bf[b]')}),
    ('dw_lin_elastic', 'coef:$, strain:s 1, D:s s, vg@n, %',
     {0: ('i.a', 'coef vg.bfGM[j,a] D[i~j,X] strain[X] vg.det'),
      1: ('i.a|k.b', 0, 'strain[k~l] -> vg.bfGM[l,b]')}),
    ('d_lin_elastic', 'coef:$, sv:s 1, su:s 1, D:s s, vg@n',
     {0: ('', 'coef sv[X] D[X,Y] su[Y] vg.det')}),
    ('dw_lin_prestress', 'stress:s 1, vg@n',
     {0: ('i.a', 'vg.bfGM[j,a] stress[i~j] vg.det')}),
    ('dw_lin_prestress', 'stress:d*d 1, vg@n',
     {0: ('i.a', 'vg.bfGM[j,a] stress[i.j] vg.det')}),
    ('dw_lin_strain_fib', 'D:s s, mat:s 1, vg@n',
     {0: ('i.a', 'vg.bfGM[j,a] D[i~j,X] mat[X] vg.det')}),
    ('de_cauchy_strain', 'strain:s 1, vg@n, %',
     {0: ('X', 'strain[X] vg.det'), 1: ('X', 'strain[X] vg.det 1/vg.volume')}),
    ('de_cauchy_stress', 'strain:s 1, D:s s, vg@n, %',
     {0: ('X', 'D[X,Y] strain[Y] vg.det'),
      1: ('X', 'D[X,Y] strain[Y] vg.det 1/vg.volume')}),
    ('dw_nonsym_elastic', 'grad:d*d 1, D:d*d d*d, vg@n, %',
     {0: ('i.a', 'vg.bfGM[j,a] D[i.j,k.l] grad[k.l] vg.det'),
      1: ('i.a|k.b', 0, 'grad[k.l] -> vg.bfGM[l,b]')}),
    ('dw_biot_grad', 'coef:$, p:1 1, D:s 1, svg@m, vvg@n, %',
     {0: ('i.a', 'coef vvg.bfGM[j,a] D[i~j] p vvg.det'),
      1: ('i.a|b', 0, 'p -> svg.bf[b]')}),
    ('dw_biot_grad', 'coef:$, p:1 1, D:d*d 1, svg@m, vvg@n, %',
     {0: ('i.a', 'coef vvg.bfGM[j,a] D[j.i] p vvg.det'),
      1: ('i.a|b', 0, 'p -> svg.bf[b]')}),
    ('dw_biot_div', 'coef:$, strain:s 1, D:s 1, svg@m, vvg@n, %',
     {0: ('a', 'coef svg.bf[a] D[X] strain[X] vvg.det'),
      1: ('a|k.b', 0, 'strain[k~l] -> vvg.bfGM[l,b]')}),
    ('dw_biot_div', 'coef:$, grad:d*d 1, D:d*d 1, svg@m, vvg@n, %',
     {0: ('a', 'coef svg.bf[a] D[j.i] grad[j.i] vvg.det'),
      1: ('a|i.b', 0, 'grad[j.i] -> vvg.bfGM[j,b]')}),
    ('d_biot_div', 'coef:$, p:1 1, strain:s 1, D:s 1, vg@n',
     {0: ('', 'coef p D[X] strain[X] vg.det')}),
    ('term_ns_asm_div_grad', 'grad:d*d 1, coef:1 1, vgv@n, vgs@m, %',
     {0: ('i.a', 'vgv.bfGM[j,a] coef grad[i.j] vgv.det'),
      1: ('i.a|k.b', 0, 'grad[i.j] -> I[i,k] vgs.bfGM[j,b]')}),
    ('term_ns_asm_convect', 'grad:d d, u:d 1, vg@n, %',
     {0: ('i.a', 'vg.bf[a] grad[i,j] u[j] vg.det'),
      1: ('i.a|k.b', 0, 'grad[i,j] -> I[i,k] vg.bfGM[j,b]; '
          'u[j] -> I[j,k] vg.bf[b]')}),
    ('dw_lin_convect', 'grad:d d, u:d 1, vg@n, %',
     {0: ('i.a', 'vg.bf[a] grad[i,j] u[j] vg.det'),
      1: ('i.a|k.b', 0, 'grad[i,j] -> I[i,k] vg.bfGM[j,b]'),
      2: ('i:q', 'grad[i,j] u[j]')}),
    ('dw_div', 'coef:1 1, div:1 1, svg@m, vvg@n, %',
     {0: ('a', 'svg.bf[a] coef div vvg.det'),
      1: ('a|i.b', 0, 'div -> vvg.bfGM[i,b]')}),
    ('dw_grad', 'coef:1 1, p:1 1, svg@m, vvg@n, %',
     {0: ('i.a', 'vvg.bfGM[i,a] coef p vvg.det'),
      1: ('i.a|b', 0, 'p -> svg.bf[b]')}),
    ('dw_st_pspg_c', 'b:d 1, U:u n, coef:1 1, vgp@m, vgu@n, ~, #, n, %',
     {0: ('a', 'vgp.bfGM[i,a] coef b[j] vgu.bfGM[j,c] U[i,c] vgu.det'),
      1: ('a|k.b', 0, 'U[i,c] -> I[i,k] I[c,b]')}),
    ('dw_st_supg_p', 'b:d 1, grad:d 1, coef:1 1, vgu@n, vgp@m, %',
     {0: ('i.a', 'coef b[j] vgu.bfGM[j,a] grad[i] vgu.det'),
      1: ('i.a|b', 0, 'grad[i] -> vgp.bfGM[i,b]')}),
    ('dw_st_supg_c', 'b:d 1, U:u n, coef:1 1, vg@n, ~, #, n, %',
     {0: ('i.a', 'b[k] vg.bfGM[k,a] coef b[j] vg.bfGM[j,c] U[i,c] vg.det'),
      1: ('i.a|l.b', 0, 'U[i,c] -> I[i,l] I[c,b]')}),
    ('dw_st_grad_div', 'div:1 1, coef:1 1, vg@n, %',
     {0: ('i.a', 'vg.bfGM[i,a] coef div vg.det'),
      1: ('i.a|k.b', 0, 'div -> vg.bfGM[k,b]')}),
    ('dw_adj_convect1', 'w:d 1, grad:d d, vg@n, %',
     {0: ('i.a', 'vg.bf[a] grad[i,j] w[j] vg.det'),
      1: ('i.a|j.b', 0, 'w[j] -> vg.bf[b]')}),
    ('dw_adj_convect2', 'w:d 1, u:d 1, vg@n, %',
     {0: ('i.a', 'w[i] u[j] vg.bfGM[j,a] vg.det'),
      1: ('i.a|k.b', 0, 'w[i] -> I[i,k] vg.bf[b]')}),
    ('dw_st_adj_supg_c', 'W:u n, u:d 1, grad:d d, coef:1 1, vg@n, ~, #, n, %',
     {0: ('i.a', 'coef vg.bf[a] vg.bfGM[i,c] W[k,c] grad[k,j] u[j] vg.det + '
          'coef vg.bf[a] grad[i,k] u[j] vg.bfGM[j,c] W[k,c] vg.det'),
      1: ('i.a|l.b', 0, 'W[k,c] -> I[k,l] I[c,b]')}),
    ('dw_st_adj1_supg_p', 'W:u n, grad:d 1, coef:1 1, vg@n, ~, #, n, %',
     {0: ('i.a', 'coef vg.bf[a] vg.bfGM[i,c] W[k,c] grad[k] vg.det'),
      1: ('i.a|l.b', 0, 'W[k,c] -> I[k,l] I[c,b]')}),
    ('dw_st_adj2_supg_p', 'grad:d d, R:r m, coef:1 1, vgu@n, vgr@m, ~, #, m,'
     ' %',
     {0: ('i.a', 'coef vgu.bf[a] grad[j,i] vgr.bfGM[j,c] R[c] vgu.det'),
      1: ('i.a|b', 0, 'R[c] -> I[c,b]')}),
    ('d_of_nsMinGrad', 'grad:d*d 1, nu:1 1, vg@n',
     {0: ('', '0.5 nu grad[i.j] grad[i.j] vg.det')}),
    ('d_of_nsSurfMinDPress', 'p:1 1, w:$, bp:$, sg@n, %',
     {0: ('', 'w p sg.det - w bp sg.det'),
      1: ('a', 0, 'p -> sg.bf[a]')}),
    ('d_sd_div', 'divu:1 1, gradu:d*d 1, p:1 1, divw:1 1, gradw:d*d 1, vg@n,'
     ' %',
     {0: ('', 'p divu vg.det'),
      1: ('', 'p divu divw vg.det - p gradu[i.j] gradw[j.i] vg.det')}),
    ('d_sd_div_grad', 'gradu:d*d 1, gradv:d*d 1, divw:1 1, gradw:d*d 1, '
     'nu:1 1, vg@n, %',
     {0: ('', 'nu gradu[i.j] gradv[i.j] vg.det'),
      1: ('', 'nu gradu[i.j] gradv[i.j] divw vg.det'
          ' - nu gradu[i.k] gradw[k.j] gradv[i.j] vg.det'
          ' - nu gradv[i.k] gradw[k.j] gradu[i.j] vg.det')}),
    ('d_sd_convect', 'u:d 1, gradu:d*d 1, v:d 1, divw:1 1, gradw:d*d 1, '
     'vg@n, %',
     {0: ('', 'v[i] gradu[i.j] u[j] vg.det'),
      1: ('', 'v[i] gradu[i.j] u[j] divw vg.det'
          ' - v[i] gradu[i.k] gradw[k.j] u[j] vg.det')}),
    ('d_sd_volume_dot', 'p:1 1, q:1 1, divw:1 1, vg@n, %',
     {0: ('', 'p q vg.det'), 1: ('', 'p q divw vg.det')}),
    ('d_sd_volume_dot', 'p:d 1, q:d 1, divw:1 1, vg@n, %',
     {0: ('', 'p[i] q[i] vg.det'), 1: ('', 'p[i] q[i] divw vg.det')}),
    ('d_sd_st_grad_div', 'divu:1 1, gradu:d*d 1, divv:1 1, gradv:d*d 1, '
     'divw:1 1, gradw:d*d 1, coef:1 1, vg@n, %',
     {0: ('', 'coef divu divv vg.det'),
      1: ('', 'coef divu divv divw vg.det'
          ' - coef gradu[i.j] gradw[j.i] divv vg.det'
          ' - coef gradv[i.j] gradw[j.i] divu vg.det')}),
    ('d_sd_st_supg_c', 'b:d 1, gradu:d d, gradv:d d, divw:1 1, gradw:d d, '
     'coef:1 1, vg@n, %',
     {0: ('', 'coef gradu[i,j] b[j] gradv[i,k] b[k] vg.det'),
      1: ('', 'coef gradu[i,j] b[j] gradv[i,k] b[k] divw vg.det'
          ' - coef gradu[i,l] gradw[l,j] b[j] gradv[i,k] b[k] vg.det'
          ' - coef gradu[i,j] b[j] gradv[i,l] gradw[l,k] b[k] vg.det')}),
    ('d_sd_st_pspg_c', 'b:d 1, gradu:d d, gradr:d 1, divw:1 1, gradw:d d, '
     'coef:1 1, vg@n, %',
     {0: ('', 'coef gradr[i] gradu[i,j] b[j] vg.det'),
      1: ('', 'coef gradr[i] gradu[i,j] b[j] divw vg.det'
          ' - coef gradr[k] gradw[k,i] gradu[i,j] b[j] vg.det'
          ' - coef gradr[i] gradu[i,k] gradw[k,j] b[j] vg.det')}),
    ('d_sd_st_pspg_p', 'gradr:d 1, gradp:d 1, divw:1 1, gradw:d d, coef:1 1,'
     ' vg@n, %',
     {0: ('', 'coef gradr[i] gradp[i] vg.det'),
      1: ('', 'coef gradr[i] gradp[i] divw vg.det'
          ' - coef gradr[k] gradw[k,i] gradp[i] vg.det'
          ' - coef gradp[k] gradw[k,i] gradr[i] vg.det')}),
    ('dw_piezo_coupling', 'strain:s 1, grad:d 1, G:d s, vg@n, svg@m, %',
     {0: ('i.a', 'vg.bfGM[j,a] G[k,i~j] grad[k] vg.det'),
      1: ('i.a|b', 0, 'grad[k] -> svg.bfGM[k,b]'),
      2: ('a', 'svg.bfGM[k,a] G[k,X] strain[X] vg.det'),
      3: ('a|p.b', 2, 'strain[p~l] -> vg.bfGM[l,b]')}),
    ('d_piezo_coupling', 'strain:s 1, grad:d 1, G:d s, vg@n',
     {0: ('', 'grad[k] G[k,X] strain[X] vg.det')}),
    ('dw_electric_source', 'grad:d 1, coef:1 1, vg@n',
     {0: ('a', 'vg.bf[a] coef grad[i] grad[i] vg.det')}),
    ('dw_surface_ltr', 't:1 1, sg@n',
     {0: ('i.a', 'sg.bf[a] t sg.normal[i] sg.det')}),
    ('dw_surface_ltr', 't:d 1, sg@n', {0: ('i.a', 'sg.bf[a] t[i] sg.det')}),
    ('dw_surface_ltr', 't:s 1, sg@n',
     {0: ('i.a', 'sg.bf[a] t[i~j] sg.normal[j] sg.det')}),
    ('dw_volume_lvf', 'f:d 1, vg@n', {0: ('i.a', 'vg.bf[a] f[i] vg.det')}),
    ('dw_volume_lvf', 'f:1 1, vg@n', {0: ('a', 'vg.bf[a] f vg.det')}),
    ('dq_state_in_qp', 'U:u n, -, bf:1 n, ~, #, n',
     {0: ('i:q', 'bf[a] U[i,a]')}),
    ('dq_grad', 'U:u n, -, vg@n, ~, #, n',
     {0: ('j|i:q', 'vg.bfGM[j,a] U[i,a]')}),
    ('dq_div_vector', 'U:u n, -, vg@n, ~, #, n',
     {0: (':q', 'vg.bfGM[i,a] U[i,a]')}),
    ('d_volume_surface', 'X:u n, sg@n, ~, #, n',
     {0: ('', '1/d sg.bf[a] X[i,a] sg.normal[i] sg.det')}),
    ('di_surface_moment', 'X:u n, sg@n, ~, #, n',
     {0: ('i|j', 'sg.normal[i] sg.bf[a] X[j,a] sg.det')}),
    ('mulAB_integrate', 'A:x n, B:x m, vg@n, %',
     {0: ('a|b', 'A[x,a] B[x,b] vg.det')}),
    ('mulAB_integrate', 'A:n x, B:x m, vg@n, %',
     {1: ('a|b', 'A[a,x] B[x,b] vg.det')}),
    ('mulAB_integrate', 'A:n x, B:m x, vg@n, %',
     {2: ('a|b', 'A[a,x] B[b,x] vg.det')}),
    ('mulAB_integrate', 'A:x n, B:m x, vg@n, %',
     {3: ('a|b', 'A[x,a] B[b,x] vg.det')}),
]
ESIZE = {'n': 7, 'm': 11, 'x': 13}


class KernelSpec:
    def __init__(self, params, dim):
        self.dim = dim
        self.sizes = dict(ESIZE, d=dim, s=dim * (dim + 1) // 2)
        self.params = [x.strip() for x in params.split(',')]
        self.shape = {}
        for p in self.params:
            if '@' in p:
                name, n = p.split('@')
                for m, sh in (('bf', '1 n'), ('bfGM', 'd n'),
                              ('det', '1 1'), ('normal', 'd 1'),
                              ('volume', '1 1')):
                    self.shape['%s.%s' % (name, m)] = \
                        sh.replace('n', n).split()
                self.shape['1/%s.volume' % name] = ['1', '1']
            elif ':' in p:
                name, sh = p.split(':')
                if sh == '$':
                    self.shape[name] = ['1', '1']
                elif sh.startswith('u '):
                    self.shape[name] = ['d', sh[2:]]
                elif sh.startswith('r '):
                    self.shape[name] = ['1', sh[2:]]
                else:
                    self.shape[name] = sh.split()

    def size(self, ax):
        n = 1
        for k in ax.split('*'):
            n *= 1 if k == '1' else self.sizes[k]
        return n

    def named(self, name):
        axes, idx = [], []
        for ax in self.shape[name]:
            if ax == '1':
                axes.append(())
                continue
            t = tuple(T.new(self.sizes[k]) for k in ax.split('*'))
            axes.append(t)
            idx.append(t)
        return T.Arr(axes, [(Fraction(1), ((name, tuple(idx)),))])

    def args(self, flag):
        out = []
        for p in self.params:
            if p == '%':
                out.append(flag)
            elif p == '-':
                out.append(CK.Unknown())
            elif p == '~':
                out.append(CK.Conn())
            elif p == '#':
                out.append(CK.NCELL)
            elif p in self.sizes:
                out.append(self.sizes[p])
            elif '@' in p:
                name = p.split('@')[0]
                mem = {}
                for m in ('bf', 'bfGM', 'det', 'normal', 'volume'):
                    full = '%s.%s' % (name, m)
                    lev = 1 if m == 'volume' else CK.NQP
                    sh = [self.size(x) for x in self.shape[full]]
                    mem[m] = CK.Fld(full, (lev,) + tuple(sh),
                                    CK.Buf(full, lev, self.named(full)))
                out.append(CK.Map(name, mem))
            else:
                name, sh = p.split(':')
                if sh == '$':
                    out.append(CK.scalar(name))
                    continue
                dims = tuple(self.size(x) for x in self.shape[name])
                lev = 1 if sh[:2] in ('u ', 'r ') else CK.NQP
                out.append(CK.Fld(name, (lev,) + dims,
                                  CK.Buf(name, lev, self.named(name))))
        return out

    # formulas
    def parse(self, formula):
        """[(coefficient, [(name, [group])])]"""
        out, sign = [], 1
        for tok in CK.split_terms(formula):
            if tok in '+-':
                sign = 1 if tok == '+' else -1
                continue
            c, fs = Fraction(sign), []
            for f in tok.split():
                if f == '1/d':
                    c /= self.dim
                elif re.match(r'[\d.]+$', f):
                    c *= Fraction(f)
                else:
                    fs.append(CK.access(f))
            out.append((c, fs))
        return out

    def derive(self, terms, rules):
        out = []
        for rule in rules.split(';'):
            lhs, rhs = [x.strip() for x in rule.split('->')]
            name, pat = CK.access(lhs)
            rep = [CK.access(f) for f in rhs.split()]
            for c, fs in terms:
                for k, (f, gr) in enumerate(fs):
                    if f != name:
                        continue
                    rest = fs[:k] + fs[k + 1:]
                    m = {}
                    for g, p in zip(gr, pat):
                        if '~' in p and '~' not in g:
                            # storage index replaced by a pair
                            rest = [(n, [p if x == g else x for x in ix])
                                    for n, ix in rest]
                        else:
                            m.update(zip(re.findall(r'\w', p),
                                         re.findall(r'\w', g)))
                    new = [(n, [''.join(m.get(ch, ch) for ch in x)
                                for x in ix]) for n, ix in rep]
                    out.append((c, rest + new))
        return out

    def build(self, rows, cols, terms):
        """Array of a formula."""
        res = None
        for c, fs in terms:
            var, facs = {}, []

            def v(ch, n):
                if ch not in var:
                    var[ch] = T.new(n)
                elif T.SIZE[var[ch]] != n:
                    raise AnalysisBroken('size of %s in %s' % (ch, fs))
                return var[ch]
            for name, gr in fs:
                if name == 'I':
                    facs.append((name, gr))
                    continue
                axes = [a for a in self.shape[name] if a != '1']
                if len(axes) != len(gr):
                    raise AnalysisBroken('indices of %s' % name)
                idx = []
                for a, g in zip(axes, gr):
                    ch = re.findall(r'\w', g)
                    if '~' in g:
                        idx.append(('s',) + tuple(v(x, self.dim)
                                                  for x in ch))
                    else:
                        idx.append(tuple(v(x, self.sizes[k]) for x, k
                                         in zip(ch, a.split('*'))))
                facs.append((name, tuple(idx)))
            fin = []
            for name, ix in facs:
                if name == 'I':
                    a, b = ix
                    n = T.SIZE[var[a]] if a in var else \
                        T.SIZE[var[b]] if b in var else self.dim
                    fin.append(('I', ((v(a, n),), (v(b, n),))))
                else:
                    fin.append((name, ix))
            axes = [tuple(var[x] for x in re.findall(r'\w', g))
                    for g in (rows, cols)]
            arr = T.Arr(axes, [(c, tuple(fin))])
            res = arr if res is None else T.add(res, arr)
        return res


def letters_of(terms):
    return {ch for _, fs in terms for _, g in fs for x in g
            for ch in re.findall(r'\w', x)}


def formula_text(spec, terms):
    out = ''
    for c, fs in terms:
        t = ' '.join(n + ('[%s]' % ','.join(g) if g else '') for n, g in fs)
        out += '%s%s%s' % (' - ' if c < 0 else ' + ' if out else '',
                           '' if abs(c) == 1 else '%s ' % abs(c), t)
    return out


def check_kernel(ctx, prog, name, params, cases):
    fn = prog.func(name)
    if fn is None:
        ctx.note('kernel %s is gone' % name)
        return
    for dim in (2, 3):
        spec = KernelSpec(params, dim)
        if len(fn.params) != len(spec.params) + 1:
            ctx.note('%s: parameters have changed, not compared' % name)
            ctx.count('undecided_kernels')
            return
        forms = {}
        for flag in sorted(cases):
            case = cases[flag]
            axes = case[0]
            atq = axes.endswith(':q')
            rows, cols = (axes.split(':')[0] + '|').split('|')[:2]
            if len(case) == 3:
                used = letters_of(forms[case[1]])
                if used & (set(re.findall(r'\w', cols))
                           - set(re.findall(r'\w', case[2].split('->')[0]))
                           ):
                    raise AnalysisBroken('indices of %s' % name)
            if len(case) == 2:
                terms = spec.parse(case[1])
            else:
                terms = spec.derive(forms[case[1]], case[2])
            forms[flag] = terms
            exp = spec.build(rows, cols, terms)
            lev = CK.NQP if atq else 1
            dims = (lev, exp.size(exp.axes[0]), exp.size(exp.axes[1]))
            out = CK.Fld('out', dims, CK.Buf('out', lev, None))
            what = 'matrix' if len(case) == 3 else 'result'
            try:
                kr = CK.Kernel(prog, fn, [out] + spec.args(flag), HELPERS,
                               dim)
                got = out.read()
            except CK.Wrong as exc:
                if not report(ctx, fn, name, flag, what, dim,
                              forms, spec, terms, str(exc), params):
                    continue
                continue
            except (CK.Undecided, T.Undecided, AttributeError,
                    TypeError) as exc:
                ctx.count('undecided_kernels')
                ctx.note('%s (%s): %s' % (name, what, exc))
                continue
            ctx.count('kernel_formulas')
            ctx.count('matrix_formulas' if what == 'matrix'
                      else 'result_formulas')
            ctx.count('matrix_operations', kr.calls)
            a, b = T.canon(got), T.canon(exp)
            if a != b:
                report(ctx, fn, name, flag, what, dim, forms, spec, terms,
                       'the kernel computes %s' % T.show(a), params)


def report(ctx, fn, name, flag, what, dim, forms, spec, terms, msg, params):
    mode = '' if '%' not in params else ' with flag %s' % flag
    ctx.violation('T06:kernel:%s:%s' % (name, what),
                  '%s()%s: the %s has to be %s (%s, dimension %d): %s'
                  % (name, mode, what, formula_text(spec, terms),
                     params, dim, msg), fn.where())


def run(ctx):
    prog = Program(ctx.repo)
    for name, entry in HELPERS.items():
        check_helper(ctx, prog, name, *entry)
    for entry in KERNELS:
        check_kernel(ctx, prog, *entry)
    ctx.floor('helpers_in_dimensions', 60)
    ctx.floor('kernel_formulas', 150)
    ctx.sample('dw_div_grad(), matrix of the residual: grad[i,j] ->'
               ' I[i,k] svg.bfGM[j,b]')
