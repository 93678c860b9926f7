"""S01: the time stepping solvers implement their schemes."""
import os

import numpy as np
import sympy as sp

from ..core import AnalysisBroken
from ..formal import (Forms, Function, Obj, Undecided, arr, same, same_arrays,
                      inv)

EXPLANATION = (
    'The step of each time stepping solver is reduced, from its syntax tree,'
    ' to closed forms in the previous state, the time step, the scheme'
    ' parameters and the unknown of the nonlinear solver: the residual that is'
    ' solved is compared with the momentum balance of the scheme, its tangent'
    ' with the derivative of the residual, the new state with the kinematic'
    ' relations of the scheme, the times of the data with the sub-steps, and'
    ' the explicit multi-stage methods with their stability polynomials.')
RULE = 'one obligation per solver, mode and relation of its scheme'
ASSUMPTIONS = [
    'the equations are split to the elastic, damping and mass parts depending'
    ' on displacements (and extra variables), velocities and accelerations',
    'the nonlinear and linear solvers solve the systems given to them',
    'accuracy and stability of the schemes themselves are not judged']

ED = 'sfepy/solvers/ts_solvers.py'
DG = 'sfepy/solvers/ts_dg_solvers.py'
TS = 'sfepy/solvers/ts.py'

H, T = sp.symbols('h t', positive=True)
U, V, A, EX = sp.symbols('u0 v0 a0 e0')
HALF = sp.Rational(1, 2)


class Physics:
    """Forces k(u, e), c(v), m(a) of one degree of freedom, the coupled extra
    equation x(u, e) and the load."""

    def __init__(self, linear, extra):
        self.linear, self.extra = linear, extra
        q = 0 if linear else 1
        self.k1, self.k3, self.c1, self.c2, self.m1, self.m2 = [
            sp.Symbol(n) * (q if n in ('k3', 'c2', 'm2') else 1)
            for n in ('k1', 'k3', 'c1', 'c2', 'm1', 'm2')]
        self.ke, self.xu, self.xe = sp.symbols('ke xu xe')
        self.load = sp.Symbol('P')
        self.q = q

    def k(self, u, e):
        out = self.k1*u + self.k3*u**3 - self.load
        return out + self.ke*e if self.extra else out

    def c(self, v):
        return self.c1*v + self.c2*v**2

    def m(self, a):
        return self.m1*a + self.m2*a**3

    def x(self, u, e):
        return self.xu*u + self.xe*e*(1 + self.q*e)

    def split(self, vec):
        if len(vec) != (4 if self.extra else 3):
            raise Undecided('state vector')
        if self.extra:
            return tuple(vec)
        return vec[0], sp.Integer(0), vec[1], vec[2]

    def fun(self, vec):
        u, e, v, a = self.split(vec)
        out = [self.k(u, e)]
        if self.extra:
            out.append(self.x(u, e))
        return arr(out + [self.c(v), self.m(a)])

    def fun_grad(self, vec):
        n = 4 if self.extra else 3
        s = sp.symbols('s0:%d' % n)
        f = self.fun(arr(list(s)))
        j = sp.Matrix([[sp.diff(f[i], s[k]) for k in range(n)]
                       for i in range(n)])
        if vec is None:
            if not self.linear:
                raise Undecided('no state for the matrix')
            at = {}
        else:
            at = dict(zip(s, vec))
        return arr(j.subs(at, simultaneous=True).tolist())


class Solver:
    """One time stepping solver prepared for the evaluation of its step."""

    def __init__(self, repo, name, linear, extra=False, conf=None, rel=ED,
                 rmm=False):
        f = self.f = Forms(repo, models={
            'output': lambda *a, **k: None,
            'output_array_stats': lambda *a, **k: None,
            'Struct': lambda **kw: Obj(None, **kw)})
        self.rel, self.name = rel, name
        self.solves = []
        self.prestep_times = []
        self.ph = Physics(linear, extra)
        tsc = f.cls(TS, 'TimeStepper')
        self.ts = Obj(tsc, time=T, dt=H, step=5, n_step=10, n_digit=2, t0=0,
                      t1=1, step_start_time=None)
        tsc.over['from_conf'] = lambda conf: self.ts
        self.cls = f.cls(rel, name)
        self.lin = Obj(None, copy=lambda: self.lin, clear=lambda: None)
        self.lin.attrs['__call__'] = self.solve_linear
        if rmm:
            self.lin.cls = f.cls('sfepy/solvers/ls.py', 'RMMSolver')
        self.nls = Obj(None, fun=self.ph.fun, fun_grad=self.ph.fun_grad,
                       lin_solver=self.lin, iter_hook=None, status=None,
                       context=None)
        self.nls.attrs['copy'] = self.copy_nls
        attrs = dict(is_linear=linear, verbose=False, quasistatic=False,
                     has_time_derivatives=False, var_names=None)
        attrs.update(conf or {})
        self.conf = Obj(None, **attrs)
        base = f.cls('sfepy/solvers/solvers.py', 'TimeSteppingSolver')
        base.over['__init__'] = self.init_base
        plain = f.cls('sfepy/solvers/solvers.py', 'NonlinearSolver')
        plain.over['__init__'] = self.init_nls

    def init_base(self, this, conf, **kw):
        this.attrs.update(conf=self.conf, verbose=False, nls=self.nls,
                          tsc=Obj(self.f.cls(
                              'sfepy/solvers/ts_controllers.py', 'FixedTSC')))

    def init_nls(self, this, conf, **kw):
        this.attrs.update(kw)

    def make(self):
        return self.f.call(self.cls, [self.conf], {'nls': self.nls})

    def copy_nls(self):
        new = Obj(None, **self.nls.attrs)
        new.attrs['__call__'] = lambda x0: self.solve(new, x0)
        return new

    def solve(self, nls, x0):
        """Keep the system that is solved, return the unknown."""
        k = len(self.solves)
        n = len(x0)
        x = arr([sp.Symbol('x%d_%d' % (k, i)) for i in range(n)])
        fun, grad = nls.attrs['fun'], nls.attrs['fun_grad']
        r = self.f.call(fun, [x.copy()], {})
        j = self.f.call(grad, [x.copy()], {})
        self.solves.append((x, r, j, self.ts.attrs['time']))
        return x.copy()

    def solve_linear(self, rhs, mtx=None, **kw):
        x = arr([sp.Symbol('y%d_%d' % (len(self.solves), i))
                 for i in range(len(rhs))])
        self.solves.append((x, -rhs, mtx, self.ts.attrs['time']))
        return x.copy()

    def prestep(self, ts, vec):
        self.prestep_times.append(self.ts.attrs['time'])
        return vec

    def packing(self):
        n = 1 if self.ph.extra else 0
        indx = {'u': slice(0, 1), 'v': slice(1 + n, 2 + n),
                'a': slice(2 + n, 3 + n)}
        di = Obj(None, indx=indx, n_dof={'u': 1, 'v': 1, 'a': 1},
                 n_dof_total=3 + n)
        fun = self.f.function(self.rel, 'gen_multi_vec_packing')
        # The solver tells whether it handles other variables, too.
        kind = self.cls.member('extra_variables')
        return fun(di, {'u': 'u', 'du': 'v', 'ddu': 'a'}, bool(kind))

    def step(self):
        self.this = self.make()
        unpack, pack = self.packing()
        vec = arr([U, EX, V, A] if self.ph.extra else [U, V, A])
        if self.ph.linear:
            # Constant matrices are set up with the initial accelerations.
            e0 = arr([EX]) if self.ph.extra else arr([])
            self.f.call(self.f.attr(self.this, 'get_a0'),
                        [self.nls, arr([U]), e0, arr([V]), unpack], {})
            del self.solves[:]
        kw = {'prestep_fun': self.prestep}
        m = self.f.attr(self.this, 'step')
        out = self.f.call(m, [self.ts, vec, self.nls, pack, unpack], kw)
        return self.ph.split(out)

    def where(self, fun):
        c = self.cls.member(fun)
        node = c.node if isinstance(c, Function) else self.cls.node
        return '%s:%d (%s.%s)' % (self.rel, node.lineno, self.name, fun)


class Check:
    def __init__(self, ctx):
        self.ctx = ctx

    def group(self, key, make, where):
        """make() gives (name, value, expected, message) items."""
        try:
            items = list(make())
        except (Undecided, RecursionError, TypeError, ValueError,
                AttributeError, KeyError, IndexError) as e:
            self.ctx.count('undecided')
            self.ctx.note('%s: no closed form (%s)' % (key, e))
            return
        for name, got, exp, msg in items:
            try:
                if np.ndim(got) or np.ndim(exp):
                    r = same_arrays(got, exp)
                else:
                    r = same(got, exp)
            except (Undecided, TypeError, ValueError) as e:
                r = None
            if r is None:
                self.ctx.count('undecided')
                self.ctx.note('%s:%s: equality not decided' % (key, name))
                continue
            self.ctx.count('relations')
            if not r:
                self.ctx.violation(key + ':' + name, msg, where)


def single(s):
    if len(s.solves) != 1:
        raise Undecided('number of solved systems')
    return s.solves[0]


def tangent(x, r, j):
    """(value, expected) of the tangent matrix."""
    n = len(x)
    j = np.asarray(j, dtype=object)
    if j.shape != (n, n):
        raise Undecided('tangent')
    exp = arr([[sp.diff(r[i], x[k]) for k in range(n)] for i in range(n)])
    return j, exp


MSG_T = 'the tangent matrix is not the derivative of the residual'
MSG_R = 'the residual is not the momentum balance of the scheme'


def newmark_like(s, beta, gamma, am=0, af=0, va=None, tangent_exact=True):
    ph = s.ph
    u1, e1, v1, a1 = s.step()
    x, r, j, time = single(s)
    yield 'u', u1, U + H*V + H**2*((HALF - beta)*A + beta*a1), \
        'the new displacements are not those of the scheme'
    yield 'v', v1, V + H*((1 - gamma)*A + gamma*a1), \
        'the new velocities are not those of the scheme'
    um = (1 - af)*u1 + af*U
    vm = (1 - af)*v1 + af*V if va is None else va
    amid = (1 - am)*a1 + am*A
    yield 'r', r[0], ph.k(um, e1) + ph.c(vm) + ph.m(amid), MSG_R
    if ph.extra:
        yield 're', r[1], ph.x(um, e1), 'the residual of the extra variables' \
            ' is not that of the new state'
    j, exp = tangent(x, r, j)
    yield 't', j, exp, MSG_T
    yield 'time', time, T - af*H, 'the balance is not taken at the time of' \
        ' the scheme'
    yield 'restored', s.ts.attrs['time'], T, 'the time of the step is not' \
        ' restored'


def check_elastodynamics(c):
    repo = c.ctx.repo
    be, ga, am, af, rho = sp.symbols('beta gamma alpha_m alpha_f rho')
    for linear in (True, False):
        tag = 'linear' if linear else 'nonlinear'

        s = Solver(repo, 'VelocityVerletTS', linear)
        c.group('verlet:' + tag, lambda: newmark_like(
            s, sp.Integer(0), HALF, va=V + H/2*A), s.where('step'))

        s2 = Solver(repo, 'CentralDifferenceTS', linear)
        c.group('central:' + tag, lambda: newmark_like(
            s2, sp.Integer(0), HALF), s2.where('step'))

        for extra in (False, True):
            s3 = Solver(repo, 'NewmarkTS', linear, extra,
                        conf=dict(beta=be, gamma=ga))
            c.group('newmark:%s%s' % (tag, ':extra' if extra else ''),
                    lambda: newmark_like(s3, be, ga), s3.where('step'))

        s4 = Solver(repo, 'GeneralizedAlphaTS', linear, conf=dict(
            beta=be, gamma=ga, alpha_m=am, alpha_f=af, rho_inf=rho))
        c.group('galpha:' + tag, lambda: newmark_like(s4, be, ga, am, af),
                s4.where('step'))
        f = rho/(rho + 1)
        m = (2*rho - 1)/(rho + 1)
        s5 = Solver(repo, 'GeneralizedAlphaTS', linear, conf=dict(
            beta=None, gamma=None, alpha_m=None, alpha_f=None, rho_inf=rho))
        c.group('galpha:default:' + tag, lambda: newmark_like(
            s5, (1 - m + f)**2/4, HALF - m + f, m, f), s5.where('__init__'))

        s6 = Solver(repo, 'BatheTS', linear)
        c.group('bathe:' + tag, lambda: bathe(s6), s6.where('step'))

    s = Solver(repo, 'CentralDifferenceTS', True, rmm=True)
    c.group('central:rmm', lambda: rmm(s), s.where('create_nlst'))

    for name in ('NewmarkTS', 'VelocityVerletTS'):
        for extra in (False, True):
            if extra and name != 'NewmarkTS':
                continue
            s7 = Solver(repo, name, False, extra,
                        conf=dict(beta=be, gamma=ga))
            c.group('a0:%s%s' % (name, ':extra' if extra else ''),
                    lambda: initial(s7), s7.where('get_a0'))


def rmm(s):
    ph = s.ph
    u1, e1, v1, a1 = s.step()
    x, r, j, time = single(s)
    yield 'u', u1, U + H*V + H**2/2*A, 'the new displacements are not those' \
        ' of the scheme'
    yield 'v', v1, V + H/2*(A + a1), 'the new velocities are not those of the' \
        ' scheme'
    yield 'a', a1, x[0], 'the new accelerations are not the solution'
    yield 'r', r[0], ph.k(u1, 0), 'the accelerations do not balance the' \
        ' elastic and external forces of the new state'


def bathe(s):
    ph = s.ph
    u2, _, v2, a2 = s.step()
    if len(s.solves) != 2:
        raise Undecided('number of solved systems')
    (x1, r1, j1, t1), (x2, r2, j2, t2) = s.solves
    h = H/2
    u1 = x1[0]
    v1 = 2/h*(u1 - U) - V
    a1 = 2/h*(v1 - V) - A
    yield 'r1', r1[0], ph.k(u1, 0) + ph.c(v1) + ph.m(a1), 'the first' \
        ' sub-step is not the trapezoidal rule of the half time step'
    j, exp = tangent(x1, r1, j1)
    yield 't1', j, exp, 'the first sub-step: ' + MSG_T
    u = x2[0]
    v = (U - 4*u1 + 3*u)/H
    a = (V - 4*v1 + 3*v)/H
    yield 'u', u2, u, 'the new displacements are not the solution'
    yield 'v', v2, v, 'the new velocities are not the three-point difference'
    yield 'a', a2, a, 'the new accelerations are not the three-point' \
        ' difference'
    yield 'r2', r2[0], ph.k(u, 0) + ph.c(v) + ph.m(a), 'the second sub-step' \
        ' is not the three-point backward Euler method'
    j, exp = tangent(x2, r2, j2)
    yield 't2', j, exp, 'the second sub-step: ' + MSG_T
    yield 'time1', t1, T - h, 'the first sub-step is not taken in the middle' \
        ' of the time step'
    yield 'time2', t2, T, 'the second sub-step is not taken at the end of the' \
        ' time step'
    if len(s.prestep_times) == 2:
        yield 'data1', s.prestep_times[0], T - h, 'the data of the first' \
            ' sub-step are not those of the middle of the time step'
    yield 'data2', s.prestep_times[-1], T, 'the data of the second sub-step' \
        ' are not those of the end of the time step'
    yield 'restored', s.ts.attrs['time'], T, 'the time of the step is not' \
        ' restored'


def initial(s):
    ph = s.ph
    this = s.make()
    unpack, pack = s.packing()
    e0 = arr([EX]) if ph.extra else arr([])
    a0 = s.f.call(s.f.attr(this, 'get_a0'),
                  [s.nls, arr([U]), e0, arr([V]), unpack], {})
    x, r, mtx, time = single(s)
    yield 'a', a0, x, 'the initial accelerations are not the solution'
    yield 'r', r[0], ph.k(U, EX) + ph.c(V), 'the initial accelerations do' \
        ' not balance the forces of the initial state'
    yield 'm', np.asarray(mtx, dtype=object), arr(
        [[sp.diff(ph.m(A), A).subs(A, 0)]]), 'the initial accelerations are' \
        ' not determined by the mass matrix'


# Explicit multi-stage methods.

def stages(repo, name):
    s = Solver(repo, name, True, rel=DG)
    lam = sp.Symbol('l')
    mass = sp.Symbol('m')
    state = sp.Symbol('y')

    def lin_solver(rhs, mtx=None, **kw):
        return np.dot(inv(mtx), rhs)
    lin = Obj(None, get_tolerance=lambda: (None, None))
    lin.attrs['__call__'] = lin_solver
    # The residual of the equations: mass * (x - l x).
    nls = Obj(None, lin_solver=lin, fun=lambda x: mass*(x - lam*x),
              fun_grad=lambda x: arr([[mass]]))
    this = Obj(s.cls, conf=s.conf, verbose=False, stage_format='?',
               post_stage_hook=lambda x: x)
    out = s.f.call(s.f.attr(this, 'solve_step'), [s.ts, nls, arr([state])],
                   {'prestep_fun': s.prestep, 'poststep_fun': None,
                    'status': None})
    return s, out, state, lam


def check_multistage(c):
    z = sp.Symbol('l')*H
    for name, order in (('EulerStepSolver', 1), ('TVDRK3StepSolver', 3),
                        ('RK4StepSolver', 4)):
        poly = sum(z**k/sp.factorial(k) for k in range(order + 1))

        def facts():
            s, out, y, lam = stages(c.ctx.repo, name)
            yield 'growth', out[0], y*poly, 'a step is not the %d-th order' \
                ' Runge-Kutta step of the semidiscrete problem' % order
            if name == 'TVDRK3StepSolver':
                for t in s.prestep_times:
                    yield 'data', t, T - H/2, 'the data of the third stage' \
                        ' are not those of the middle of the time step'
            yield 'restored', s.ts.attrs['time'], T, 'the time of the step' \
                ' is not restored'
        try:
            where = Solver(c.ctx.repo, name, True, rel=DG).where('solve_step')
        except Undecided as e:
            c.ctx.note('%s: %s' % (name, e))
            c.ctx.count('undecided')
            continue
        c.group('stages:' + name, facts, where)


def run(ctx):
    for rel in (ED, DG, TS):
        if not os.path.exists(os.path.join(ctx.repo, rel)):
            raise AnalysisBroken('no ' + rel)
    c = Check(ctx)
    check_elastodynamics(c)
    check_multistage(c)
    ctx.floor('relations', 20)
