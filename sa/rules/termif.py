"""T01: declared term arguments, get_fargs(), and the evaluation functions."""
import ast

from .. import pyfe
from ..pyflow import Flow
from .pyxmem import program as pyx_program

EXPLANATION = (
    'For every term class: the declared argument rows and modes, the methods'
    ' preparing the arguments and shapes (found through the linearised bases)'
    ' and the evaluation function selected for each mode are compared. The'
    ' argument preparation is interpreted abstractly per (row, evaluation'
    ' mode, residual/tangent) to get the length and the kind (mapping, array,'
    ' number) of every returned argument tuple, which has to match the'
    ' signature of the selected function, Cython or Python.')
RULE = ('one obligation per (term, argument row, mode, residual/tangent): all'
        ' return tuples of the preparation against the selected function')
ASSUMPTIONS = ['a term function receives the output array followed by the'
               ' prepared arguments, as in the base class dispatcher']

MAPCALLS = {'get_mapping', 'get_current_mapping'}


class Unknown(Exception):
    pass


class Sig:
    def __init__(self, name, lo, hi, params, types, where):
        self.name, self.lo, self.hi = name, lo, hi
        self.params, self.types, self.where = params, types, where
        self.forward = None


def py_sig(fn, bound):
    ps = list(fn.params)
    if bound:
        ps = ps[1:]
    lo = len(ps) - fn.n_default
    hi = 10**6 if fn.vararg else len(ps)
    types = ['fun' if x in called_names(fn) else None for x in ps]
    sig = Sig(fn.qual, lo, hi, ps, types, fn.where())
    sig.forward = forwarding(fn, ps)
    return sig


def called_names(fn):
    """Parameters that are called whatever the path and never rebound."""
    called = set()
    for st in fn.node.body:
        if isinstance(st, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign)):
            called |= {x.func.id for x in ast.walk(st)
                       if isinstance(x, ast.Call)
                       and isinstance(x.func, ast.Name)}
        elif any(isinstance(x, (ast.Return, ast.Raise))
                 for x in ast.walk(st)):
            break
    stored = {x.id for x in pyfe.own_nodes(fn)
              if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return called - stored


def forwarding(fn, ps):
    """
    (index of the called parameter, [index | '*']) of a dispatcher: a function
    whose only call of a parameter passes its other parameters on.
    """
    calls = [x for x in pyfe.own_nodes(fn) if isinstance(x, ast.Call)
             and isinstance(x.func, ast.Name) and x.func.id in ps]
    stored = {x.id for x in pyfe.own_nodes(fn)
              if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if len(calls) != 1 or calls[0].keywords:
        return None
    c = calls[0]
    out = []
    for a in c.args:
        if isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) \
           and a.value.id == fn.vararg and a.value.id not in stored:
            out.append('*')
        elif isinstance(a, ast.Name) and a.id in ps and a.id not in stored:
            out.append(ps.index(a.id))
        else:
            out.append(None)
    if c.func.id in stored:
        return None
    return ps.index(c.func.id), out


class Fun:
    """Kind of a callable with a known signature."""

    def __init__(self, sig):
        self.sig = sig

    def __eq__(self, other):
        return isinstance(other, Fun) and self.sig.name == other.sig.name

    def __hash__(self):
        return hash(self.sig.name)

    def __repr__(self):
        return 'Fun(%s)' % self.sig.name


def pyx_sigs(repo):
    px = pyx_program(repo)
    out = {}
    for rel, fns in px.funcs.items():
        if not rel.endswith('terms.pyx'):
            continue
        for f in fns:
            if f.kind != 'def' or f.cls:
                continue
            ps = [a.name for a in f.args]
            lo = sum(1 for a in f.args if a.default is None)
            ty = []
            for a in f.args:
                b = a.base or ''
                if b == 'CMapping':
                    ty.append('map')
                elif 'ndarray' in b:
                    ty.append('array')
                elif b in ('int32', 'uint32', 'int'):
                    ty.append('int')
                elif b in ('float64', 'double'):
                    ty.append('num')
                else:
                    ty.append(None)
            out[f.name] = Sig(f.name, lo, len(ps), ps, ty, f.where())
    return out


class Fargs(Flow):
    """Kinds of local names and the returned tuples, for one configuration."""
    sigs = None

    def __init__(self, pp, cls, fn, conf, depth=0):
        self.pp, self.cls, self.fn, self.conf = pp, cls, fn, conf
        self.depth = depth
        self.rets = []        # (node, list of kinds or None)
        self.raises = 0

    # expression kinds
    def kind(self, n, env):
        """'map' 'array' 'int' 'num' 'none' ('tuple', kinds) or None."""
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Constant):
            if n.value is None:
                return 'none'
            if isinstance(n.value, bool) or isinstance(n.value, int):
                return 'int'
            if isinstance(n.value, float):
                return 'num'
            return None
        if isinstance(n, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                out = []
                for e in n.elts:
                    if isinstance(e, ast.Starred):
                        k = self.kind(e.value, env)
                        if not (isinstance(k, tuple) and k[0] == 'tuple'):
                            return None
                        out += list(k[1])
                    else:
                        out.append(self.kind(e, env))
                return ('tuple', tuple(out))
            return ('tuple', tuple(self.kind(e, env) for e in n.elts))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = self.kind(n.left, env), self.kind(n.right, env)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return ('tuple', a[1] + b[1])
            if 'array' in (a, b):
                return 'array'
            return None
        if isinstance(n, ast.BinOp):
            a, b = self.kind(n.left, env), self.kind(n.right, env)
            if 'array' in (a, b):
                return 'array'
            return None
        if isinstance(n, ast.Compare):
            return None
        if isinstance(n, ast.Attribute) and n.attr == 'cmap':
            return 'map'
        if isinstance(n, ast.Attribute) and self.cls is not None \
           and self.sigs is not None:
            return self.funkind(n)
        if isinstance(n, ast.IfExp):
            a, b = self.kind(n.body, env), self.kind(n.orelse, env)
            return a if a == b else None
        if isinstance(n, ast.Subscript):
            k = self.kind(n.value, env)
            if isinstance(k, tuple) and isinstance(n.slice, ast.Constant) \
               and isinstance(n.slice.value, int) \
               and -len(k[1]) <= n.slice.value < len(k[1]):
                return k[1][n.slice.value]
            if isinstance(k, tuple) and isinstance(n.slice, ast.Slice):
                def cv(x):
                    if x is None:
                        return None
                    if isinstance(x, ast.Constant):
                        return x.value
                    if isinstance(x, ast.UnaryOp) \
                       and isinstance(x.operand, ast.Constant):
                        return -x.operand.value
                    return 'x'
                lo, hi = cv(n.slice.lower), cv(n.slice.upper)
                if 'x' not in (lo, hi) and n.slice.step is None:
                    return ('tuple', k[1][lo:hi])
                return None
            if k == 'array':
                return None
            return None
        if isinstance(n, ast.Call):
            nm = pyfe.call_name(n)
            if nm in MAPCALLS:
                return ('tuple', ('map', None))
            d = pyfe.dotted(n.func) or ''
            if d.startswith('nm.') and nm in (
                    'array', 'zeros', 'ones', 'empty', 'zeros_like',
                    'ones_like', 'empty_like', 'ascontiguousarray', 'eye',
                    'repeat', 'tile', 'transpose', 'asarray'):
                return 'array'
            if d == 'self.get' and len(n.args) >= 2 and isinstance(
                    n.args[1], ast.Constant) and n.args[1].value in (
                    'val', 'grad', 'div', 'cauchy_strain'):
                return 'array'
            if d in ('tuple', 'list') and len(n.args) == 1:
                k = self.kind(n.args[0], env)
                return k if isinstance(k, tuple) else None
            # self.helper(...) / Parent.get_fargs(self, ...) / super()
            g = self.callee(n)
            if g is not None and self.depth < 3:
                ks = summary(self.pp, self.cls, g, self.passed(g, n),
                             self.depth + 1)
                if len(ks) == 1:
                    return next(iter(ks))
            return None
        return None

    def funkind(self, n):
        """Methods and native functions used as values."""
        d = pyfe.dotted(n)
        if d is None:
            return None
        if d.startswith('self.') and d.count('.') == 1:
            k, v = self.cls.find_attr(d[5:])
            if isinstance(v, pyfe.Func) and not any(
                    (pyfe.dotted(x) or '') not in ('staticmethod',
                                                   'classmethod')
                    for x in v.node.decorator_list):
                return Fun(py_sig(v, not v.is_static))
            return None
        r = resolve_fun(self.pp, self.fn.cls or self.cls, self.cls, n,
                        self.sigs, False)
        return Fun(r) if isinstance(r, Sig) else None

    def passed(self, g, call):
        """Configuration of a callee: which mode it is really given."""
        if 'mode' not in g.params:
            return self.conf
        i = g.params.index('mode')
        args = list(call.args)
        explicit = args and isinstance(args[0], ast.Name) \
            and args[0].id == 'self'
        if not g.is_static and not explicit:
            i -= 1
        val = args[i] if 0 <= i < len(args) else None
        for k in call.keywords:
            if k.arg == 'mode':
                val = k.value
        if isinstance(val, ast.Name) and val.id == 'mode':
            return self.conf
        conf = dict(self.conf)
        conf['mode'] = val.value if isinstance(val, ast.Constant) else None
        return conf

    def callee(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'self':
                return self.cls.find(f.attr)
            if isinstance(f.value, ast.Call) \
               and isinstance(f.value.func, ast.Name) \
               and f.value.func.id == 'super' and self.fn.cls is not None:
                mro = self.cls.mro()
                try:
                    i = mro.index(self.fn.cls)
                except ValueError:
                    return None
                for c in mro[i + 1:]:
                    if f.attr in c.methods:
                        return c.methods[f.attr]
                return None
            t = self.pp.resolve_expr(self.fn.module, f.value)
            if isinstance(t, pyfe.Class):
                return t.find(f.attr)
        return None

    # flow
    def env(self, s):
        return dict(s)

    def bind(self, t, k, env):
        if isinstance(t, ast.Name):
            if k is None:
                env.pop(t.id, None)
            else:
                env[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            ks = k[1] if isinstance(k, tuple) and len(k[1]) == len(t.elts) \
                else [None] * len(t.elts)
            for e, kk in zip(t.elts, ks):
                self.bind(e, kk, env)

    def stmt(self, n, s):
        env = dict(s)
        if isinstance(n, ast.Assign):
            k = self.kind(n.value, env)
            for t in n.targets:
                self.bind(t, k, env)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                cur = env.get(n.target.id)
                k = self.kind(n.value, env)
                if isinstance(cur, tuple) and isinstance(k, tuple) \
                   and isinstance(n.op, ast.Add):
                    env[n.target.id] = ('tuple', cur[1] + k[1])
                elif isinstance(cur, tuple):
                    env.pop(n.target.id)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) \
                and isinstance(n.value.func, ast.Attribute) \
                and isinstance(n.value.func.value, ast.Name):
            v = n.value.func.value.id
            cur = env.get(v)
            if isinstance(cur, tuple):
                m = n.value.func.attr
                if m == 'append' and n.value.args:
                    env[v] = ('tuple', cur[1] + (self.kind(n.value.args[0],
                                                           env),))
                elif m == 'extend' and n.value.args:
                    k = self.kind(n.value.args[0], env)
                    if isinstance(k, tuple):
                        env[v] = ('tuple', cur[1] + k[1])
                    else:
                        env.pop(v)
                elif m in ('insert', 'pop', 'remove', 'clear'):
                    env.pop(v)
        return {tuple(sorted(env.items(), key=lambda kv: kv[0]))}

    def bind_for(self, n, s):
        env = dict(s)
        self.bind(n.target, None, env)
        return {tuple(sorted(env.items(), key=lambda kv: kv[0]))}

    def branch(self, test, s, val):
        v = self.truth(test)
        if v is None or v == val:
            return {s}
        return set()

    def truth(self, t):
        try:
            return bool(self.ceval(t))
        except Unknown:
            return None

    def ceval(self, n):
        """Constant evaluation over the configuration."""
        if isinstance(n, ast.Constant):
            return n.value
        d = pyfe.dotted(n)
        if d == 'mode' and self.conf['mode'] is not None:
            return self.conf['mode']
        if d == 'self.mode' and self.conf['self_mode'] is not None:
            return self.conf['self_mode']
        if d == 'diff_var':
            raise Unknown
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return [self.ceval(e) for e in n.elts]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op, r = n.ops[0], n.comparators[0]
            if pyfe.dotted(n.left) == 'diff_var':
                if isinstance(r, ast.Constant) and r.value is None:
                    isnone = not self.conf['diff']
                    if isinstance(op, (ast.Is, ast.Eq)):
                        return isnone
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        return not isnone
                raise Unknown
            a, b = self.ceval(n.left), self.ceval(r)
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            if isinstance(op, ast.In):
                return a in b
            if isinstance(op, ast.NotIn):
                return a not in b
        if isinstance(n, ast.Subscript):
            v = self.ceval(n.value)
            sl = n.slice
            if isinstance(sl, ast.Slice):
                f = lambda x: None if x is None else self.ceval(x)
                return v[f(sl.lower):f(sl.upper):f(sl.step)]
            try:
                return v[self.ceval(sl)]
            except (IndexError, KeyError, TypeError):
                raise Unknown
        if isinstance(n, ast.UnaryOp):
            v = self.ceval(n.operand)
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.Not):
                return not v
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
           and n.func.attr in ('startswith', 'endswith') \
           and len(n.args) == 1:
            v = self.ceval(n.func.value)
            a = self.ceval(n.args[0])
            if isinstance(v, str):
                return getattr(v, n.func.attr)(
                    tuple(a) if isinstance(a, list) else a)
        raise Unknown

    def leave(self, how, node, s):
        if how == 'return':
            if node.value is None:
                self.rets.append((node, 'none'))
            else:
                self.rets.append((node, self.kind(node.value, dict(s))))
        elif how == 'end':
            self.rets.append((node, 'none'))


_sum = {}


def summary(pp, cls, fn, conf, depth):
    key = (cls, fn, tuple(sorted((k, repr(v)) for k, v in conf.items())))
    if key in _sum:
        return _sum[key]
    _sum[key] = {None}
    fl = Fargs(pp, cls, fn, conf, depth)
    fl.run(fn.node, {()})
    out = {k for _, k in fl.rets} or {None}
    _sum[key] = out
    return out


class Select(Flow):
    """Function chosen by set_arg_types() for one self.mode."""

    def __init__(self, self_mode):
        self.self_mode = self_mode

    def stmt(self, n, s):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if pyfe.dotted(t) == 'self.function':
                    return {n.value}
        return {s}

    def branch(self, test, s, val):
        f = Fargs(None, None, None, {'mode': None, 'diff': False,
                                     'self_mode': self.self_mode})
        v = f.truth(test)
        return {s} if v is None or v == val else set()


def selected(pp, cls, self_mode, sigs):
    """[Sig or None] candidates."""
    out = []
    start = 'class'
    sat = cls.find('set_arg_types')
    vals = {start}
    if sat is not None:
        fl = Select(self_mode)
        vals = fl.run(sat.node, {start})
        chain = sat
        # base call: Parent.set_arg_types(self)
        for x in pyfe.own_nodes(sat):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
               and x.func.attr == 'set_arg_types' and start in vals:
                t = pp.resolve_expr(sat.module, x.func.value)
                if isinstance(t, pyfe.Class):
                    g = t.find('set_arg_types')
                    if g is not None:
                        vals = (vals - {start}) | Select(self_mode).run(
                            g.node, {start})
    for v in vals:
        if v is start:
            k, w = cls.find_attr('function')
            if isinstance(w, pyfe.Func):
                out.append(py_sig(w, not w.is_static))
                continue
            if w is None:
                out.append(None)
                continue
            if isinstance(w, ast.Call) and pyfe.call_name(w) \
               == 'staticmethod' and w.args:
                out.append(resolve_fun(pp, k, cls, w.args[0], sigs, False))
            else:
                out.append(resolve_fun(pp, k, cls, w, sigs, True))
        else:
            e = v
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Dict):
                d = e.value
                got = False
                for kk, vv in zip(d.keys, d.values):
                    if isinstance(kk, ast.Constant) and (
                            self_mode is None or kk.value == self_mode):
                        got = True
                        out.append(resolve_fun(pp, cls, cls, vv, sigs, False))
                if not got:
                    out.append(('missing', self_mode))
            else:
                out.append(resolve_fun(pp, sat.cls, cls, e, sigs, False))
    return out


def resolve_fun(pp, where_cls, cls, e, sigs, bound):
    d = pyfe.dotted(e)
    if d is None:
        return None
    if d.startswith('self.'):
        f = cls.find(d[5:])
        if f is None:
            return ('absent', d)
        return py_sig(f, not f.is_static)
    m = where_cls.module
    t = pp.resolve_expr(m, e)
    if isinstance(t, pyfe.Func):
        return py_sig(t, t.cls is not None and not t.is_static and bound)
    tgt = pp.absolute(m, d) or ''
    if '.extmods.' in tgt:
        s = sigs.get(d.split('.')[-1])
        return s if s is not None else ('absent', d)
    return None


def run(ctx):
    pp = pyfe.load(ctx.repo)
    sigs = pyx_sigs(ctx.repo)
    Fargs.sigs = sigs
    term = pp.cls('sfepy.terms.terms.Term')
    if term is None:
        from ..core import AnalysisBroken
        raise AnalysisBroken('no Term class')
    names = {}
    for c in sorted(pp.subclasses(term, strict=True),
                    key=lambda c: (c.rel, c.name)):
        if 'name' not in c.attrs:
            continue
        nm = pyfe.const_str(c.attrs['name'])
        if nm is None:
            continue
        ctx.count('term_classes')
        if nm in names:
            ctx.violation('term.name:%s' % nm, 'two terms are named %r: %s and'
                          ' %s' % (nm, names[nm].name, c.name), c.where())
        names[nm] = c
        check_term(ctx, pp, c, nm, sigs)
    ctx.floor('term_classes', 150)
    ctx.floor('configurations', 400)
    ctx.floor('matched_returns', 250)


def rows_of(c):
    k, v = c.find_attr('arg_types')
    if v is None or isinstance(v, pyfe.Func):
        return None, None
    try:
        rows = ast.literal_eval(v)
    except Exception:
        return None, None
    if rows and isinstance(rows[0], tuple):
        rows = list(rows)
    else:
        rows = [rows]
    k, m = c.find_attr('modes')
    try:
        modes = ast.literal_eval(m) if m is not None \
            and not isinstance(m, pyfe.Func) else None
    except Exception:
        modes = None
    if isinstance(modes, str):
        modes = (modes,)
    return rows, modes


def check_term(ctx, pp, c, nm, sigs):
    rows, modes = rows_of(c)
    if rows is None:
        ctx.count('terms_without_literal_args')
        return
    if len(rows) > 1 and (modes is None or len(modes) != len(rows)):
        ctx.violation('term.modes:%s' % nm, 'term %s declares %d argument'
                      ' rows but %s modes' % (nm, len(rows),
                                              len(modes or ())), c.where())
        return
    # argument shapes name declared arguments
    check_shapes(ctx, c, nm, rows, modes)
    gf = c.find('get_fargs')
    ge = c.find('get_eval_shape')
    all_weak = all(any(a.startswith('virtual') for a in row) for row in rows)
    for i, row in enumerate(rows):
        weak = any(a.startswith('virtual') for a in row)
        smode = modes[i] if modes is not None and len(rows) > 1 else None
        for f, what in ((gf, 'get_fargs'), (ge, 'get_eval_shape')):
            if f is None or (what == 'get_eval_shape' and weak):
                continue      # shapes are only asked for when evaluating
            ctx.count('signatures')
            ps = f.params[1:]
            # positional parameters before `mode`
            n = ps.index('mode') if 'mode' in ps else len(ps)
            lo = min(n, len(ps) - f.n_default)
            if f.vararg:
                ok = len(row) >= lo
            else:
                ok = lo <= len(row) <= n
            if not ok:
                ctx.violation('term.arity:%s:%s' % (nm, what),
                              'term %s declares %d arguments %s, %s() takes'
                              ' %d' % (nm, len(row), row, what, n),
                              f.where())
        if gf is None:
            continue
        # Recovery evaluations of terms that declare weak rows only.
        for mode in ((['weak', 'el_avg', 'qp'] if all_weak else ['weak'])
                     if weak else ['eval', 'el_avg', 'qp']):
            for diff in ([False, True] if mode == 'weak' else [False]):
                conf = {'mode': mode, 'diff': diff, 'self_mode': smode}
                ctx.count('configurations')
                fl = Fargs(pp, c, gf, conf)
                fl.run(gf.node, {()})
                funs = selected(pp, c, smode, sigs)
                compare(ctx, c, nm, gf, conf, fl.rets, funs)


def compare(ctx, c, nm, gf, conf, rets, funs):
    desc = 'mode %s%s' % (conf['mode'], ', tangent' if conf['diff'] else '')
    for f in funs:
        if isinstance(f, tuple):
            ctx.violation('term.function:%s' % nm, 'term %s selects no'
                          ' existing evaluation function (%s %s)'
                          % (nm, f[0], f[1]), c.where())
            return
    fs = [f for f in funs if f is not None]
    if len(fs) != len(funs) or not fs:
        ctx.count('unresolved_functions')
        return
    for node, k in rets:
        if not (isinstance(k, tuple) and k[0] == 'tuple'):
            if k == 'none':
                ctx.violation('term.return:%s' % nm, 'argument preparation of'
                              ' term %s can return nothing (%s)'
                              % (nm, desc), gf.where(node))
            else:
                ctx.count('unresolved_returns')
            continue
        ctx.count('matched_returns')
        bad = None
        for f in fs:
            bad = match(ctx, nm, f, k[1], desc) or bad
        if bad is not None:
            ctx.violation(bad[0], bad[1], gf.where(node))


def match(ctx, nm, f, kinds, desc, depth=0):
    """Prepared argument kinds (without the output) against a signature."""
    n = len(kinds) + 1
    if not f.lo <= n <= f.hi:
        return ('term.fargs:%s:%s' % (nm, f.name),
                'term %s passes %d arguments to %s() that takes %s (%s)'
                % (nm, n, f.name, f.lo if f.lo == f.hi else
                   '%d to %d' % (f.lo, f.hi), desc))
    for pos, kk in enumerate(kinds):
        ty = f.types[pos + 1] if pos + 1 < len(f.types) else None
        if clash(kk, ty):
            return ('term.kind:%s:%s:%s' % (nm, f.name, f.params[pos + 1]),
                    'term %s passes %s as argument %r of %s() that takes'
                    ' %s (%s)' % (nm, 'a function' if isinstance(kk, Fun)
                                  else NAMES.get(kk, 'a tuple'),
                                  f.params[pos + 1],
                                  f.name, NAMES[ty], desc))
    if f.forward is not None and depth < 3:
        ip, args = f.forward
        if 1 <= ip <= len(kinds) and isinstance(kinds[ip - 1], Fun):
            out = []
            for a in args:
                if a == '*':
                    out += list(kinds[len(f.params) - 1:])
                elif a is None:
                    out.append(None)
                elif a == 0:
                    out.append('out')
                else:
                    out.append(kinds[a - 1] if a <= len(kinds) else None)
            if out and out[0] == 'out' and 'out' not in out[1:]:
                ctx.count('forwarded_calls')
                return match(ctx, nm, kinds[ip - 1].sig, out[1:], desc,
                             depth + 1)
    return None


NAMES = {'map': 'a mapping', 'array': 'an array', 'int': 'an integer',
         'num': 'a number', 'none': 'None', 'fun': 'a function'}


def clash(k, ty):
    if ty is None or k is None or isinstance(k, tuple):
        return ty == 'fun' and isinstance(k, tuple)
    if isinstance(k, Fun):
        return ty != 'fun'
    if ty == 'fun':
        return k in ('map', 'array', 'int', 'num', 'none')
    if ty == 'map':
        return k in ('array', 'int', 'num', 'none')
    if ty == 'array':
        return k in ('map', 'int', 'num', 'none')
    if ty == 'int':
        return k in ('map', 'array', 'none', 'num')
    if ty == 'num':
        return k in ('map', 'array', 'none')
    return False


def check_shapes(ctx, c, nm, rows, modes):
    k, v = c.find_attr('arg_shapes')
    if v is None or isinstance(v, pyfe.Func):
        return
    try:
        sh = ast.literal_eval(v)
    except Exception:
        return
    shs = sh if isinstance(sh, list) else [sh]
    allsh = {}
    for d in shs:
        if not isinstance(d, dict):
            return
        allsh.update(d)
        ctx.count('declared_shapes', len(d))
    if not allsh:
        return
    for i, r in enumerate(rows):
        for a in r:
            if not a.startswith(('virtual', 'state', 'parameter',
                                 'material', 'opt_material')):
                continue      # user arguments carry no shape
            if a in allsh or (modes is not None and i < len(modes) and
                              '%s/%s' % (a, modes[i]) in allsh):
                continue
            ctx.violation('term.shape-missing:%s:%s' % (nm, a),
                          'term %s has no shape for its argument %r'
                          % (nm, a), c.where(v))
