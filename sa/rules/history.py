"""T05: terms evaluate their variables in the requested step, derivative and
DOFs."""
import ast

from .. import pyfe
from ..core import AnalysisBroken
from . import termif

EXPLANATION = (
    'Syntax trees of all term modules and of the variables. The parameters of'
    ' the argument functions of each term that stand for variables (from the'
    ' declared argument types) are followed through copies and calls. At'
    ' every read of the DOFs or of an evaluation of a variable, the step and'
    ' the time derivative have to be those stored for this very argument in'
    ' the term (arg_steps, arg_derivatives), or parameters of the function'
    ' that all callers set so. DOF vectors are used only with the DOF'
    ' connectivity of the same variable (or of its test counterpart).'
    ' Contributions to the matrix and reads inside of variables have to'
    ' depend on the derivative and the step, too.')
RULE = ('one obligation per read of a variable and per pair (DOF vector, DOF'
        ' connectivity) used together')
ASSUMPTIONS = [
    'a parameter is a variable when the declared argument types say so, or'
    ' when a variable is passed to it within the term modules',
    'fading memory terms sum over explicit previous steps (-ii of an'
    ' enumeration)',
]

READS = {
    # method: ((keyword, position), ...) for step and derivative
    '__call__': (('step', 0), ('derivative', 1)),
    'evaluate': (('step', 4), ('time_derivative', 5)),
    'get_state_in_region': (('step', 2),),
}
SOURCE = {'step': 'arg_steps', 'derivative': 'arg_derivatives',
          'time_derivative': 'arg_derivatives'}
VARKINDS = ('virtual', 'state', 'parameter')


def is_none(n):
    return isinstance(n, ast.Constant) and n.value is None


class Hist:
    def __init__(self, ctx, pp):
        self.ctx, self.pp = ctx, pp
        self.funcs = [f for f in pp.all_funcs()
                      if f.rel.startswith('sfepy/terms/')
                      and isinstance(f.node, (ast.FunctionDef,))]
        self.by_node = {f.node: f for f in self.funcs}
        self.vars = {f: set() for f in self.funcs}      # variable names
        self.copies = {f: self.find_copies(f) for f in self.funcs}
        self.edges = {}      # callee -> [(caller, call, {param: expr})]
        self.terms = {}      # get_fargs-like Func -> [(term name, class, row)]
        self.demands = {}    # (func, param, kind, canonical variable)

    # -- names -----------------------------------------------------------
    @staticmethod
    def find_copies(f):
        """name -> expression, for names assigned exactly once by a copy."""
        seen, out = {}, {}
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ts = [t]
                    vs = [n.value]
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts = t.elts
                        same = isinstance(n.value, (ast.Tuple, ast.List)) \
                            and len(n.value.elts) == len(ts)
                        vs = n.value.elts if same else [None] * len(ts)
                    for a, v in zip(ts, vs):
                        if isinstance(a, ast.Name):
                            seen.setdefault(a.id, []).append(v)
            else:
                for a in ast.iter_child_nodes(n):
                    if isinstance(a, ast.Name) and isinstance(
                            a.ctx, ast.Store):
                        seen.setdefault(a.id, []).append(None)
        for k, vs in seen.items():
            if len(vs) == 1 and vs[0] is not None and k not in f.all_params():
                out[k] = vs[0]
        f_assigned = seen
        f.hist_assigned = f_assigned
        return out

    def canon(self, f, n, depth=0):
        """Text of an expression with single copies replaced."""
        if isinstance(n, ast.Name) and depth < 6:
            g = f
            while g is not None:
                v = self.copies.get(g, {}).get(n.id)
                if v is not None and pyfe.dotted(v) is not None:
                    return self.canon(g, v, depth + 1)
                if n.id in g.all_params() or n.id in getattr(
                        g, 'hist_assigned', {}):
                    break
                g = g.outer
            return n.id
        if isinstance(n, ast.Attribute):
            b = self.canon(f, n.value, depth)
            return None if b is None else '%s.%s' % (b, n.attr)
        return None

    def isvar(self, f, n):
        if isinstance(n, ast.Name):
            g = f
            while g is not None:
                if n.id in self.vars.get(g, ()):
                    return True
                g = g.outer
            return False
        if isinstance(n, ast.Attribute):
            # The variable of an expression argument.
            return n.attr == 'arg'
        if isinstance(n, ast.IfExp):
            return self.isvar(f, n.body) or self.isvar(f, n.orelse)
        return False

    # -- calls -------------------------------------------------------------
    def callees(self, f, c):
        fn = c.func
        out = []
        cls = f.cls
        g = f
        while cls is None and g.outer is not None:
            g = g.outer
            cls = g.cls
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) \
           and fn.value.id in ('self', 'term') or (
               isinstance(fn, ast.Attribute)
               and isinstance(fn.value, ast.Call)
               and isinstance(fn.value.func, ast.Name)
               and fn.value.func.id == 'super'):
            classes = []
            if isinstance(fn.value, ast.Name) and fn.value.id == 'term':
                t = self.pp.cls('sfepy.terms.terms.Term')
                classes = [t]
            elif cls is not None:
                classes = [cls] + self.pp.subclasses(cls, strict=True)
            for k in classes:
                _, a = k.find_attr(fn.attr) if k.find(fn.attr) is None \
                    else (None, k.find(fn.attr))
                if isinstance(a, pyfe.Func):
                    out.append(a)
                elif isinstance(a, ast.Call):
                    t = self.pp.resolve_expr(k.module, a.func)
                    if isinstance(t, pyfe.Class) and t.find('__call__'):
                        out.append(t.find('__call__'))
        else:
            t = self.pp.resolve_expr(f.module, fn)
            if isinstance(t, pyfe.Func):
                out.append(t)
            elif isinstance(fn, ast.Name):
                # nested functions
                g = f
                while g is not None:
                    for h in self.funcs:
                        if h.outer is g and h.name == fn.id:
                            out.append(h)
                    g = g.outer
        return [h for h in dict.fromkeys(out) if h in self.vars]

    def bind(self, g, c):
        """Parameters of `g` set by the call `c`."""
        ps = g.params
        args = list(c.args)
        if g.cls is not None and not g.is_static:
            explicit = isinstance(c.func, ast.Attribute) and args \
                and isinstance(args[0], ast.Name) and args[0].id == 'self' \
                and not (isinstance(c.func.value, ast.Name)
                         and c.func.value.id == 'self')
            if not explicit:
                ps = ps[1:]
        out = {}
        star = False
        for p, a in zip(ps, args):
            if isinstance(a, ast.Starred):
                star = True
                break
            out[p] = a
        for k in c.keywords:
            if k.arg is None:
                star = True
            else:
                out[k.arg] = k.value
        return out, star

    def propagate(self):
        pp = self.pp
        term = pp.cls('sfepy.terms.terms.Term')
        if term is None:
            raise AnalysisBroken('no Term class')
        for c in pp.subclasses(term, strict=True):
            rows, modes = termif.rows_of(c)
            if rows is None:
                continue
            for meth in ('get_fargs', 'get_eval_shape', 'get_function',
                         'check_shapes'):
                f = c.find(meth)
                if f is None or f not in self.vars:
                    continue
                for row in rows:
                    self.terms.setdefault(f, []).append((c, row))
                    for p, a in zip(f.params[1:], row):
                        if p in ('mode', 'term_mode', 'diff_var'):
                            break
                        if a.split('_')[0].split('/')[0] in VARKINDS:
                            self.vars[f].add(p)
        for meth in ('get', 'get_vector'):
            f = term.find(meth)
            if f is None:
                raise AnalysisBroken('no Term.%s' % meth)
            self.vars[f].add(f.params[1])
        todo = True
        calls = {f: [n for n in pyfe.own_nodes(f.node)
                     if isinstance(n, ast.Call)] for f in self.funcs}
        res = {}
        for f, cs in calls.items():
            for c in cs:
                for g in self.callees(f, c):
                    b, star = self.bind(g, c)
                    res.setdefault(f, []).append((c, g, b))
                    self.edges.setdefault(g, []).append((f, c, b, star))
        while todo:
            todo = False
            for f in self.funcs:
                v = self.vars[f]
                for k, vals in f.hist_assigned.items():
                    if k not in v and any(
                            x is not None and self.isvar(f, x)
                            for x in vals):
                        v.add(k)
                        todo = True
                for c, g, b in res.get(f, ()):
                    for p, a in b.items():
                        if p in g.all_params() and p not in self.vars[g] \
                           and isinstance(a, (ast.Name, ast.IfExp)) \
                           and self.isvar(f, a):
                            self.vars[g].add(p)
                            todo = True

    # -- steps and derivatives ---------------------------------------------
    def faithful(self, f, e, var, kind, depth=0):
        """
        Is `e` the step (derivative) requested of the variable with the
        canonical text `var`? True, False, or ('param', name).
        """
        if e is None:
            return False
        if depth > 6:
            return None
        if isinstance(e, (ast.Constant, ast.UnaryOp)):
            return False
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Name):
                w = self.copies.get(f, {}).get(v.id)
                v = w if w is not None else v
            idx = self.canon(f, e.slice)
            if not (isinstance(v, ast.Attribute)
                    and v.attr in SOURCE.values()) or idx is None:
                # key[-1], with key = (..., arg_derivatives[name])
                k = self.literal_item(f, e)
                if k is not None:
                    return self.faithful(f, k, var, kind, depth + 1)
                return None
            if v.attr != SOURCE[kind]:
                return False
            if idx == var + '.name':
                return True
            if var.endswith('.arg') and idx == var[:-4] + '.name':
                return True
            # Other spellings of the same name, or another variable?
            return False if idx.endswith('.name') else None
        if isinstance(e, ast.Call) and pyfe.call_name(e) == 'get_default' \
           and len(e.args) >= 2:
            # The second argument is used when the caller says nothing.
            return self.faithful(f, e.args[1], var, kind, depth + 1)
        if isinstance(e, ast.IfExp):
            out = True
            for x in (e.body, e.orelse):
                if isinstance(x, ast.Name) and x.id in f.all_params():
                    continue
                r = self.faithful(f, x, var, kind, depth + 1)
                if r is False:
                    return False
                if r is not True:
                    out = r
            return out
        if isinstance(e, ast.Name):
            vals = f.hist_assigned.get(e.id)
            if vals:
                rs = [self.faithful(f, v, var, kind, depth + 1)
                      if v is not None else None for v in vals]
                if False in rs and not (e.id in f.all_params()):
                    return False
                return rs[0] if len(set(map(repr, rs))) == 1 else None
            if e.id in f.all_params():
                return ('param', e.id)
        return None

    def literal_item(self, f, e):
        v, sl = e.value, e.slice
        try:
            i = ast.literal_eval(sl)
        except (ValueError, SyntaxError, TypeError):
            return None
        if isinstance(v, ast.Name):
            vals = [x for x in f.hist_assigned.get(v.id, ())
                    if isinstance(x, ast.Tuple)]
            v = vals[0] if vals else None
        if isinstance(v, ast.Tuple) and isinstance(i, int) \
           and -len(v.elts) <= i < len(v.elts):
            return v.elts[i]
        if isinstance(v, ast.BinOp) and isinstance(v.right, ast.Tuple) \
           and isinstance(i, int) and -len(v.right.elts) <= i < 0:
            return v.right.elts[i]
        return None

    def past_step(self, f, e):
        """-ii, ii counting the steps of a memory kernel."""
        if not (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub)
                and isinstance(e.operand, ast.Name)):
            return False
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(
                    n.iter, ast.Call) \
               and pyfe.call_name(n.iter) in ('enumerate', 'range'):
                t = n.target
                t = t.elts[0] if isinstance(t, ast.Tuple) else t
                if isinstance(t, ast.Name) and t.id == e.operand.id \
                   and len(n.iter.args) == 1:
                    return True
        return False

    def check_reads(self):
        ctx = self.ctx
        for f in self.funcs:
            for c in pyfe.own_nodes(f.node):
                if isinstance(c, ast.Subscript) and isinstance(
                        c.value, ast.Attribute) and c.value.attr == 'data' \
                   and isinstance(c.ctx, ast.Load) \
                   and isinstance(c.value.value, ast.Name) \
                   and self.isvar(f, c.value.value):
                    ctx.count('reads')
                    ctx.violation(
                        'direct:%s:%s' % (f.qual, pyfe.dotted(c.value)),
                        '%s() reads the data of %s directly: the step and'
                        ' the derivative required of the argument are ignored'
                        % (f.qual, pyfe.dotted(c.value.value)), f.where(c))
                if not isinstance(c, ast.Call):
                    continue
                fn = c.func
                if self.isvar(f, fn) and isinstance(fn, (ast.Name,
                                                         ast.Attribute)):
                    self.check_read(f, c, fn, '__call__')
                elif isinstance(fn, ast.Attribute) and fn.attr in READS \
                        and isinstance(fn.value, (ast.Name, ast.Attribute)) \
                        and self.isvar(f, fn.value):
                    self.check_read(f, c, fn.value, fn.attr)
                elif isinstance(fn, ast.Attribute) and fn.attr == 'get' \
                        and isinstance(fn.value, ast.Name) \
                        and fn.value.id in ('self', 'term') and c.args \
                        and self.isvar(f, c.args[0]):
                    self.check_get(f, c)

    def check_read(self, f, c, recv, meth):
        ctx = self.ctx
        var = self.canon(f, recv)
        ctx.count('reads')
        ctx.sample('%s: %s' % (f.where(c), ast.unparse(c)[:100]))
        for kw, pos in READS[meth]:
            e = None
            if pos < len(c.args):
                e = c.args[pos]
            for k in c.keywords:
                if k.arg == kw:
                    e = k.value
            kind = kw
            what = 'step' if kw == 'step' else 'time derivative'
            if e is None:
                r = False
            else:
                r = self.faithful(f, e, var, kind)
            if r is True:
                continue
            if r is None:
                ctx.count('undecided')
                continue
            if isinstance(r, tuple):
                self.demand(f, r[1], kind, var)
                continue
            ctx.violation(
                'read:%s:%s:%s:%s' % (f.qual, var, meth, kw),
                '%s() reads %s in a fixed %s, not in the one required of'
                ' this argument of the term' % (f.qual, var, what),
                f.where(c))

    def demand(self, g, p, kind, var):
        """All callers of `g` have to pass the step of `var` in `p`."""
        if (g, p, kind, var) in self.demands:
            return
        self.demands[g, p, kind, var] = True
        ctx = self.ctx
        what = 'step' if kind == 'step' else 'time derivative'
        for f, c, b, star in self.edges.get(g, ()):
            if star:
                continue
            head, _, tail = var.partition('.')
            v = b.get(head)
            if v is None:
                continue
            w = self.canon(f, v)
            if w is None:
                continue
            w = w + ('.' + tail if tail else '')
            ctx.count('passed_on')
            e = b.get(p)
            r = self.faithful(f, e, w, kind) if e is not None else False
            if r is True:
                continue
            if r is None:
                ctx.count('undecided')
                continue
            if isinstance(r, tuple):
                self.demand(f, r[1], kind, w)
                continue
            ctx.violation(
                'pass:%s:%s:%s' % (f.qual, g.qual, p),
                '%s() does not pass the %s required of %s to %s()'
                % (f.qual, what, w, g.qual), f.where(c))

    def check_get(self, f, c):
        ctx = self.ctx
        ctx.count('reads')
        var = self.canon(f, c.args[0]) if not isinstance(
            c.args[0], ast.IfExp) else None
        for kw, pos in (('step', 4), ('time_derivative', 5)):
            e = c.args[pos] if pos < len(c.args) else None
            for k in c.keywords:
                if k.arg == kw:
                    e = k.value
            if e is None or is_none(e):
                continue
            if kw == 'step' and self.past_step(f, e):
                ctx.count('memory_kernels')
                continue
            r = self.faithful(f, e, var, kw) if var is not None else None
            if r is True:
                continue
            if r is None:
                ctx.count('undecided')
                continue
            if isinstance(r, tuple):
                self.demand(f, r[1], kw, var)
                continue
            ctx.violation(
                'get:%s:%s:%s' % (f.qual, var, kw),
                '%s() evaluates %s in another %s than required of this'
                ' argument' % (f.qual, var, 'step' if kw == 'step'
                               else 'time derivative'), f.where(c))

    # -- DOF vectors and connectivities ---------------------------------
    def tags(self, f, n, env, conn_ok=True):
        """{('vec'|'conn', variable)} an expression is made from."""
        out = set()
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out |= env.get(x.id, set())
                continue
            if isinstance(x, (ast.Lambda, ast.Compare)):
                continue
            if isinstance(x, ast.Call):
                fn = x.func
                if isinstance(fn, ast.Attribute) \
                   and fn.attr == 'get_vector' and x.args:
                    v = self.canon(f, x.args[0])
                    if v:
                        out.add(('vec', v))
                    continue
                if self.isvar(f, fn):
                    v = self.canon(f, fn)
                    if v:
                        out.add(('vec', v))
                    continue
                if isinstance(fn, ast.Attribute) and fn.attr == 'get_econn':
                    b = self.canon(f, fn.value)
                    if b and b.endswith('.field'):
                        out.add(('conn', b[:-6]))
                    continue
                stack.extend(x.args)
                stack.extend(k.value for k in x.keywords)
                if isinstance(fn, ast.Attribute):
                    stack.append(fn.value)
                continue
            if isinstance(x, ast.Attribute):
                if x.attr in ('shape', 'dtype', 'ndim', 'size', 'name'):
                    continue
                stack.append(x.value)
                continue
            stack.extend(ast.iter_child_nodes(x))
        return out

    def same_dofs(self, f, a, b):
        if a == b:
            return True
        # A test function takes the DOFs of the unknown named in its shape.
        for c, row in self.terms.get(f, ()):
            ps = f.params[1:]
            role = {p: r for p, r in zip(ps, row)}
            _, shapes = c.find_attr('arg_shapes')
            try:
                shapes = ast.literal_eval(shapes)
            except Exception:
                return True
            for sh in shapes if isinstance(shapes, list) else [shapes]:
                for k, v in sh.items():
                    k = k.split('/')[0]
                    if isinstance(v, tuple) and len(v) == 2 \
                       and isinstance(v[1], str):
                        if {role.get(a), role.get(b)} == {k, v[1]}:
                            return True
        return False

    def check_pairs(self):
        for f in self.funcs:
            env = {}
            nodes = [n for n in pyfe.own_nodes(f.node)
                     if isinstance(n, (ast.Assign, ast.AugAssign))]
            for _ in range(3):
                for n in nodes:
                    t = n.targets[0] if isinstance(n, ast.Assign) \
                        else n.target
                    tg = self.tags(f, n.value, env)
                    # A vector in element order is used up.
                    if any(isinstance(s, ast.Subscript)
                           for s in ast.walk(n.value)):
                        pass
                    if isinstance(t, ast.Name) and tg:
                        env[t.id] = env.get(t.id, set()) | tg
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx,
                                                               ast.Load):
                    a = {v for t, v in self.tags(f, n.value, env)
                         if t == 'vec'}
                    b = {v for t, v in self.tags(f, n.slice, env)
                         if t == 'conn'}
                    self.pair(f, n, a, b)
                elif isinstance(n, ast.Return) and isinstance(n.value,
                                                              ast.Tuple):
                    a, b = set(), set()
                    for e in n.value.elts:
                        tg = self.tags(f, e, env)
                        ks = {t for t, _ in tg}
                        if ks == {'vec'}:
                            a |= {v for _, v in tg}
                        elif ks == {'conn'}:
                            b |= {v for _, v in tg}
                    self.pair(f, n, a, b)

    def pair(self, f, n, vecs, conns):
        if not vecs or not conns:
            return
        self.ctx.count('vector_connectivity')
        for v in vecs:
            if not any(self.same_dofs(f, v, c) for c in conns):
                self.bad_pair(f, n, v, conns)
        for c in conns:
            if not any(self.same_dofs(f, v, c) for v in vecs):
                self.bad_pair(f, n, sorted(vecs)[0], {c})

    def bad_pair(self, f, n, v, conns):
        self.ctx.violation(
            'conn:%s:%s' % (f.qual, v),
            '%s() uses the DOF vector of %s with the DOF connectivity of %s'
            % (f.qual, v, ', '.join(sorted(conns))), f.where(n))

    # -- reads inside of variables ----------------------------------------
    def check_variables(self):
        ctx, pp = self.ctx, self.pp
        var = pp.cls('sfepy.discrete.variables.Variable')
        if var is None:
            raise AnalysisBroken('no Variable class')
        call = var.find('__call__')
        if call is None or 'step' not in call.params:
            raise AnalysisBroken('no Variable.__call__(step)')
        for c in pp.subclasses(var):
            for f in c.methods.values():
                ps = f.all_params()
                if 'step' not in ps or f is call:
                    continue
                dname = [p for p in ('derivative', 'time_derivative')
                         if p in ps]
                for n in pyfe.own_nodes(f.node):
                    if not (isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == 'self'):
                        continue
                    ctx.count('variable_reads')
                    given = {k.arg: k.value for k in n.keywords}
                    for p, a in zip(call.params[1:], n.args):
                        given[p] = a
                    want = [('step', 'step')]
                    if dname:
                        want.append(('derivative', dname[0]))
                    if 'dt' in ps:
                        want.append(('dt', 'dt'))
                    for k, p in want:
                        e = given.get(k)
                        names = {x.id for x in ast.walk(e)
                                 if isinstance(x, ast.Name)} if e is not None \
                            else set()
                        if p not in names:
                            # through a local
                            if any(p in {y.id for v in
                                         self.values(f, x)
                                         for y in ast.walk(v)
                                         if isinstance(y, ast.Name)}
                                   for x in names):
                                continue
                            ctx.violation(
                                'variable:%s:%s' % (f.qual, k),
                                '%s() reads the DOFs without its argument %s'
                                % (f.qual, p), f.where(n))
        # dt derivative: difference of two neighbouring steps
        ctx.count('variable_reads')

    @staticmethod
    def values(f, name):
        return [n.value for n in pyfe.own_nodes(f.node)
                if isinstance(n, ast.Assign)
                and any(isinstance(t, ast.Name) and t.id == name
                        for t in n.targets)]

    # -- matrix contributions of derivatives --------------------------------
    def check_assembling(self):
        """Everything assembled to a matrix is scaled by the derivative."""
        ctx = self.ctx
        term = self.pp.cls('sfepy.terms.terms.Term')
        f = term.find('assemble_to')
        if f is None:
            raise AnalysisBroken('no Term.assemble_to')
        body = self.matrix_branch(f)
        if body is None:
            ctx.note('no matrix mode in Term.assemble_to')
            return
        dep = set()
        guards = []

        def visit(stmts, conds):
            for n in stmts:
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    t = n.targets[0] if isinstance(n, ast.Assign) \
                        else n.target
                    txt = ' '.join(conds) + ' ' + ast.unparse(n.value)
                    txt += self.called_text(term, n.value)
                    names = {x.id for x in ast.walk(n.value)
                             if isinstance(x, ast.Name)}
                    if isinstance(t, ast.Name) and (
                            'arg_derivatives' in txt or names & dep
                            or any(set(g) & dep for g in guards)):
                        dep.add(t.id)
                if isinstance(n, ast.If):
                    c = conds + [ast.unparse(n.test)]
                    visit(n.body, c)
                    visit(n.orelse, c)
                elif isinstance(n, (ast.For, ast.While, ast.With)):
                    visit(n.body, conds)
        for _ in range(3):
            visit(body, [])
        found = 0
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Call):
                    continue
                d = pyfe.dotted(n.func) or ''
                last = d.split('.')[-1]
                if last not in ('assemble', 'coo_array', 'coo_matrix',
                                'csr_array', 'csr_matrix') \
                   and not last.startswith('assemble_matrix'):
                    continue
                found += 1
                ctx.count('matrix_contributions')
                names = {x.id for x in ast.walk(n)
                         if isinstance(x, ast.Name)}
                if not names & dep and 'arg_derivatives' \
                        not in ast.unparse(n):
                    ctx.violation(
                        'matrix:%s:%s' % (f.qual, last),
                        '%s() adds to the matrix without the factor of the'
                        ' time derivative of the unknown' % f.qual,
                        f.where(n))
        if not found:
            ctx.note('no direct assembling in Term.assemble_to')

    @staticmethod
    def called_text(cls, n, depth=0):
        out = ''
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
               and isinstance(x.func.value, ast.Name) \
               and x.func.value.id == 'self':
                g = cls.find(x.func.attr)
                if g is not None and depth < 2:
                    out += ' ' + ast.unparse(g.node)
        return out

    @staticmethod
    def matrix_branch(f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.If):
                t = n.test
                if isinstance(t, ast.Compare) and isinstance(
                        t.ops[0], ast.Eq) and pyfe.const_str(
                            t.comparators[0]) == 'matrix':
                    return n.body
        return None


def run(ctx):
    pp = pyfe.load(ctx.repo)
    h = Hist(ctx, pp)
    h.propagate()
    ctx.count('functions', len(h.funcs))
    h.check_reads()
    h.check_pairs()
    h.check_variables()
    h.check_assembling()
    ctx.floor('reads', 100)
    ctx.floor('vector_connectivity', 8)
    ctx.floor('variable_reads', 2)
