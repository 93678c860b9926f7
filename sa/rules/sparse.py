"""L01: products with matrices are matrix products."""
import ast
import re

from .. import pyfe
from ..core import AnalysisBroken

MAKERS = {'csr_array', 'csc_array', 'coo_array', 'bsr_array', 'dia_array',
          'lil_array', 'dok_array', 'eye_array', 'diags_array', 'block_array',
          'random_array', 'csr_matrix', 'csc_matrix', 'coo_matrix',
          'block_diag', 'bmat'}
CONVERT = {'tocsr', 'tocsc', 'tocoo', 'tobsr', 'todia', 'tolil', 'todok'}
SAME = {'copy', 'transpose', 'conj', 'conjugate', 'astype', 'asformat'}
DENSE = {'toarray', 'todense', 'diagonal', 'A1'}
ARRAYS = {'zeros', 'ones', 'empty', 'array', 'asarray', 'zeros_like',
          'ones_like', 'empty_like', 'arange', 'linspace', 'eye', 'full',
          'hstack', 'vstack', 'concatenate', 'asanyarray',
          'ascontiguousarray', 'atleast_1d', 'where', 'sqrt', 'exp'}
# what the solvers are given and call, by the interface of their base classes
SOLVER_ARGS = {'mtx': 'M', 'mtx_a': 'M', 'mtx_b': 'M', 'mtx_m': 'M',
               'mtx_d': 'M', 'mtx_k': 'M', 'rhs': 'V', 'x0': 'V',
               'vec_x0': 'V', 'vec0': 'V', 'state0': 'V', 'vec': 'V',
               'vec_x': 'V'}
MATRIX_CALLS = {'fun_grad', 'fun_smooth_grad', 'fun_a_grad', 'fun_b_grad',
                'eval_tangent_matrix', 'eval_tangent_matrices',
                'create_matrix_graph', 'compute_jacobian',
                'get_lcbc_operator', 'eval_lcbc_rhs'} - {'eval_lcbc_rhs'}
VECTOR_CALLS = {'fun', 'lin_solver', 'fun_smooth', 'fun_a', 'fun_b',
                'eval_residual', 'eval_residuals', 'reduce_vec',
                'make_full_vec'} - {'eval_residuals'}


VECTOR_NAME = re.compile(r'^(?:[a-z]?vec|rhs|coors)(?:_\w*)?$|^\w+_vec$')
MATRIX_NAME = re.compile(r'^[a-z]?mtx(?:_\w*)?$|^\w+_mtx$|^precond(?:itioner)?$')


def name_of(e):
    while isinstance(e, ast.Attribute) and e.attr == 'T':
        e = e.value
    if isinstance(e, ast.Subscript):
        e = e.value
    if isinstance(e, ast.Attribute):
        return e.attr
    return e.id if isinstance(e, ast.Name) else None


def sparse_tests(test):
    """Names that are sparse when the test holds."""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        return set().union(*(sparse_tests(v) for v in test.values))
    if isinstance(test, ast.Call) and pyfe.call_name(test) in (
            'issparse', 'isspmatrix') and test.args \
            and isinstance(test.args[0], ast.Name):
        return {test.args[0].id}
    return set()


class Kinds:
    """Kinds of local values: M matrix (sparse, or dense where both are
    possible), R row of a sparse array (1-D), V array, S scalar, None."""

    def __init__(self, rule, f, outer=None):
        self.rule, self.f, self.outer = rule, f, outer
        self.env = {}
        self.bound = set()
        if rule.is_solver(f) and f.outer is None:
            for p in f.all_params():
                if p in SOLVER_ARGS:
                    self.env[p] = SOLVER_ARGS[p]
        for p in f.all_params():
            if VECTOR_NAME.match(p):
                self.env.setdefault(p, 'V')
        self.bound |= set(f.all_params())
        self.guarded = {}           # id(name node) -> sparse by a test
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, (ast.If, ast.IfExp)):
                names = sparse_tests(n.test)
                if names:
                    body = n.body if isinstance(n.body, list) else [n.body]
                    for b in body:
                        for x in ast.walk(b):
                            if isinstance(x, ast.Name) and x.id in names:
                                self.guarded[id(x)] = 'M'
        assigned = {}
        loops = set()
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value, assigned)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(None)
                it = n.iter
                if isinstance(it, ast.Call) and pyfe.call_name(it) == 'range' \
                        and isinstance(n.target, ast.Name):
                    loops.add(n.target.id)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in ast.walk(i.optional_vars):
                            if isinstance(x, ast.Name):
                                assigned.setdefault(x.id, []).append(None)
        self.loops = loops
        self.bound |= set(assigned)
        params = dict(self.env)
        for _ in range(6):
            new = dict(params)
            for name, vs in assigned.items():
                ks = {self.kind(v) if v is not None else None for v in vs}
                if name in params:
                    ks.add(params[name])
                elif name in f.all_params():
                    ks.add(None)
                ks.discard('0')
                if len(ks) == 1 and None not in ks:
                    new[name] = ks.pop()
                else:
                    new.pop(name, None)
            if new == self.env:
                break
            self.env = new

    def bind(self, t, v, assigned):
        if isinstance(t, ast.Name):
            assigned.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) \
                and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.bind(a, b, assigned)

    def name(self, x):
        if x in self.bound:
            return self.env.get(x)
        if self.outer is not None:
            return self.outer.name(x)
        return None

    def kind(self, e):
        if isinstance(e, ast.Constant):
            if e.value is None:
                return '0'          # a missing value has no products
            return 'S' if isinstance(e.value, (int, float, complex)) else None
        if isinstance(e, ast.Name):
            return self.guarded.get(id(e)) or self.name(e.id)
        if isinstance(e, ast.UnaryOp):
            return self.kind(e.operand)
        if isinstance(e, ast.Attribute):
            if e.attr == 'T':
                return self.kind(e.value)
            if isinstance(e.value, ast.Name) and self.f.params \
                    and self.top().params \
                    and e.value.id == self.top().params[0]:
                return self.rule.attr_kind(self.top().cls, e.attr)
            if e.attr in ('mtx_a', 'mtx_lcbc'):
                return 'M'
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.kind(e.body), self.kind(e.orelse)
            return a if a == b else None
        if isinstance(e, ast.Subscript):
            k = self.kind(e.value)
            if k == 'M':
                i = e.slice
                if isinstance(i, ast.Constant) and isinstance(i.value, str):
                    return 'M'      # a dictionary of matrices
                if isinstance(i, ast.Name) and i.id in self.loops \
                        or isinstance(i, ast.Constant):
                    return 'R'
                if isinstance(i, ast.Name):
                    return 'M'
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                if a == b:
                    return a
                if {a, b} <= {'M', 'S'} or {a, b} == {'V', 'S'}:
                    return a if b == 'S' else b
                if 'V' in (a, b):
                    return 'V'
                return None
            if isinstance(e.op, (ast.Mult, ast.Div)):
                if b == 'S':
                    return a
                if a == 'S' and isinstance(e.op, ast.Mult):
                    return b
                if isinstance(e.op, ast.Mult) and 'M' in (a, b) \
                        and None in (a, b):
                    return 'M'
                if a == 'V' and b == 'V':
                    return 'V'
                return None
            if isinstance(e.op, ast.MatMult):
                if a == 'M':
                    return {'M': 'M', 'V': 'V', 'R': 'R'}.get(b)
                if a == 'R' and b == 'R':
                    return 'S'
            return None
        if isinstance(e, ast.Call):
            n = pyfe.call_name(e)
            if isinstance(e.func, ast.Attribute):
                k = self.kind(e.func.value)
                if n in CONVERT:
                    return 'M'
                if n in DENSE and k in ('M', 'R'):
                    return 'V' if n == 'diagonal' or k == 'R' else 'D'
                if n in SAME and k in ('M', 'V', 'R'):
                    return k
                if n == 'dot' and k == 'M' and e.args:
                    return {'V': 'V', 'M': 'M'}.get(self.kind(e.args[0]))
                if k is not None:
                    return None
            if n in MAKERS:
                return 'M'
            if isinstance(e.func, ast.Attribute) \
                    and e.func.attr == '__class__':
                return 'M' if self.kind(e.func.value) == 'M' else None
            if n in ('abs', 'absolute') and len(e.args) == 1:
                return self.kind(e.args[0])
            if n == 'get_default' and isinstance(e.func, ast.Name) \
                    and len(e.args) >= 2:
                a, b = self.kind(e.args[0]), self.kind(e.args[1])
                return a if a is not None and a != '0' else b
            if isinstance(e.func, ast.Name) or isinstance(
                    e.func, ast.Attribute) and isinstance(
                        e.func.value, ast.Name):
                if n in MATRIX_CALLS:
                    return 'M'
                if n in VECTOR_CALLS and isinstance(e.func, ast.Name):
                    return 'V'
            if isinstance(e.func, ast.Attribute) and isinstance(
                    e.func.value, ast.Name) and e.func.value.id in (
                        'nm', 'np', 'numpy') and n in ARRAYS:
                return 'V'
            t = self.rule.prog.resolve_expr(self.f.module, e.func) \
                if pyfe.dotted(e.func) else None
            if isinstance(t, pyfe.Func):
                return self.rule.returns(t)
        return None

    def operand(self, e):
        """The kind of an operand, by the naming conventions of the package
        if it is not known otherwise."""
        k = self.kind(e)
        if k is None:
            x = name_of(e)
            if x is not None and VECTOR_NAME.match(x):
                return 'V'
            if x is not None and MATRIX_NAME.match(x) \
                    and not isinstance(e, ast.Subscript):
                return 'M'
        return k

    def top(self):
        f = self.f
        while f.outer is not None:
            f = f.outer
        return f


class Sparse:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self._ret, self._attr, self._k = {}, {}, {}
        self.solver = prog.cls('sfepy.solvers.solvers.Solver')
        if self.solver is None:
            raise AnalysisBroken('no Solver class')

    def is_solver(self, f):
        return f.cls is not None and self.solver in f.cls.mro()

    def kinds(self, f):
        if f not in self._k:
            self._k[f] = None
            self._k[f] = Kinds(self, f, self.kinds(f.outer)
                               if f.outer is not None else None)
        return self._k[f]

    def returns(self, f):
        if f not in self._ret:
            self._ret[f] = None
            ks = set()
            k = self.kinds(f)
            if k is None or any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                for n in pyfe.own_nodes(f.node)):
                return None
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    ks.add(k.kind(n.value))
            self._ret[f] = ks.pop() if len(ks) == 1 else None
        return self._ret[f]

    def attr_kind(self, c, attr):
        """All assignments of an attribute in the family give a matrix."""
        if c is None:
            return None
        key = (c, attr)
        if key not in self._attr:
            self._attr[key] = None
            fam = set(self.prog.subclasses(c)) | set(c.mro())
            ks = set()
            for k in fam:
                for f in k.methods.values():
                    if not f.params:
                        continue
                    for n in pyfe.own_nodes(f.node):
                        if isinstance(n, ast.Assign) and any(
                                isinstance(t, ast.Attribute)
                                and t.attr == attr
                                and isinstance(t.value, ast.Name)
                                and t.value.id == f.params[0]
                                for t in n.targets):
                            kk = self.kinds(f)
                            ks.add(kk.kind(n.value) if kk else None)
            ks.discard('0')
            if attr == 'mtx_lcbc':
                ks = {'M'}
            self._attr[key] = ks.pop() if len(ks) == 1 else None
        return self._attr[key]

    def violation(self, f, n, what):
        self.ctx.violation('elementwise-product %s:%s:%s' % (
            f.rel, f.qual, ast.unparse(n)), what, f.where(n))

    def check(self, f):
        ks = self.kinds(f)
        parent = {}
        for n in pyfe.own_nodes(f.node):
            for x in ast.iter_child_nodes(n):
                parent[id(x)] = n
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, ast.BinOp) and isinstance(
                    n.op, (ast.MatMult, ast.Mult)):
                a, b = ks.operand(n.left), ks.operand(n.right)
                mat = {a, b} & {'M', 'R'}
                if not mat:
                    continue
                self.ctx.count('matrix_products')
                if isinstance(n.op, ast.MatMult):
                    continue
                other = b if a in ('M', 'R') else a
                bad = other in ('M', 'V', 'R', 'D')
                if other is None:
                    p = parent.get(id(n))
                    if isinstance(p, ast.BinOp) and isinstance(
                            p.op, (ast.Add, ast.Sub)):
                        o = p.right if p.left is n else p.left
                        bad = ks.kind(o) == 'V'
                if bad:
                    self.violation(f, n, 'the operator * multiplies a sparse'
                                   ' array (or a dense one) by elements: the'
                                   ' matrix product %r needs @'
                                   % ast.unparse(n))
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Mult):
                a, b = ks.kind(n.target), ks.kind(n.value)
                if 'M' in (a, b):
                    self.ctx.count('matrix_products')
                    if a in ('M', 'V') and b in ('M', 'V', 'D'):
                        self.violation(f, n, 'the operator *= multiplies a'
                                       ' sparse array by elements')
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and not (
                        isinstance(n.func.value, ast.Name)
                        and n.func.value.id in ('nm', 'np')):
                k = ks.kind(n.func.value)
                if k in ('M', 'R'):
                    self.ctx.count('matrix_method_calls')
                    if n.func.attr in ('dot',):
                        self.ctx.count('matrix_products')
                    elif n.func.attr == 'multiply' and n.args \
                            and ks.kind(n.args[0]) == 'V':
                        self.ctx.count('matrix_products')
                elif k == 'S' and n.func.attr in DENSE | CONVERT \
                        and not isinstance(n.func.value, ast.Constant):
                    self.ctx.violation(
                        'scalar-as-matrix %s:%s:%s' % (
                            f.rel, f.qual, ast.unparse(n)),
                        'the product of two rows of a sparse array is a'
                        ' scalar: it has no %s()' % n.func.attr, f.where(n))


EXPLANATION = (
    'The kinds of the values (matrix, row of a sparse array, array, scalar)'
    ' are inferred in every function from the constructors and conversions of'
    ' sparse arrays, the interface of the solvers (arguments, tangent matrix'
    ' and residual callbacks), attributes and returned values. A product by'
    ' the operator * of a matrix with an array or a matrix is a violation,'
    ' as is the use of a product of two rows as a matrix.')
RULE = 'one obligation per product with an operand inferred as a matrix'
ASSUMPTIONS = ['sparse matrices are sparse arrays of SciPy (csr_array, ...),'
               ' as built by this package',
               'operands of unknown kind are not judged']


def run(ctx):
    prog = pyfe.load(ctx.repo)
    s = Sparse(ctx, prog)
    for f in prog.all_funcs():
        ctx.count('functions')
        s.check(f)
    ctx.floor('functions', 1500)
    ctx.floor('matrix_products', 20)
