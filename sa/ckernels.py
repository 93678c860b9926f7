"""
Index formulas of native term kernels.

A kernel function is abstracted to the index formula of its result: calls of
matrix operations are replaced by their formulas (`HELPERS`), integrals by a
factor of the Jacobian, the loop over cells by one generic cell. Arrays are the
abstract tensors of `tensors`, nothing is executed or computed.
"""
import math
from fractions import Fraction

from . import tensors as T
from .cfe import render

NCELL, NQP = 5, 17


class Undecided(Exception):
    pass


class Wrong(Exception):
    """The kernel combines arrays in a meaningless way."""


class Unknown:
    """An integer or a pointer without a role in the formulas."""


class Cell(Unknown):
    """A multiple of the number of the current cell."""

    def __init__(self, by):
        self.by = by


class Conn(Unknown):
    """A row of the connectivity, or its beginning."""

    def __init__(self, by=None):
        self.by = by


class Buf:
    def __init__(self, name, lev, arr, local=False):
        self.name, self.lev, self.arr, self.local = name, lev, arr, local
        self.last = None


class Fld:
    def __init__(self, name, dims=None, buf=None):
        self.name, self.dims, self.buf = name, dims, buf

    def get(self, m):
        if self.dims is None:
            raise Undecided('%s is not allocated' % self.name)
        if m == 'nCell':
            return NCELL
        return self.dims[('nLev', 'nRow', 'nCol').index(m)]

    def read(self):
        if self.buf is None or self.buf.arr is None:
            raise Wrong('%s is used before it is computed' % self.name)
        if self.buf.lev != self.dims[0]:
            raise Undecided('levels of ' + self.name)
        try:
            return self.buf.arr.reshape(self.dims[1:])
        except T.Mismatch as exc:
            raise Wrong('%s: %s' % (self.name, exc))

    def write(self, arr, lev):
        if self.buf is None or self.dims is None:
            raise Wrong('%s is not allocated' % self.name)
        if (lev,) + arr.shape[arr.lead:] != tuple(self.dims):
            raise Wrong('%s has %d x %d components in %s, the result has '
                        '%d x %d in %s'
                        % (self.name, self.dims[1], self.dims[2],
                           lv(self.dims[0]), arr.shape[-2], arr.shape[-1],
                           lv(lev)))
        self.buf.arr = arr


def lv(n):
    return 'one level' if n == 1 else 'all levels'


class Map:
    def __init__(self, name, members):
        self.name, self.members = name, members


class Ptr:
    """Values of an array; at: index of a level, or None."""

    def __init__(self, buf, dims):
        self.buf, self.dims = buf, dims


class Elem:
    """An element used as a number: 'q' of each level, '0' the first one."""

    def __init__(self, buf, at):
        self.buf, self.at = buf, at


class Func(Unknown):
    def __init__(self, name):
        self.name = name


class Return(Exception):
    pass


class Goto(Exception):
    pass


ZERO = T.Arr([(), ()], [])
QP = Unknown()


def scalar(name):
    return T.Arr([(), ()], [(Fraction(1), ((name, ()),))], 0)


class Kernel:
    def __init__(self, prog, fn, args, helpers, dim):
        self.prog, self.fn, self.helpers, self.dim = prog, fn, helpers, dim
        self.env = {p[0]: v for p, v in zip(fn.params, args)}
        self.cells = 0
        self.done_cells = False
        self.calls = 0
        alloc = prog.func('mem_alloc_mem')
        self.zeroed = alloc is None or any(
            x.k == 'CallExpr' and x.c[0].name == 'memset'
            for x in alloc.body.walk())
        self.where = fn.where()
        try:
            self.block(fn.body.c)
        except (Return, Goto):
            pass

    # -------------------------------------------------------- statements
    def block(self, ss):
        for s in ss:
            if s is not None:
                self.stmt(s)

    def stmt(self, s):
        k = s.k
        if k == 'CompoundStmt':
            self.block(s.c)
        elif k == 'DeclStmt':
            for d in s.c:
                if d.k == 'VarDecl':
                    self.decl(d)
        elif k == 'IfStmt':
            c = self.ev(s.c[0])
            if isinstance(c, Unknown):
                # error checks and the number of cells
                if any(n.k == 'CallExpr' for n in s.walk()):
                    raise Undecided('condition ' + render(s.c[0]))
                return
            if self.number(c):
                self.stmt(s.c[1])
            elif len(s.c) > 2 and s.c[2] is not None:
                self.stmt(s.c[2])
        elif k == 'ForStmt':
            self.loop(s)
        elif k == 'DoStmt':
            self.stmt(s.c[0])
        elif k == 'ReturnStmt':
            raise Return()
        elif k == 'GotoStmt':
            raise Goto()
        elif k == 'LabelStmt':
            self.block(s.c)
        elif k == 'NullStmt':
            pass
        elif k in ('SwitchStmt', 'WhileStmt', 'BreakStmt', 'ContinueStmt'):
            raise Undecided(k)
        else:
            self.ev(s)

    def decl(self, d):
        t = d.type
        init = d.c[0] if d.c else None
        if 'FMField' in t:
            self.env[d.name] = Fld(d.name)
            if init is not None and '*' in t and init.k != 'IntegerLiteral' \
                    and render(init) not in ('0', 'NULL') \
                    and not render(init).startswith(('ImplicitCast',
                                                     'CStyle')):
                v = self.ev(init)
                if isinstance(v, Fld):
                    self.env[d.name] = v
            return
        self.env[d.name] = self.ev(init) if init is not None \
            else Unknown() if '[' in t else None

    def loop(self, s):
        init, _, cond, inc, body = s.c
        if init is not None:
            self.stmt(init)
        if cond is None or cond.k != 'BinaryOperator' \
                or cond.op not in ('<', '!=') \
                or cond.c[0].k != 'DeclRefExpr':
            raise Undecided('loop')
        n = self.ev(cond.c[1])
        name = cond.c[0].name
        if n == NCELL:
            if self.cells:
                raise Undecided('nested loops over cells')
            for v in self.bufs():
                if v.local and v.arr is not None and v.arr is not ZERO:
                    # the value of the previous cell
                    v.arr = None
                elif v.local:
                    v.stale = True
            entry = {id(v): v.arr for v in self.bufs()}
            self.env[name] = Cell(1)
            self.cells = 1
            written = self.assigned(body)
            for v in self.bufs():
                if v.local and v.arr is ZERO:
                    v.arr = T.Arr([(), ()], [
                        (Fraction(1), (('previous_cell_' + v.name, ()),))],
                        0) if v.name in written['inc'] else ZERO
            self.stmt(body)
            self.cells = 0
            del entry
        elif n == NQP:
            self.env[name] = QP
            self.stmt(body)
            self.env[name] = Unknown()
        else:
            raise Undecided('loop up to ' + render(cond.c[1]))

    def assigned(self, body):
        """Arrays changed in place element by element in a cell."""
        inc = set()
        for n in body.walk():
            if n.k == 'CompoundAssignOperator' \
                    and n.c[0].k == 'ArraySubscriptExpr':
                for x in n.c[0].c[0].walk():
                    if x.k == 'DeclRefExpr':
                        inc.add(x.name)
        return {'inc': inc}

    def bufs(self):
        out = []
        for v in self.env.values():
            if isinstance(v, Fld) and v.buf is not None \
                    and v.buf not in out:
                out.append(v.buf)
        return out

    # ------------------------------------------------------- expressions
    def number(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        raise Undecided('a number is needed')

    def ev(self, n):
        k = n.k
        if k == 'DeclRefExpr':
            if n.name in ('RET_OK', 'RET_Fail', 'g_error'):
                return Unknown()
            if n.name not in self.env:
                return Func(n.name)
            if self.env[n.name] is None:
                raise Wrong('%s is used before it is set' % n.name)
            return self.env[n.name]
        if k == 'IntegerLiteral':
            return int(n.val)
        if k == 'FloatingLiteral':
            return Fraction(str(n.val))
        if k == 'MemberExpr':
            return self.member(n)
        if k == 'ArraySubscriptExpr':
            a = self.ev(n.c[0])
            i = self.ev(n.c[1])
            if isinstance(a, Ptr):
                if a.dims is None or a.dims[1:] != (1, 1):
                    raise Undecided('element of ' + render(n.c[0]))
                at = 'q' if i is QP or a.dims[0] == 1 else '0'
                if at == '0' and i != 0:
                    raise Undecided('element of ' + render(n.c[0]))
                return Elem(a.buf, at)
            return Unknown()
        if k == 'UnaryOperator':
            if n.op in ('++', '--'):
                return Unknown()
            if n.op == '&':
                return self.ev(n.c[0])
            if n.op == '*':
                v = self.ev(n.c[0])
                if isinstance(v, Ptr) and v.dims and v.dims[1:] == (1, 1):
                    return Elem(v.buf, 'q' if v.dims[0] == 1 else '0')
                return v if isinstance(v, Fld) else Unknown()
            v = self.ev(n.c[0])
            if isinstance(v, Unknown):
                return v
            if n.op == '!':
                return int(not self.number(v))
            if n.op == '-':
                if isinstance(v, (T.Arr, Elem)):
                    return self.arr(v).scale(Fraction(-1))
                return -self.number(v)
            raise Undecided('operator ' + n.op)
        if k == 'BinaryOperator':
            if n.op == '=':
                return self.assign(n.c[0], self.ev(n.c[1]))
            if n.op == ',':
                self.ev(n.c[0])
                return self.ev(n.c[1])
            a = self.ev(n.c[0])
            if n.op in ('&&', '||') and isinstance(a, int):
                if bool(a) == (n.op == '||'):
                    return int(bool(a))
                b = self.ev(n.c[1])
                return b if isinstance(b, Unknown) else int(bool(b))
            return self.arith(n.op, a, self.ev(n.c[1]))
        if k == 'CompoundAssignOperator':
            old = self.ev(n.c[0])
            new = self.arith(n.op[:-1], old, self.ev(n.c[1]))
            return self.assign(n.c[0], new)
        if k == 'ConditionalOperator':
            c = self.ev(n.c[0])
            return self.ev(n.c[1] if self.number(c) else n.c[2])
        if k == 'CallExpr':
            return self.call(n)
        return Unknown()

    def member(self, n):
        o = self.ev(n.c[0])
        if isinstance(o, Map):
            if n.name in ('nQP',):
                return NQP
            if n.name == 'dim':
                return self.dim
            if n.name in o.members:
                return o.members[n.name]
            raise Undecided('member ' + n.name)
        if isinstance(o, Fld):
            if n.name in ('val', 'val0'):
                if o.buf is None:
                    return Unknown()
                return Ptr(o.buf, o.dims)
            if n.name in ('nCell', 'nLev', 'nRow', 'nCol'):
                return o.get(n.name)
            return Unknown()
        return Unknown()

    def assign(self, lhs, v):
        if lhs.k == 'DeclRefExpr':
            self.env[lhs.name] = v
            return v
        if lhs.k == 'MemberExpr' and lhs.name in ('val', 'val0'):
            o = self.ev(lhs.c[0])
            if isinstance(o, Fld):
                if isinstance(v, Ptr):
                    o.buf = v.buf
                return v
        if lhs.k == 'ArraySubscriptExpr':
            e = self.ev(lhs)
            if isinstance(e, Elem) and e.at == 'q':
                e.buf.arr = self.arr(v)
                return v
            if isinstance(e, Elem):
                raise Undecided('one level is written')
        if lhs.k == 'MemberExpr':
            return v
        if lhs.k == 'UnaryOperator' and lhs.op == '*':
            o = self.ev(lhs.c[0])
            if isinstance(o, Fld):
                raise Undecided('array pointer')
        raise Undecided('assignment to ' + render(lhs))

    def arr(self, v):
        if isinstance(v, T.Arr):
            return v
        if isinstance(v, Elem):
            if v.buf.arr is None:
                raise Wrong('%s is used before it is computed' % v.buf.name)
            a = v.buf.arr
            if v.at == 'q' or v.buf.lev == 1:
                return a
            # the value in the first quadrature point only
            return T.Arr(a.axes, [
                (c, tuple(('%s in the first quadrature point' % f, i)
                          for f, i in fs)) for c, fs in a.terms], 0)
        if isinstance(v, (int, Fraction)):
            return T.Arr.const(v) if v else ZERO
        raise Undecided('a value is needed')

    def arith(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in '+-':
                return a if isinstance(a, Ptr) else b
            raise Undecided('pointer arithmetic')
        if isinstance(a, (T.Arr, Elem)) or isinstance(b, (T.Arr, Elem)):
            if op == '/' and not isinstance(a, Unknown):
                x = self.arr(b)
                if isinstance(b, Elem) and len(x.terms) == 1 \
                        and len(x.terms[0][1]) == 1 \
                        and x.terms[0][0] == 1:
                    inv = T.Arr([(), ()], [(Fraction(1), (
                        ('1/' + x.terms[0][1][0][0], ()),))], 0)
                    return T.mul(self.arr(a), inv)
                raise Undecided('division')
            a, b = self.arr(a), self.arr(b)
            if op == '*':
                return T.mul(a, b)
            if op in '+-':
                return plus(a, b, 1 if op == '+' else -1)
            raise Undecided('operator ' + op)
        if isinstance(a, Cell) and isinstance(b, int):
            a, b = b, a
        if isinstance(b, Cell) and isinstance(a, int) and op == '*':
            return Cell(a * b.by)
        if isinstance(a, Cell) and isinstance(b, Conn):
            a, b = b, a
        if isinstance(a, Conn) and isinstance(b, Cell) and op in '+-':
            return Conn(b.by * (1 if op == '+' else -1))
        if isinstance(a, Unknown) or isinstance(b, Unknown) or a is None \
                or b is None:
            return Unknown()
        a, b = self.number(a), self.number(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if isinstance(a, int) and isinstance(b, int):
                return a // b
            return Fraction(a) / b
        if op == '%':
            return a % b
        r = {'==': a == b, '!=': a != b, '<': a < b, '>': a > b,
             '<=': a <= b, '>=': a >= b, '&&': a and b, '||': a or b}.get(op)
        if r is None:
            raise Undecided('operator ' + op)
        return int(bool(r))

    # -------------------------------------------------------------- calls
    def call(self, n):
        f = n.c[0]
        while f.k in ('UnaryOperator', 'ParenExpr') and f.c:
            f = f.c[0]
        name = f.name
        if isinstance(self.env.get(name), Func):
            name = self.env[name].name
        raw = n.c[1:]
        if name in ('fmf_createAlloc', 'fmf_alloc'):
            f = self.target(raw[0])
            dims = tuple(self.ev(x) for x in raw[1:5])
            if not all(isinstance(x, int) for x in dims):
                raise Undecided('size of ' + f.name)
            f.dims = dims[1:]
            f.buf = Buf(f.name, dims[1], ZERO, True)
            return Unknown()
        if name in ('fmf_freeDestroy', 'fmf_free', 'output',
                    'fmf_print', 'errclear', 'errset', 'fmf_save'):
            return Unknown()
        if name == 'errput':
            raise Wrong('an error is reported for valid arguments')
        if name in ('fmf_pretend', 'fmf_pretend_nc'):
            f = self.target(raw[0])
            dims = tuple(self.ev(x) for x in raw[1:5])
            p = self.ev(raw[5])
            if not isinstance(p, Ptr):
                raise Undecided('data of ' + f.name)
            f.dims = dims[1:]
            f.buf = p.buf
            return Unknown()
        if name == 'sqrt':
            v = self.number(self.ev(raw[0]))
            return math.isqrt(int(v))
        args = [self.ev(x) for x in raw]
        self.calls += 1
        if name in ('fmf_fillC', 'fmfc_fillC'):
            v = self.arr(args[1])
            if v.terms:
                raise Undecided('fill')
            args[0].buf.arr = ZERO
            return Unknown()
        if name in ('fmf_copy', 'fmfc_copy'):
            args[0].write(args[1].read(), args[1].dims[0])
            return Unknown()
        if name in ('ele_extractNodalValuesDBD', 'ele_extractNodalValuesNBN'):
            f, st = args[0], args[1]
            dofs = st.read().fresh()       # (component, basis function)
            by = args[2].by if isinstance(args[2], Conn) else None
            nep = dofs.size(dofs.axes[1])
            if by not in (None, nep):
                raise Wrong('rows of the connectivity have %s items, %s()'
                            ' gathers %s' % (by, name, nep))
            if name.endswith('NBN'):
                dofs = dofs.transpose((1, 0))
            f.write(dofs, 1)
            return Unknown()
        if name in self.helpers:
            self.helper(name, args)
            return Unknown()
        fn = self.prog.func(name)
        if fn is not None and fn.body is not None:
            sub = Kernel.__new__(Kernel)
            sub.__dict__.update(self.__dict__)
            sub.env = {p[0]: v for p, v in zip(fn.params, args)}
            sub.fn = fn
            try:
                sub.block(fn.body.c)
            except (Return, Goto):
                pass
            self.calls += sub.calls
            return Unknown()
        raise Undecided('call of %s()' % name)

    def target(self, n):
        while n.k in ('UnaryOperator',) and n.op in '&*':
            n = n.c[0]
        v = self.ev(n)
        if not isinstance(v, Fld):
            raise Undecided('array ' + render(n))
        return v

    def helper(self, name, args):
        formula = self.helpers[name][1]
        fn = self.prog.func(name)
        params = [p[0] for p in fn.params]
        out = access(formula.split('=')[0].strip())[0]
        shapes = self.helpers[name][0]
        for alt in (self.helpers[name] + ((),))[2]:
            a = args[params.index(out)]
            sh = alt.split(',')[params.index(out)].split()
            if isinstance(a, Fld) and a.dims and [
                    x != 1 for x in a.dims[1:]] == [x != '1' for x in sh]:
                shapes = alt
        shapes = [x.strip() for x in shapes.split(',')]
        ops = {}
        levels = {}
        for p, sh, a in zip(params, shapes, args):
            if sh.rstrip('*') == '$':
                ops[p] = (None, self.arr(a))
                levels[p] = 1
            elif sh == ':q':
                if not isinstance(a, Ptr):
                    raise Undecided('argument of ' + name)
                if a.dims is None or a.dims[1:] != (1, 1):
                    raise Wrong('%s() takes a scalar in each quadrature '
                                'point, %s is given' % (name, a.buf.name))
                if a.buf.arr is None:
                    raise Wrong('%s is used before it is computed'
                                % a.buf.name)
                ops[p] = (None, a.buf.arr)
                levels[p] = a.dims[0]
            else:
                if not isinstance(a, Fld):
                    raise Undecided('argument of ' + name)
                ops[p] = (sh, a)
                if a.dims is None:
                    raise Wrong('%s is not allocated' % a.name)
                levels[p] = a.dims[0]
        cellwise = name.startswith('fmfc_')
        if (self.helpers[name] + ((), ''))[3:4] == ('zero',):
            b = ops[out][1].buf
            if b is None or not b.local or not self.zeroed:
                raise Wrong('%s() writes only some components of %s'
                            % (name, ops[out][1].name))
            if b.arr is not ZERO and b.last != name:
                raise Wrong('%s() writes only some components of %s, that '
                            'was used for %s()'
                            % (name, ops[out][1].name, b.last))
        lhs, rhs = [x.strip() for x in formula.split('=')]
        out, groups = access(lhs)
        target = ops[out][1]
        if isinstance(target, Fld) and target.buf is not None \
                and not target.buf.local:
            if cellwise and self.cells:
                raise Wrong('%s() changes all cells of %s in each cell'
                            % (name, target.name))
            if not cellwise and not self.cells:
                raise Wrong('%s() changes only one cell of %s after the loop'
                            % (name, target.name))
        # levels
        lev = None
        for p, sh in zip(params, shapes):
            if ':1' in sh:
                if levels[p] != 1:
                    raise Wrong('%s() uses one level of %s'
                                % (name, ops[p][1].name))
            elif sh == ':q' or sh.rstrip('*') == '$':
                continue
            elif lev is None or p == out:
                lev = levels[p]
            elif levels[p] != lev and levels[p] != 1 or lev == 1 \
                    and levels[p] != 1:
                raise Wrong('%s(): levels of %s do not match'
                            % (name, ops[p][1].name))
        total = None
        sign = 1
        for tok in split_terms(rhs):
            if tok in '+-':
                sign = 1 if tok == '+' else -1
                continue
            t = self.product(name, tok.split(), groups, ops, shapes, params,
                             out)
            total = t.scale(Fraction(sign)) if total is None \
                else plus(total, t, sign)
        osh = shapes[params.index(out)]
        target.write(total, 1 if ':1' in osh else target.dims[0])
        target.buf.last = name

    def product(self, name, factors, groups, ops, shapes, params, out):
        arrs, letters = [], []
        oshape = shapes[params.index(out)].split(':')[0].rstrip('*').split()
        zero = False
        for f in factors:
            p, gr = access(f)
            if p == 'I':
                arrs.append(T.eye(self.dim, self.dim))
                letters.append(gr)
                continue
            sh, a = ops[p]
            if sh is None:
                arrs.append(T.Arr([], a.terms, a.lead))
                letters.append([])
                if not a.terms:
                    zero = True
                continue
            arr = a.read()
            if not arr.terms:
                zero = True
                arr = filler(a)
            arr = arr.fresh()
            spec = [x.split('*') for x in
                    sh.split(':')[0].rstrip('*').split()]
            it = iter(gr)
            pos, lets = 0, []
            for ax in spec:
                if ax == ['1']:
                    if arr.size(arr.axes[pos]) != 1:
                        raise Wrong('%s() needs one component of %s'
                                    % (name, a.name))
                    arr = T.Arr(arr.axes[:pos] + arr.axes[pos + 1:],
                                arr.terms, arr.lead)
                    continue
                g = next(it)
                v = [c for c in g if c.isalnum()]
                n = arr.size(arr.axes[pos])
                if '~' in g:
                    try:
                        arr = arr.split_sym(pos, self.dim)
                    except T.Undecided:
                        raise Wrong('%s() needs symmetric storage of %s'
                                    % (name, a.name))
                    axes = list(arr.axes)
                    i, j = axes[pos]
                    axes[pos:pos + 1] = [(i,), (j,)]
                    arr = T.Arr(axes, arr.terms, arr.lead)
                elif len(v) == 2:
                    if n % self.dim:
                        raise Wrong('%s() cannot use %d components of %s'
                                    % (name, n, a.name))
                    dims = [arr.size(x) for x in arr.axes]
                    dims[pos:pos + 1] = [self.dim, n // self.dim]
                    try:
                        arr = arr.reshape(dims)
                    except T.Mismatch as exc:
                        raise Wrong('%s: %s' % (name, exc))
                elif ax[0] == 'd' and n != self.dim:
                    raise Wrong('%s() cannot use %d components of %s'
                                % (name, n, a.name))
                lets += v
                pos += len(v)
            arrs.append(arr)
            letters.append(lets)
        try:
            res = T.contract(arrs, letters)
        except T.Mismatch as exc:
            raise Wrong('%s(): %s' % (name, exc))
        order = sorted(set(x for g in letters for x in g
                           if sum(h.count(x) for h in letters) == 1))
        axes = dict(zip(order, res.axes))
        it = iter(groups)
        fin = []
        for ax in oshape:
            if ax == '1':
                fin.append(())
                continue
            g = next(it)
            if '+' in g:
                raise Undecided('strain')
            t = ()
            for c in g:
                if c.isalnum():
                    t += axes[c]
            fin.append(t)
        return T.Arr(fin, [] if zero else res.terms, res.lead)


def filler(f):
    return T.Arr.named('zero', f.dims[1:])


def plus(a, b, sign=1):
    if not a.terms:
        return b.scale(Fraction(sign))
    if not b.terms:
        return a
    return T.add(a, b, sign)


def access(s):
    if '[' not in s:
        return s, []
    n, g = s.rstrip(']').split('[')
    return n, [x.strip() for x in g.split(',')] if g else []


def split_terms(rhs):
    return [x for x in rhs.replace(' + ', '\0+\0').replace(' - ', '\0-\0')
            .split('\0')]
