"""
Algebraic normal forms of the results of native kernels.

For arguments of given shapes the control flow of a kernel does not depend on
the data: its results are sums of products of the elements of its arguments.
They are derived from the syntax trees of the kernel and of the functions it
calls, as Laurent polynomials with rational exponents in these elements, where
the reciprocal of a sum is a new variable. Equal expressions have equal normal
forms; a branch on data has none.
"""
from fractions import Fraction

from .cfe import render


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


_inv = {}
_inv_of = {}


class P:
    """Polynomial: {((variable, exponent), ...): coefficient}."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @classmethod
    def c(cls, v):
        v = Fraction(v)
        return cls({(): v} if v else {})

    @classmethod
    def v(cls, name):
        return cls({((name, 1),): Fraction(1)})

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return P(d)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, Log):
            return o*self
        o = lift(o)
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = mono(m, n)
                x = d.get(k, 0) + c*e
                if x:
                    d[k] = x
                else:
                    d.pop(k, None)
        return P(d)
    __rmul__ = __mul__

    def power(self, e):
        """Rational power of a monomial."""
        e = Fraction(e)
        if len(self.d) != 1:
            if e.denominator == 1 and e >= 0:
                out = P.c(1)
                for _ in range(int(e)):
                    out = out*self
                return out
            raise Undecided('power of a sum')
        (m, c), = self.d.items()
        if e.denominator != 1 and c != 1:
            raise Undecided('root of a number')
        return P({tuple((v, x*e) for v, x in m if x*e):
                  c**int(e) if e.denominator == 1 else c})

    def inverse(self):
        if not self.d:
            raise Undecided('division by zero')
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return P({tuple((v, -x) for v, x in m): 1/c})
        lead = self.d[min(self.d)]
        key = tuple(sorted((m, c/lead) for m, c in self.d.items()))
        if key not in _inv:
            _inv[key] = '1/#%d' % (len(_inv) + 1)
            _inv_of[_inv[key]] = P(dict(key))
        return P({((_inv[key], 1),): 1/lead})

    def __truediv__(self, o):
        return self*lift(o).inverse()

    def __rtruediv__(self, o):
        return lift(o)*self.inverse()

    def sign(self):
        """Sign for positive variables."""
        if not self.d:
            return 0
        s = {c > 0 for c in self.d.values()}
        if len(s) == 1:
            return 1 if s.pop() else -1
        raise Undecided('sign of an expression')

    def diff(self, rules):
        """Derivative: rules(variable) -> P or None (zero)."""
        out = P()
        for m, c in self.d.items():
            for i, (v, e) in enumerate(m):
                r = rules(v)
                if r is None:
                    continue
                rest = P({tuple(x for j, x in enumerate(m) if j != i): c*e})
                if e != 1:
                    rest = rest*P({((v, e - 1),): Fraction(1)})
                out = out + rest*r
        return out

    def subs(self, table):
        """Replace variables by polynomials or numbers."""
        out = P()
        for m, c in self.d.items():
            t = P.c(c)
            for v, e in m:
                if v in table:
                    t = t*lift(table[v]).power(e)
                else:
                    t = t*P({((v, e),): Fraction(1)})
            out = out + t
        return out

    def __eq__(self, o):
        return self.d == lift(o).d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items(), key=str)[:8]:
            out.append('%s%s' % (c, ''.join(
                '*%s%s' % (v, '' if e == 1 else '^%s' % e) for v, e in m)))
        return ' + '.join(out) + (' + ...' if len(self.d) > 8 else '') or '0'


def mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) + e
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def lift(v):
    if isinstance(v, P):
        return v
    if isinstance(v, (int, Fraction)):
        return P.c(v)
    raise Undecided('a number is needed')


class Log:
    def __init__(self, arg, coef=Fraction(1)):
        self.arg, self.coef = arg, coef

    def __mul__(self, o):
        c = lift(o).const()
        if c is None:
            raise Undecided('product of a logarithm')
        return Log(self.arg, self.coef*c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self*lift(o).inverse()

    def __neg__(self):
        return Log(self.arg, -self.coef)


class Abs:
    def __init__(self, arg):
        self.arg = arg


class Struct:
    def __init__(self, **kw):
        self.__dict__['m'] = dict(kw)

    def get(self, name):
        if name not in self.m:
            raise Undecided('member %s is not set' % name)
        return self.m[name]


class Buf:
    __slots__ = ('v', 'kind')

    def __init__(self, v, kind=None):
        self.v, self.kind = v, kind


class Ptr:
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off

    def load(self):
        if not 0 <= self.off < len(self.buf.v):
            raise Wrong('an element outside of an array is read')
        v = self.buf.v[self.off]
        if v is None:
            raise Wrong('an element is read before it is set')
        return v

    def store(self, v):
        if not 0 <= self.off < len(self.buf.v):
            raise Wrong('an element outside of an array is written')
        if self.buf.kind == 'f' and not isinstance(v, (P, Log)):
            v = lift(v)
        self.buf.v[self.off] = v


def field(data, nc, nl, nr, ncol, unset=False):
    """FMField of given values (function of cell, level, row, column)."""
    vals = [None if data is None else lift(data(i, j, k, l))
            for i in range(nc) for j in range(nl) for k in range(nr)
            for l in range(ncol)]
    p = Ptr(Buf(vals, 'f'))
    return Ptr(Buf([Struct(nCell=nc, nLev=nl, nRow=nr, nCol=ncol, val=p,
                           val0=p, cellSize=nl*nr*ncol, offset=0,
                           nColFull=ncol, nAlloc=nc*nl*nr*ncol)]))


def item(f, i, j, k, l):
    s = f.buf.v[f.off]
    v = s.m['val0']
    return v.buf.v[v.off + ((i*s.m['nLev'] + j)*s.m['nRow'] + k)*s.m['nCol']
                   + l]


def index(v, *shape):
    """Names of the elements of an array."""
    return lambda i, j, k, l: P.v('%s_%d%d%d%d' % (v, i, j, k, l))


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Goto(Exception):
    pass


LIMIT = 2000000


class Eval:
    def __init__(self, prog):
        self.prog = prog
        self.steps = 0
        self.glob = {}
        self.seen = set()

    # ------------------------------------------------------------- calls
    def run(self, name, *args):
        fn = self.prog.func(name)
        if fn is None:
            raise Undecided('no function %s()' % name)
        return self.invoke(fn, list(args))

    def invoke(self, fn, args):
        self.seen.add((fn.file, fn.name))
        env = {}
        for (name, typ, _), v in zip(fn.params, args):
            env[name] = Buf([v], kind_of(typ))
            Ptr(env[name]).store(v)
        f = Frame(self, fn, env)
        try:
            f.block(fn.body.c)
        except Return as r:
            return r.v
        except Goto:
            raise Undecided('a jump')
        return None

    def global_var(self, name, file):
        key = (file, name)
        if key in self.glob:
            return self.glob[key]
        for rel in [file] + list(self.prog.globals):
            g = self.prog.globals.get(rel) or []
            for d in g.values() if isinstance(g, dict) else g:
                d = d[-1] if isinstance(d, tuple) else d
                if getattr(d, 'name', None) == name and d.c \
                        and d.c[0] is not None:
                    f = Frame(self, None, {})
                    self.glob[key] = f.variable(d)
                    return self.glob[key]
        if name == 'g_error':
            self.glob[key] = Buf([0])
            return self.glob[key]
        raise Undecided('variable ' + name)


def kind_of(typ):
    typ = (typ or '').replace('const ', '').strip()
    if '*' in typ:
        return None
    base = typ.split('[')[0].strip()
    if base in ('float64', 'double', 'float'):
        return 'f'
    return None


class Frame:
    def __init__(self, ev, fn, env):
        self.e, self.fn, self.env = ev, fn, env

    def variable(self, d):
        typ = d.type or ''
        kind = kind_of(typ)
        init = d.c[0] if d.c else None
        if '[' in typ:
            dims = []
            for x in typ.split('[')[1:]:
                x = x.split(']')[0]
                if not x.isdigit():
                    raise Undecided('size of ' + d.name)
                dims.append(int(x))
            if len(dims) != 1:
                raise Undecided('array of arrays')
            if init is not None and init.k == 'InitListExpr':
                vals = [self.ev(x) for x in init.c]
                vals += [0]*(dims[0] - len(vals))
                if kind == 'f':
                    vals = [lift(v) for v in vals]
            elif init is not None:
                raise Undecided('initial value of ' + d.name)
            elif typ.split('[')[0].strip() in ('FMField', 'Mapping'):
                vals = [Struct() for _ in range(dims[0])]
            else:
                vals = [None]*dims[0]
            return Buf([Ptr(Buf(vals, kind))])
        if init is not None:
            if init.k == 'InitListExpr':
                raise Undecided('initial value of ' + d.name)
            b = Buf([None], kind)
            Ptr(b).store(self.ev(init))
            return b
        if typ in ('FMField', 'Mapping'):
            return Buf([Struct()])
        return Buf([None], kind)

    # -------------------------------------------------------- expressions
    def lval(self, n):
        k = n.k
        if k == 'DeclRefExpr':
            if n.name in self.env:
                return Ptr(self.env[n.name])
            return Ptr(self.e.global_var(n.name, self.fn.file
                                         if self.fn else None))
        if k == 'ArraySubscriptExpr':
            a, i = self.ev(n.c[0]), self.ev(n.c[1])
            return self.add(a, i)
        if k == 'UnaryOperator' and n.op == '*':
            p = self.ev(n.c[0])
            if isinstance(p, Ptr):
                return p
        if k == 'MemberExpr':
            o = self.ev(n.c[0]) if n.arrow else self.lval(n.c[0])
            if isinstance(o, Ptr):
                s = o.load()
                if isinstance(s, Struct):
                    return Member(s, n.name)
        if k == 'UnaryOperator' and n.op in ('++', '--') and not n.post:
            self.ev(n)
            return self.lval(n.c[0])
        raise Undecided('access ' + render(n))

    @staticmethod
    def add(p, i):
        if isinstance(i, Ptr):
            p, i = i, p
        if not isinstance(p, Ptr) or not isinstance(i, int):
            raise Undecided('address')
        return Ptr(p.buf, p.off + i)

    def ev(self, n):
        k = n.k
        if k == 'DeclRefExpr':
            if n.name in ('RET_OK', 'RET_Fail'):
                return {'RET_OK': 0, 'RET_Fail': 1}[n.name]
            return self.lval(n).load()
        if k == 'IntegerLiteral':
            return int(n.val)
        if k == 'FloatingLiteral':
            return P.c(Fraction(str(n.val)))
        if k == 'StringLiteral':
            return str(n.val)
        if k == 'GNUNullExpr':
            return 0
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.lval(n).load()
        if k == 'UnaryOperator':
            if n.op == '*':
                return self.lval(n).load()
            if n.op == '&':
                return self.lval(n.c[0])
            if n.op in ('++', '--'):
                lv = self.lval(n.c[0])
                old = lv.load()
                new = self.arith('+', old, 1 if n.op == '++' else -1, n.type)
                lv.store(new)
                return old if n.post else new
            v = self.ev(n.c[0])
            if n.op == '-':
                return -v
            if n.op == '+':
                return v
            if n.op == '!':
                return int(not self.truth(v))
            raise Undecided('operator ' + n.op)
        if k == 'BinaryOperator':
            if n.op == '=':
                v = self.ev(n.c[1])
                self.lval(n.c[0]).store(v)
                return v
            if n.op == ',':
                self.ev(n.c[0])
                return self.ev(n.c[1])
            if n.op in ('&&', '||'):
                a = self.truth(self.ev(n.c[0]))
                if (n.op == '&&') != a:
                    return int(a)
                return int(self.truth(self.ev(n.c[1])))
            return self.arith(n.op, self.ev(n.c[0]), self.ev(n.c[1]), n.type)
        if k == 'CompoundAssignOperator':
            v = self.ev(n.c[1])
            lv = self.lval(n.c[0])
            v = self.arith(n.op[:-1], lv.load(), v, n.type)
            lv.store(v)
            return v
        if k == 'ConditionalOperator':
            return self.ev(n.c[1] if self.truth(self.ev(n.c[0])) else n.c[2])
        if k == 'CallExpr':
            return self.call(n)
        if k == 'UnaryExprOrTypeTraitExpr':
            return 1
        raise Undecided(k)

    def arith(self, op, a, b, typ=None):
        self.e.steps += 1
        if self.e.steps > LIMIT:
            raise Undecided('the code is too long')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                return self.add(a, b)
            if op == '-' and isinstance(a, Ptr) and isinstance(b, int):
                return self.add(a, -b)
            raise Undecided('address')
        if isinstance(a, int) and isinstance(b, int):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a*b
            if op in '/%':
                if not b:
                    raise Undecided('division by zero')
                if op == '/' and kind_of(typ) == 'f':
                    return P.c(Fraction(a, b))
                q = abs(a)//abs(b)*(1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - q*b
            raise Undecided('operator ' + op)
        if isinstance(a, Log) or isinstance(b, Log):
            if op == '*':
                return a*b
            if op == '/' and isinstance(a, Log):
                return a/b
            raise Undecided('sum of logarithms')
        if op == '+':
            return lift(a) + b
        if op == '-':
            return lift(a) - b
        if op == '*':
            return lift(a)*b
        if op == '/':
            return lift(a)/b
        raise Undecided('operator ' + op)

    @staticmethod
    def compare(op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.buf is not b.buf:
                    raise Undecided('comparison of addresses')
                a, b = a.off, b.off
            else:
                a, b = (1 if isinstance(x, Ptr) else x for x in (a, b))
        if isinstance(a, Abs) or isinstance(b, Abs):
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            # |x| < eps does not hold for a generic x.
            if isinstance(a, Abs) and op in ('<', '<='):
                c = lift(b).const()
                x = lift(a.arg).const()
                if c is not None and c <= Fraction(1, 1000000):
                    return int(x is not None and abs(x) < c)
            if isinstance(b, Abs):
                c = lift(a).const()
                x = lift(b.arg).const()
                if c is not None and c <= Fraction(1, 1000000):
                    return int(x is None or abs(x) > c)
            raise Undecided('comparison of a magnitude')
        if not (isinstance(a, int) and isinstance(b, int)):
            a, b = (lift(a) - lift(b)).sign(), 0
        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b,
                    '<=': a <= b, '>=': a >= b}[op])

    @staticmethod
    def truth(v):
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Ptr):
            return True
        if isinstance(v, P):
            return v.sign() != 0
        raise Undecided('condition')

    def call(self, n):
        if n.c[0].k != 'DeclRefExpr':
            raise Undecided('call')
        name = n.c[0].name
        if name in ('output', 'fmf_print', 'errclear', 'fmf_freeDestroy',
                    'fmf_free', 'mem_free_mem'):
            return 0
        if name == 'errput':
            raise Undecided('an error is reported')
        args = [self.ev(x) for x in n.c[1:]]
        if name in ('exp', 'log', 'sqrt', 'pow', 'fabs'):
            return self.math(name, args)
        if name in ('fmf_createAlloc', 'fmf_alloc'):
            if not all(isinstance(x, int) for x in args[1:5]):
                raise Undecided('size of an array')
            new = field(lambda *a: 0, *args[1:5])   # cleared memory
            if name == 'fmf_createAlloc':
                args[0].store(new)
            else:
                args[0].load().m.update(new.load().m)
            return 0
        if name in ('memcpy', 'memmove', 'memset'):
            # Sizes in elements: sizeof() is one.
            dst, src, n = args
            if not isinstance(n, int) or not isinstance(dst, Ptr):
                raise Undecided(name)
            if name == 'memset':
                if src != 0:
                    raise Undecided(name)
                vals = [0]*n
            else:
                vals = [Ptr(src.buf, src.off + i).load() for i in range(n)]
            for i, v in enumerate(vals):
                Ptr(dst.buf, dst.off + i).store(v)
            return dst
        fn = self.e.prog.func(name, self.fn.file if self.fn else None)
        if fn is None or fn.body is None:
            raise Undecided('call of %s()' % name)
        return self.e.invoke(fn, args)

    @staticmethod
    def math(name, args):
        x = args[0]
        if name == 'fabs':
            c = lift(x).const()
            return P.c(abs(c)) if c is not None else Abs(x)
        if name == 'exp':
            if isinstance(x, Log):
                return x.arg.power(x.coef)
            if lift(x).const() == 0:
                return P.c(1)
        elif name == 'log':
            return Log(lift(x))
        elif name == 'sqrt':
            return lift(x).power(Fraction(1, 2))
        elif name == 'pow':
            e = lift(args[1]).const()
            if e is not None:
                return lift(x).power(e)
        raise Undecided('%s()' % name)

    # ---------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if s is not None:
                self.stmt(s)

    def stmt(self, s):
        k = s.k
        if k == 'CompoundStmt':
            self.block(s.c)
        elif k == 'DeclStmt':
            for d in s.c:
                if d.k == 'VarDecl':
                    self.env[d.name] = self.variable(d)
        elif k == 'IfStmt':
            if self.truth(self.ev(s.c[0])):
                self.stmt(s.c[1])
            elif len(s.c) > 2:
                self.stmt(s.c[2])
        elif k == 'ForStmt':
            init, _, cond, inc, body = s.c
            if init is not None:
                self.stmt(init)
            self.loop(cond, inc, body, False)
        elif k == 'WhileStmt':
            self.loop(s.c[0], None, s.c[-1], False)
        elif k == 'DoStmt':
            self.loop(s.c[1], None, s.c[0], True)
        elif k == 'SwitchStmt':
            self.switch(s)
        elif k == 'ReturnStmt':
            raise Return(self.ev(s.c[0]) if s.c else None)
        elif k == 'BreakStmt':
            raise Break()
        elif k == 'ContinueStmt':
            raise Continue()
        elif k == 'GotoStmt':
            raise Goto()
        elif k == 'NullStmt':
            pass
        elif k == 'LabelStmt':
            self.block(s.c)
        else:
            self.ev(s)

    def loop(self, cond, inc, body, first):
        while True:
            self.e.steps += 1
            if self.e.steps > LIMIT:
                raise Undecided('the code is too long')
            if not first and cond is not None \
                    and not self.truth(self.ev(cond)):
                return
            first = False
            try:
                if body is not None:
                    self.stmt(body)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                self.ev(inc)

    def switch(self, s):
        v = self.ev(s.c[0])
        flat = []

        def add(n):
            if n is None:
                return
            if n.k in ('CaseStmt', 'DefaultStmt'):
                flat.append((n, None))
                add(n.c[-1])
            else:
                flat.append((None, n))
        for n in s.c[-1].c:
            add(n)
        start = None
        for i, (lab, _) in enumerate(flat):
            if lab is not None and lab.k == 'CaseStmt' \
                    and self.ev(lab.c[0]) == v:
                start = i
                break
        if start is None:
            for i, (lab, _) in enumerate(flat):
                if lab is not None and lab.k == 'DefaultStmt':
                    start = i
        if start is None:
            return
        try:
            for lab, n in flat[start:]:
                if n is not None:
                    self.stmt(n)
        except Break:
            pass


class Member:
    def __init__(self, s, name):
        self.s, self.name = s, name

    def load(self):
        return self.s.get(self.name)

    def store(self, v):
        self.s.m[self.name] = v
