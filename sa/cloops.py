"""
Array equations of C loop nests.

The body of a function working on FMField arguments is abstracted to a set of
equations `array[affine offset] = polynomial of array[affine offset]` over the
variables of the enclosing loops: pointers and counters that are changed by a
constant in each iteration are replaced by their closed forms, scalars that
accumulate a value become sums over the variable of the loop. Loops of at most
UNROLL iterations (space dimension, symmetric storage) are expanded. No loop is
executed and no value computed.
"""
import itertools
import math
from fractions import Fraction

from .cfe import render

UNROLL = 6
_n = itertools.count(1)


class Wrong(Exception):
    pass


class Undecided(Exception):
    pass


class Aff:
    """Integer affine form of loop variables."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    @classmethod
    def c(cls, v):
        return cls({None: v})

    @property
    def const(self):
        return all(k is None for k in self.d)

    @property
    def value(self):
        return self.d.get(None, 0)

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Aff(d)

    def scale(self, f):
        return Aff({k: v * f for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def mul(self, o):
        if self.const:
            return o.scale(self.value)
        if o.const:
            return self.scale(o.value)
        raise Undecided('product of loop variables')

    def subst(self, k, a):
        if k not in self.d:
            return self
        d = dict(self.d)
        c = d.pop(k)
        return Aff(d) + a.scale(c)

    def key(self):
        return tuple(sorted(self.d.items(), key=lambda x: (x[0] is not None,
                                                           x[0] or 0)))

    def at(self, env):
        return sum(v * (1 if k is None else env[k])
                   for k, v in self.d.items())


class Ptr:
    def __init__(self, field, off):
        self.field, self.off = field, off


class Poly:
    """Sum of products of array elements; sums over variables in `sums`."""

    def __init__(self, terms):
        # list of (coef, ((field, Aff), ...), frozenset(sum variables))
        self.terms = terms

    @classmethod
    def c(cls, v):
        return cls([(Fraction(v), (), ())] if v else [])

    def __add__(self, o):
        return Poly(self.terms + o.terms)

    def scale(self, f):
        return Poly([(c * f, a, s) for c, a, s in self.terms])

    def mul(self, o):
        return Poly([(c * d, a + b, s + t) for c, a, s in self.terms
                     for d, b, t in o.terms])

    def const(self):
        if any(a for _, a, _ in self.terms):
            return None
        return sum((c for c, _, _ in self.terms), Fraction(0))

    def has(self, ph):
        return any(f == ph for _, a, _ in self.terms for f, _ in a)

    def subst(self, k, a):
        return Poly([(c, tuple((f, o.subst(k, a)) for f, o in acc), s)
                     for c, acc, s in self.terms])


class Field:
    def __init__(self, name, dims):
        self.name = name
        self.nCell, self.nLev, self.nRow, self.nCol = dims
        self.val = Ptr(name, Aff.c(0))

    def get(self, m):
        if m == 'cellSize':
            return Aff.c(self.nLev * self.nRow * self.nCol)
        if m == 'val':
            return self.val
        if m == 'val0':
            return Ptr(self.name, Aff.c(0))
        if m == 'nAlloc':
            return Aff.c(self.nCell * self.nLev * self.nRow * self.nCol)
        if m in ('nCell', 'nLev', 'nRow', 'nCol'):
            return Aff.c(getattr(self, m))
        raise Undecided('member ' + m)


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class Loops:
    def __init__(self, fn, args, sizes=None):
        """args: list of values of the parameters (Field, Aff, Ptr, Poly)."""
        self.fn = fn
        self.env = {}
        for (name, _, _), v in zip(fn.params, args):
            self.env[name] = v
        self.stores = []   # (field, off, op, poly, loops)
        self.loops = []    # [(var, bound)]
        self.bound = {}
        self.filled = set()
        self.reported = False
        self.unset = set()
        self.record = True
        try:
            self.block(fn.body.c)
        except Return:
            pass

    # ------------------------------------------------------------ memory
    def read(self, p):
        return Poly([(Fraction(1), ((p.field, p.off),), ())])

    def store(self, p, op, val):
        if not self.record:
            return
        if op == '=' or op == '+=':
            self.stores.append((p.field, p.off, op, val,
                                tuple(self.loops)))
        else:
            raise Undecided('store ' + op)

    # ------------------------------------------------------- expressions
    def lval(self, n):
        """('var', name) | ('mem', Ptr) | ('fld', Field, member)"""
        if n.k == 'DeclRefExpr':
            return ('var', n.name)
        if n.k == 'ArraySubscriptExpr':
            a = self.ev(n.c[0])
            i = self.ev(n.c[1])
            return self.elem(a, i)
        if n.k == 'UnaryOperator' and n.op == '*':
            return self.elem(self.ev(n.c[0]), Aff.c(0))
        if n.k == 'MemberExpr':
            o = self.ev(n.c[0])
            if isinstance(o, Field):
                return ('fld', o, n.name)
        raise Undecided('assignment to ' + render(n))

    def elem(self, a, i):
        if isinstance(a, list):
            if not isinstance(i, Aff) or not i.const:
                raise Undecided('index of a table')
            if not 0 <= i.value < len(a):
                raise Undecided('index out of a table')
            return ('item', a, i.value)
        if not isinstance(a, Ptr) or not isinstance(i, Aff):
            raise Undecided('element of an unknown array')
        return ('mem', Ptr(a.field, a.off + i))

    def load(self, lv):
        if lv[0] == 'var':
            if lv[1] in self.unset:
                raise Wrong('%s is used before it is set' % lv[1])
            if lv[1] not in self.env or self.env[lv[1]] is None:
                raise Undecided('value of ' + lv[1])
            return self.env[lv[1]]
        if lv[0] == 'item':
            return lv[1][lv[2]]
        if lv[0] == 'mem':
            return self.read(lv[1])
        return lv[1].get(lv[2])

    def assign(self, lv, v):
        if lv[0] == 'var':
            self.env[lv[1]] = v
            self.unset.discard(lv[1])
        elif lv[0] == 'mem':
            self.store(lv[1], '=', self.poly(v))
        elif lv[0] == 'fld' and lv[2] == 'val' and isinstance(v, Ptr):
            lv[1].val = v
        else:
            raise Undecided('assignment to a member')

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Aff) and v.const:
            return Poly.c(v.value)
        raise Undecided('a number is needed')

    def ev(self, n):
        k = n.k
        if k == 'DeclRefExpr':
            if n.name in ('RET_OK', 'RET_Fail'):
                return Aff.c(0)
            return self.load(('var', n.name))
        if k == 'IntegerLiteral':
            return Aff.c(int(n.val))
        if k == 'FloatingLiteral':
            return Poly.c(Fraction(str(n.val)))
        if k == 'MemberExpr':
            o = self.ev(n.c[0])
            if isinstance(o, Field):
                return o.get(n.name)
            raise Undecided('member of ' + render(n.c[0]))
        if k == 'ArraySubscriptExpr':
            return self.load(self.lval(n))
        if k == 'UnaryOperator':
            if n.op == '*':
                return self.load(self.lval(n))
            if n.op in ('++', '--'):
                lv = self.lval(n.c[0])
                old = self.load(lv)
                self.assign(lv, self.arith('+' if n.op == '++' else '-',
                                           old, Aff.c(1)))
                return old if n.post else self.load(lv)
            v = self.ev(n.c[0])
            if n.op == '-':
                return v.scale(-1)
            if n.op == '+':
                return v
            if n.op == '!':
                return Aff.c(int(not self.truth(v)))
            raise Undecided('operator ' + n.op)
        if k == 'BinaryOperator':
            if n.op == '=':
                v = self.ev(n.c[1])
                lv = self.lval(n.c[0])
                self.assign(lv, v)
                return v
            if n.op == ',':
                self.ev(n.c[0])
                return self.ev(n.c[1])
            if n.op in ('&&', '||'):
                a = self.truth(self.ev(n.c[0]))
                if (n.op == '&&') != a:
                    return Aff.c(int(a))
                return Aff.c(int(self.truth(self.ev(n.c[1]))))
            return self.arith(n.op, self.ev(n.c[0]), self.ev(n.c[1]))
        if k == 'CompoundAssignOperator':
            lv = self.lval(n.c[0])
            v = self.ev(n.c[1])
            op = n.op[:-1]
            if lv[0] == 'mem':
                if op in '+-':
                    v = self.poly(v)
                    self.store(lv[1], '+=', v.scale(-1) if op == '-' else v)
                    return v
                v = self.arith(op, self.load(lv), v)
                self.store(lv[1], '=', v)
                return v
            v = self.arith(op, self.load(lv), v)
            self.assign(lv, v)
            return v
        if k == 'ConditionalOperator':
            return self.ev(n.c[1] if self.truth(self.ev(n.c[0])) else n.c[2])
        if k == 'CallExpr':
            return self.call(n)
        raise Undecided(k)

    def arith(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in '+-' and isinstance(a, Ptr) and isinstance(b, Aff):
                return Ptr(a.field, a.off + b.scale(1 if op == '+' else -1))
            if op == '+' and isinstance(b, Ptr) and isinstance(a, Aff):
                return Ptr(b.field, b.off + a)
            raise Undecided('pointer arithmetic')
        if isinstance(a, list) and op == '+' and isinstance(b, Aff) \
                and b.const:
            return a[b.value:]
        if isinstance(a, Aff) and isinstance(b, Aff):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a.mul(b)
            if a.const and b.const:
                x, y = a.value, b.value
                if op == '/' and y:
                    return Aff.c(int(x / y))
                if op == '%' and y:
                    return Aff.c(x % y)
                r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y,
                     '<=': x <= y, '>=': x >= y}.get(op)
                if r is not None:
                    return Aff.c(int(r))
            raise Undecided('condition on a loop variable')
        a, b = self.poly(a), self.poly(b)
        if op == '+':
            return a + b
        if op == '-':
            return a + b.scale(-1)
        if op == '*':
            return a.mul(b)
        if op == '/' and b.const():
            return a.scale(1 / b.const())
        raise Undecided('operator ' + op)

    @staticmethod
    def truth(v):
        if isinstance(v, Aff) and v.const:
            return v.value != 0
        raise Undecided('condition')

    def call(self, n):
        name = n.c[0].name
        if name == 'errput':
            self.reported = True
            return Aff.c(0)
        if name in ('output', 'fmf_print', 'errclear'):
            return Aff.c(0)
        if name == 'sqrt':
            v = self.ev(n.c[1])
            if isinstance(v, Aff) and v.const \
                    and math.isqrt(v.value) ** 2 == v.value:
                return Aff.c(math.isqrt(v.value))
        if name == 'fmf_fillC':
            f = self.ev(n.c[1])
            v = self.poly(self.ev(n.c[2]))
            if isinstance(f, Field) and v.const() == 0:
                if any(st[0] == f.name for st in self.stores):
                    raise Undecided('array filled after it was written')
                self.filled.add(f.name)
                return Aff.c(0)     # every element is zero before
        raise Undecided('call of %s()' % name)

    # -------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if s is not None:
                self.stmt(s)

    def stmt(self, s):
        k = s.k
        if k == 'CompoundStmt':
            self.block(s.c)
        elif k == 'DeclStmt':
            for d in s.c:
                if d.k != 'VarDecl':
                    continue
                self.env[d.name] = None
                if not d.c and '[' not in d.type and 'FM' not in d.type:
                    self.unset.add(d.name)
                if d.c and d.c[0] is not None:
                    e = d.c[0]
                    if e.k == 'InitListExpr':
                        self.env[d.name] = [self.ev(x) for x in e.c]
                    else:
                        self.env[d.name] = self.ev(e)
        elif k == 'IfStmt':
            cond = self.truth(self.ev(s.c[0]))
            if cond:
                self.stmt(s.c[1])
            elif len(s.c) > 2:
                self.stmt(s.c[2])
        elif k == 'ForStmt':
            self.loop(s)
        elif k == 'DoStmt':
            self.stmt(s.c[0])
            if self.truth(self.ev(s.c[1])):
                raise Undecided('do loop')
        elif k == 'SwitchStmt':
            self.switch(s)
        elif k == 'ReturnStmt':
            raise Return()
        elif k == 'BreakStmt':
            raise Break()
        elif k == 'ContinueStmt':
            raise Continue()
        elif k == 'NullStmt':
            pass
        elif k == 'LabelStmt':
            self.block(s.c)
        else:
            self.ev(s)

    def switch(self, s):
        v = self.ev(s.c[0])
        if not (isinstance(v, Aff) and v.const):
            raise Undecided('switch')
        flat = []

        def add(n):
            if n is None:
                return
            if n.k in ('CaseStmt', 'DefaultStmt'):
                flat.append(('label', n))
                add(n.c[-1])
            else:
                flat.append(('stmt', n))
        for n in s.c[-1].c:
            add(n)
        start = None
        for i, (kind, n) in enumerate(flat):
            if kind == 'label' and n.k == 'CaseStmt':
                c = self.ev(n.c[0])
                if c.const and c.value == v.value:
                    start = i
                    break
        if start is None:
            for i, (kind, n) in enumerate(flat):
                if kind == 'label' and n.k == 'DefaultStmt':
                    start = i
        if start is None:
            return
        try:
            for kind, n in flat[start:]:
                if kind == 'stmt':
                    self.stmt(n)
        except Break:
            pass

    def snapshot(self):
        env = dict(self.env)
        vals = {k: v.val for k, v in env.items() if isinstance(v, Field)}
        return env, vals

    def restore(self, snap):
        self.env = dict(snap[0])
        for k, v in snap[1].items():
            self.env[k].val = v

    def loop(self, s):
        init, _, cond, inc, body = s.c
        if init is not None:
            self.stmt(init)
        # number of iterations of the usual counting loop
        if cond is None or cond.k != 'BinaryOperator' or inc is None:
            raise Undecided('loop')
        var = cond.c[0]
        if var.k != 'DeclRefExpr':
            raise Undecided('loop')
        name = var.name

        def test():
            return self.truth(self.ev(cond))
        lo, hi = self.ev(var), self.ev(cond.c[1])
        step = 1
        if not (isinstance(lo, Aff) and isinstance(hi, Aff)):
            raise Undecided('loop bounds')
        b = hi - lo
        if not b.const or cond.op not in ('<', '<=', '!='):
            raise Undecided('loop bounds')
        count = b.value + (1 if cond.op == '<=' else 0)
        if not ((inc.k == 'UnaryOperator' and inc.op == '++'
                 or inc.k == 'CompoundAssignOperator' and inc.op == '+='
                 and inc.c[1].k == 'IntegerLiteral'
                 and inc.c[1].val in ('1', 1))
                and inc.c[0].k == 'DeclRefExpr' and inc.c[0].name == name):
            raise Undecided('loop increment')
        if count <= 0:
            return
        if count <= UNROLL:
            for _ in range(count):
                try:
                    self.stmt(body)
                except Continue:
                    pass
                except Break:
                    raise Undecided('break of a loop')
                self.ev(inc)
            return
        # entry values replaced by marks
        snap = self.snapshot()
        v = next(_n)
        marks = {}
        self.env[name] = lo + Aff({v: step})
        for x, val in snap[0].items():
            if x == name or val is None:
                continue
            if isinstance(val, (Aff, Ptr, Poly)):
                marks[x] = m = next(_n)
                if isinstance(val, Aff):
                    self.env[x] = Aff({m: 1}) if not val.const \
                        or x in self.changed(body) else val
                elif isinstance(val, Ptr):
                    self.env[x] = Ptr(val.field, Aff({m: 1}))
                else:
                    self.env[x] = Poly([(Fraction(1),
                                         (('?%d' % m, Aff.c(0)),), ())])
        rec, self.record = self.record, False
        try:
            self.stmt(body)
        except Continue:
            pass
        except Break:
            raise Undecided('break of a loop')
        self.record = rec
        out, _ = self.snapshot()
        vals = {k: f.val for k, f in snap[0].items() if isinstance(f, Field)}
        self.restore(snap)
        entry, final = {}, {}
        for x, val in snap[0].items():
            if x not in marks:
                continue
            m, e = marks[x], out.get(x)
            if isinstance(val, Aff):
                if val.const and isinstance(e, Aff) and e.const \
                        and e.value == val.value:
                    continue
                if not isinstance(e, Aff):
                    entry[x] = final[x] = None
                    continue
                d = e - Aff({m: 1})
                if m in e.d and e.d[m] == 1 and d.const:
                    entry[x] = val + Aff({v: d.value})
                    final[x] = val + Aff.c(d.value * count)
                else:
                    entry[x] = final[x] = None
            elif isinstance(val, Ptr):
                if not isinstance(e, Ptr):
                    entry[x] = final[x] = None
                    continue
                d = e.off - Aff({m: 1})
                if e.field == val.field and e.off.d.get(m) == 1 and d.const:
                    entry[x] = Ptr(val.field, val.off + Aff({v: d.value}))
                    final[x] = Ptr(val.field,
                                   val.off + Aff.c(d.value * count))
                else:
                    entry[x] = final[x] = None
            else:
                ph = '?%d' % m
                if not isinstance(e, Poly):
                    entry[x] = final[x] = None
                    continue
                keep = [t for t in e.terms if any(f == ph for f, _ in t[1])]
                rest = [t for t in e.terms if t not in keep]
                if len(keep) == 1 and keep[0][0] == 1 \
                        and len(keep[0][1]) == 1 and not keep[0][2]:
                    if not rest:
                        continue
                    # sum over the loop
                    entry[x] = Poly([(Fraction(1), ((ph, Aff.c(0)),), ())])
                    final[x] = ('sum', rest)
                else:
                    entry[x] = final[x] = None
        # pointers of the fields moved in the loop
        for k, p in vals.items():
            old = snap[1][k]
            if p.off.key() != old.off.key():
                snap[0][k].val = Ptr(old.field, old.off)
        for x, e in entry.items():
            self.env[x] = e
        self.env[name] = lo + Aff({v: step})
        self.bound[v] = count
        self.loops.append((v, count))
        before = dict(self.env)
        try:
            self.stmt(body)
        except Continue:
            pass
        self.loops.pop()
        done = dict(self.env)
        for x in snap[0]:
            if x == name:
                self.env[x] = hi if cond.op != '<=' else hi + Aff.c(1)
            elif x in final:
                f = final[x]
                if isinstance(f, tuple):
                    # recompute with the marks of this pass
                    e = done[x]
                    ph = '?%d' % marks[x]
                    rest = [t for t in e.terms
                            if not any(q == ph for q, _ in t[1])]
                    w = next(_n)
                    self.bound[w] = count
                    sm = Poly(rest).subst(v, Aff({w: 1}))
                    sm = Poly([(c, a, t + (w,)) for c, a, t in sm.terms])
                    self.env[x] = snap[0][x] + sm
                else:
                    self.env[x] = f
            elif x in marks:
                self.env[x] = snap[0][x] if x not in entry else None
            else:
                self.env[x] = before.get(x)
        for x in list(self.env):
            if x not in snap[0]:
                self.env[x] = None

    def changed(self, body):
        key = id(body)
        c = self.__dict__.setdefault('_changed', {})
        if key not in c:
            out = set()
            for n in body.walk():
                if n.k in ('BinaryOperator', 'CompoundAssignOperator') \
                        and n.op.endswith('=') and n.op not in (
                            '==', '!=', '<=', '>=') \
                        and n.c[0].k == 'DeclRefExpr':
                    out.add(n.c[0].name)
                elif n.k == 'UnaryOperator' and n.op in ('++', '--') \
                        and n.c[0].k == 'DeclRefExpr':
                    out.add(n.c[0].name)
            c[key] = out
        return c[key]

    # ------------------------------------------------------------ results
    def equations(self):
        """{(field, offset): {monomial: coef}} by expanding index sets."""
        out = {}
        stored = {st[0] for st in self.stores}
        for field, off, op, poly, loops in self.stores:
            for _, acc, _ in poly.terms:
                for f, a in acc:
                    if f in stored and (f != field or a.key() != off.key()):
                        raise Undecided('%s is read after it was written' % f)
                    if f in self.filled:
                        raise Undecided('%s is read after it was filled' % f)
        for field, off, op, poly, loops in self.stores:
            names = [v for v, _ in loops]
            for point in itertools.product(*[range(b) for _, b in loops]):
                env = dict(zip(names, point))
                o = off.at(env)
                val = {}
                for c, acc, sums in poly.terms:
                    for sp in itertools.product(
                            *[range(self.bound[w]) for w in sums]):
                        e2 = dict(env)
                        e2.update(zip(sums, sp))
                        mono = tuple(sorted((f, a.at(e2)) for f, a in acc))
                        if any(f.startswith('?') for f, _ in mono):
                            raise Undecided('a partial sum is used')
                        val[mono] = val.get(mono, 0) + c
                cur = {}
                if op == '+=':
                    cur = out.get((field, o))
                    if cur is None:
                        cur = {} if field in self.filled \
                            else {((field, o),): Fraction(1)}
                new = dict(cur)
                for m, c in val.items():
                    new[m] = new.get(m, 0) + c
                out[(field, o)] = {m: c for m, c in new.items() if c}
        return out
