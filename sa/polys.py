"""
Polynomials with coefficients in Q(sqrt(2), sqrt(3), ...), read from
expressions of Python and C sources.
"""
import ast
from fractions import Fraction


class Undecided(Exception):
    pass


def _root(n):
    """(outside, square free part) of the square root of n."""
    out, k = 1, 2
    while k * k <= n:
        while n % (k * k) == 0:
            n //= k * k
            out *= k
        k += 1
    return out, n


class Poly:
    """{(powers of variables, radicand): coefficient}"""

    def __init__(self, terms=None):
        self.terms = {k: c for k, c in (terms or {}).items() if c}

    @staticmethod
    def c(v):
        return Poly({((), 1): Fraction(v)})

    @staticmethod
    def var(name):
        return Poly({(((name, 1),), 1): Fraction(1)})

    @staticmethod
    def sqrt(v):
        v = Fraction(v)
        a, r = _root(v.numerator * v.denominator)
        return Poly({((), r): Fraction(a, v.denominator)})

    def __add__(self, o):
        out = dict(self.terms)
        for k, c in o.terms.items():
            out[k] = out.get(k, 0) + c
        return Poly(out)

    def __neg__(self):
        return Poly({k: -c for k, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        out = {}
        for (m, r), c in self.terms.items():
            for (n, s), d in o.terms.items():
                pw = dict(m)
                for x, p in n:
                    pw[x] = pw.get(x, 0) + p
                a, q = _root(r * s)
                k = (tuple(sorted(pw.items())), q)
                out[k] = out.get(k, 0) + c * d * a
        return Poly(out)

    def pow(self, n):
        out = Poly.c(1)
        for _ in range(n):
            out = out * self
        return out

    def __eq__(self, o):
        return self.terms == o.terms

    def const(self):
        """The value of a rational constant, None otherwise."""
        if not self.terms:
            return Fraction(0)
        if set(self.terms) == {((), 1)}:
            return self.terms[((), 1)]
        return None

    def diff(self, name):
        out = {}
        for (m, r), c in self.terms.items():
            pw = dict(m)
            p = pw.get(name, 0)
            if p:
                pw[name] = p - 1
                if not pw[name]:
                    del pw[name]
                k = (tuple(sorted(pw.items())), r)
                out[k] = out.get(k, 0) + c * p
        return Poly(out)

    def subs(self, values):
        out = Poly()
        for (m, r), c in self.terms.items():
            t = Poly({((), r): c})
            for x, p in m:
                v = values.get(x)
                v = Poly.var(x) if v is None else \
                    v if isinstance(v, Poly) else Poly.c(v)
                t = t * v.pow(p)
            out = out + t
        return out

    def integrate(self, name, a, b):
        out = Poly()
        for (m, r), c in self.terms.items():
            pw = dict(m)
            p = pw.pop(name, 0)
            k = (tuple(sorted(pw.items())), r)
            f = (Fraction(b)**(p + 1) - Fraction(a)**(p + 1)) / (p + 1)
            out = out + Poly({k: c * f})
        return out

    def degree(self, name):
        return max([dict(m).get(name, 0) for m, _ in self.terms] or [0])

    def __str__(self):
        if not self.terms:
            return '0'
        out = []
        for (m, r), c in sorted(self.terms.items(), reverse=True)[:6]:
            t = '*'.join(x if p == 1 else '%s**%d' % (x, p) for x, p in m)
            if r != 1:
                t = 'sqrt(%d)' % r + ('*' + t if t else '')
            out.append('%s%s' % ('' if c == 1 and t else c,
                                 (' ' if c != 1 else '') + t if t else ''))
        return ' + '.join(out)


def arith(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        d = b.const()
        if d is None and len(b.terms) == 1 and list(b.terms)[0][0] == ():
            (_, r), c = list(b.terms.items())[0]    # c sqrt(r)
            return a * Poly({((), r): 1 / (c * r)})
        if not d:
            raise Undecided('division')
        return a * Poly.c(1 / d)
    if op == '**':
        n = b.const()
        if n is None or n.denominator != 1 or n < 0:
            raise Undecided('power')
        return a.pow(int(n))
    raise Undecided('operator ' + op)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.Pow: '**'}


def from_py(n, env=None):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return Poly.c(Fraction(repr(n.value)))
    if isinstance(n, ast.Name):
        if env is not None and n.id in env:
            return env[n.id]
        if env is None:
            return Poly.var(n.id)
        raise Undecided(n.id)
    if isinstance(n, ast.UnaryOp):
        v = from_py(n.operand, env)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        return arith(OPS[type(n.op)], from_py(n.left, env),
                     from_py(n.right, env))
    if isinstance(n, ast.Call) and len(n.args) == 1:
        f = n.func.attr if isinstance(n.func, ast.Attribute) else \
            getattr(n.func, 'id', '')
        v = from_py(n.args[0], env)
        if f == 'sqrt' and v.const() is not None and v.const() >= 0:
            return Poly.sqrt(v.const())
        if f == 'Rational' or f == 'float':
            return v
    raise Undecided(ast.dump(n)[:60])


def from_c(n, env):
    """Expression of the C syntax tree; env: values of variables."""
    k = n.k
    if k == 'IntegerLiteral':
        return Poly.c(int(n.val))
    if k == 'FloatingLiteral':
        return Poly.c(Fraction(str(n.val)))
    if k == 'DeclRefExpr':
        if n.name in env:
            return env[n.name]
        raise Undecided(n.name)
    if k == 'ParenExpr':
        return from_c(n.c[0], env)
    if k == 'UnaryOperator' and n.op in '+-':
        v = from_c(n.c[0], env)
        return -v if n.op == '-' else v
    if k == 'BinaryOperator' and n.op in '+-*/':
        if n.op == '/' and n.c[0].k == 'IntegerLiteral' \
                and n.c[1].k == 'IntegerLiteral':
            return Poly.c(int(n.c[0].val) // int(n.c[1].val))
        return arith(n.op, from_c(n.c[0], env), from_c(n.c[1], env))
    if k == 'CallExpr':
        f = n.c[0].name
        args = [from_c(x, env) for x in n.c[1:]]
        if f == 'sqrt' and args[0].const() is not None:
            return Poly.sqrt(args[0].const())
        if f == 'pow':
            return arith('**', *args)
    raise Undecided(k)
