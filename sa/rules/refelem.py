"""G01: data of the reference elements are exact and agree with each other."""
import ast
import itertools
import math
import os
from fractions import Fraction as Fr

from ..core import AnalysisBroken
from ..polys import Poly, Undecided, arith, from_c
from .. import cfe

EXPLANATION = (
    'Literal tables and closed form expressions in the sources are read and'
    ' decided in exact arithmetic: the topology, volume and orientation of'
    ' each reference element; each quadrature rule against the monomials it'
    ' must integrate; Lobatto, kernel, Legendre, serendipity and contact'
    ' segment shape functions against the derivatives, nodal values and'
    ' identities they must satisfy, as polynomials; refinement and'
    ' triangulation tables and hanging node tables against the geometry of'
    ' the parent element; facet orientation groups and DOF traversals,'
    ' as affine loop nests, against the order of facet vertices.')
RULE = ('one obligation per monomial of a rule, polynomial identity, facet,'
        ' child cell or orientation')
ASSUMPTIONS = [
    'quadrature constants given with a finite number of digits are accepted'
    ' with residuals up to their precision',
    'a table that is not written as a literal is not judged']

FEM = 'sfepy/discrete/fem/'
GEO = FEM + 'geometry_element.py'


# -- literals ----------------------------------------------------------------

class Call:
    def __init__(self, name, args, kw, line):
        self.name, self.args, self.kw, self.line = name, args, kw, line


class Lit:
    """Evaluates literal expressions, with the constants of a module."""

    def __init__(self, path):
        with open(path) as fd:
            self.tree = ast.parse(fd.read())
        self.env = {}
        self.lines = {}
        for st in self.tree.body:
            self.bind(st, self.env)

    def bind(self, st, env):
        if isinstance(st, ast.AnnAssign) and st.value is not None:
            targets = [st.target]
        elif isinstance(st, ast.Assign):
            targets = st.targets
        else:
            return
        for t in targets:
            if isinstance(t, ast.Name):
                try:
                    env[t.id] = self.ev(st.value, env)
                    self.lines[t.id] = st.lineno
                except Undecided:
                    env.pop(t.id, None)

    def ev(self, n, env):
        if isinstance(n, ast.Constant):
            v = n.value
            return Fr(repr(v)) if isinstance(v, float) else v
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return Call(n.id, None, None, n.lineno)
        if isinstance(n, ast.List):
            return [self.ev(x, env) for x in n.elts]
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(x, env) for x in n.elts)
        if isinstance(n, ast.Dict):
            return {self.ev(k, env): self.ev(v, env)
                    for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -self.num(self.ev(n.operand, env))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd):
            return self.num(self.ev(n.operand, env))
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(a, list) and isinstance(b, list) \
               and isinstance(n.op, ast.Add):
                return a + b
            a, b = self.num(a), self.num(b)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div) and b:
                return Fr(a) / Fr(b)
            if isinstance(n.op, ast.Pow) and isinstance(b, int):
                return a**b
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else \
                getattr(n.func, 'id', None)
            if f in env and isinstance(env[f], Call) \
               and env[f].args is None:
                f = env[f].name
            args = [self.ev(x, env) for x in n.args]
            kw = {k.arg: self.ev(k.value, env) for k in n.keywords
                  if k.arg is not None}
            if f == 'sqrt' and len(args) == 1:
                return Fr(math.sqrt(self.num(args[0])))
            if f in ('array', 'asarray', 'list', 'tuple') and args \
               and isinstance(args[0], (list, tuple)):
                return list(args[0])
            if f == 'dict' and not args:
                return kw
            if f is not None:
                return Call(f, args, kw, n.lineno)
        raise Undecided(ast.dump(n)[:60])

    @staticmethod
    def num(v):
        if isinstance(v, (int, Fr)):
            return v
        raise Undecided('number')


def load(ctx, rel):
    path = os.path.join(ctx.repo, rel)
    if not os.path.exists(path):
        raise AnalysisBroken('no ' + rel)
    return Lit(path)


# -- exact geometry ----------------------------------------------------------

def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mid(pts):
    return tuple(sum(Fr(p[i]) for p in pts) / len(pts)
                 for i in range(len(pts[0])))


def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1)**j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
               for j in range(len(m)))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


class Geo:
    def __init__(self, name, d):
        self.name = name
        self.dim = int(name[0])
        self.d = d
        self.coors = [tuple(Fr(x) for x in c) for c in d['coors']]
        self.edges = [tuple(e) for e in d.get('edges') or []]
        self.faces = [tuple(dict.fromkeys(f)) for f in d.get('faces') or []]

    @property
    def facets(self):
        return self.faces if self.dim == 3 else self.edges \
            if self.dim == 2 else [(i,) for i in range(len(self.coors))]

    def sides(self, f):
        """Edges of the cycle of vertices."""
        return [frozenset((f[i], f[(i + 1) % len(f)]))
                for i in range(len(f))]

    def simplices(self):
        """Fan of each facet from the centre, oriented as the facet."""
        out = []
        for f in self.facets:
            for i in range(1, len(f) - 1) if self.dim == 3 else [0]:
                out.append([f[0], f[i], f[i + 1]] if self.dim == 3 else f)
        return out

    def signed_volume(self):
        """By the divergence theorem: positive for outward facets."""
        fact = math.factorial(self.dim)
        c = mid(self.coors)
        return sum(det([sub(self.coors[v], c) for v in s])
                   for s in self.simplices()) / fact


def outward(g, f):
    c = mid(g.coors)
    p = [g.coors[v] for v in f]
    out = sub(mid(p), c)
    if g.dim == 2:
        t = sub(p[1], p[0])
        return dot([t[1], -t[0]], out)
    ns = [cross(sub(p[i], p[0]), sub(p[i + 1], p[0]))
          for i in range(1, len(p) - 1)]
    vals = [dot(n, out) for n in ns]
    if any(cross(ns[0], n) != [0, 0, 0] for n in ns[1:]):
        return 0                      # not a plane
    return min(vals) if max(vals) > 0 else max(vals)


def check_geometry(ctx, lit):
    out = {}
    data = lit.env.get('geometry_data')
    if not isinstance(data, dict):
        raise AnalysisBroken('geometry_data is not a table')
    where = '%s:%d (geometry_data)' % (GEO, lit.lines['geometry_data'])
    for name, st in data.items():
        d = st.kw if isinstance(st, Call) else st
        if not isinstance(d, dict) or 'coors' not in d:
            continue
        out[name] = g = Geo(name, d)

        def bad(what, msg):
            ctx.violation('geometry:%s:%s' % (name, what),
                          '%s: %s' % (name, msg), where)

        def ok(cond, what, msg):
            ctx.count('geometry_facts')
            if not cond:
                bad(what, msg)

        n = len(g.coors)
        ok(len(set(g.coors)) == n, 'coors', 'repeated vertices')
        ok(list(d.get('conn', ())) == list(range(n)), 'conn',
           'the connectivity is not the list of vertices')
        verts = set(range(n))
        ents = g.edges + g.faces
        if any(v not in verts for e in ents for v in e):
            bad('vertex', 'a facet with an unknown vertex')
            continue
        ok(len({frozenset(e) for e in g.edges}) == len(g.edges), 'edges',
           'an edge is given twice')
        ok(len({frozenset(e) for e in g.faces}) == len(g.faces), 'faces',
           'a face is given twice')
        if g.dim == 0:
            continue
        if g.dim == 2:
            # A cycle through all vertices.
            ok(all(sum(v in e for e in g.edges) == 2 for v in verts)
               and len(g.edges) == n, 'edges', 'edges do not bound the cell')
        if g.dim == 3:
            es = {frozenset(e) for e in g.edges}
            ss = [s for f in g.faces for s in g.sides(f)]
            ok(set(ss) == es, 'edges',
               'edges of the faces are not the edges of the cell')
            ok(all(ss.count(s) == 2 for s in ss), 'faces',
               'an edge is not shared by two faces')
        if g.dim > 1:
            for i, f in enumerate(g.facets):
                ok(outward(g, f) > 0, 'facet%d' % i,
                   'facet %d %s is not planar and oriented outwards'
                   % (i, list(f)))
        if g.dim == 1:
            vol = g.coors[1][0] - g.coors[0][0]
        else:
            vol = g.signed_volume()
        ok(vol == Fr(d['volume']), 'volume', 'the volume %s is not %s'
           % (d['volume'], vol))
        sname = d.get('surface_facet_name')
        if isinstance(sname, dict):
            want = {len(f): '%d_%d' % (g.dim - 1, len(f)) for f in g.facets}
            ok(sname == want, 'surface', 'wrong names of facets %s' % sname)
        else:
            ok({sname} == {'%d_%d' % (g.dim - 1, len(f))
                           for f in g.facets}, 'surface',
               'wrong name of facets %s' % sname)
        ori = d.get('orientation')
        if ori is not None and len(ori) % 4 == 0:
            for ii in range(len(ori) // 4):
                root, vecs, fr, to = ori[4 * ii:4 * ii + 4]
                m = [sub(g.coors[v], g.coors[root]) for v in vecs]
                ok(len(m) == g.dim and det(m) > 0, 'orientation',
                   'direction vectors %s are not right-handed' % (vecs,))
                fr = (fr,) if isinstance(fr, int) else fr
                to = (to,) if isinstance(to, int) else to
                perm = list(range(n))
                for a, b in zip(fr, to):
                    perm[a], perm[b] = perm[b], perm[a]
                co = [g.coors[i] for i in perm]
                ok(len(fr) == len(to) and det(
                    [sub(co[v], co[root]) for v in vecs]) < 0,
                   'orientation', 'swapping %s and %s keeps the orientation'
                   % (fr, to))
                es = {frozenset(e) for e in g.edges}
                ok({frozenset(perm[v] for v in e) for e in g.edges} == es,
                   'orientation', 'swapping %s and %s does not give the same'
                   ' element' % (fr, to))
    return out


# -- quadratures -------------------------------------------------------------

def monomial(name, e):
    """Exact integral over the reference element."""
    f = math.factorial
    if name in ('1_2', '2_4', '3_8'):
        out = Fr(1)
        for k in e:
            out /= k + 1
        return out
    if name in ('2_3', '3_4'):
        num = 1
        for k in e:
            num *= f(k)
        return Fr(num, f(sum(e) + len(e)))
    if name == '3_6':
        return Fr(f(e[0]) * f(e[1]), f(e[0] + e[1] + 2)) / (e[2] + 1)
    raise Undecided(name)


def points(q):
    """Coordinates and weights as QuadraturePoints prepares them."""
    kw = dict(zip(('data', 'coors', 'weights', 'bounds', 'tp_fix',
                   'weight_fix', 'symmetric'), q.args))
    kw.update(q.kw)
    rows = kw['data']
    if kw.get('coors') is not None:
        raise Undecided('coordinates')
    if not isinstance(rows[0], (list, tuple)):
        rows = [rows]
    rows = [[Fr(Lit.num(x)) for x in r] for r in rows]
    dim = len(rows[0]) - 1
    if any(len(r) != dim + 1 for r in rows):
        raise Undecided('rows')
    co = [r[:-1] for r in rows]
    wf = Fr(kw.get('weight_fix', 1))
    we = [r[-1] * wf for r in rows]
    sym = bool(kw.get('symmetric', False))
    a, b = 0, 1
    if kw.get('bounds') is not None:
        a, b = kw['bounds']
        co = [[(x - a) / Fr(b - a) for x in c] for c in co]
        we = [w / Fr(b - a)**dim for w in we]
    if sym:
        start = 1 if rows[0][0] == 0 else 0
        co = [[1 - x for x in c] for c in co[start:][::-1]] + co
        we = we[start:][::-1] + we
    return co, we, dim


INSIDE = {'1_2': lambda c: 0 <= c[0] <= 1,
          '2_4': lambda c: all(0 <= x <= 1 for x in c),
          '3_8': lambda c: all(0 <= x <= 1 for x in c),
          '2_3': lambda c: min(c) >= 0 and sum(c) <= 1,
          '3_4': lambda c: min(c) >= 0 and sum(c) <= 1,
          '3_6': lambda c: min(c) >= 0 and c[0] + c[1] <= 1 and c[2] <= 1}

# The constants have at least 15 digits.
TOLERANCE = Fr(1, 10**14)


def check_quadratures(ctx):
    rel = 'sfepy/discrete/quadratures.py'
    lit = load(ctx, rel)
    tables = lit.env.get('quadrature_tables')
    if not isinstance(tables, dict):
        raise AnalysisBroken('quadrature_tables is not a table')
    for name, table in tables.items():
        if not isinstance(table, dict):
            continue
        orders = list(table)
        where = '%s:%d (quadrature_tables)' % (rel,
                                               lit.lines['quadrature_tables'])
        ctx.count('quadrature_orders')
        if orders != sorted(orders):
            ctx.violation('quadrature:%s:orders' % name,
                          '%s: orders are not ascending, searched by'
                          ' get_actual_order()' % name, where)
        if name not in INSIDE:
            continue
        for order, q in table.items():
            if not isinstance(q, Call) or not q.args and not q.kw:
                continue
            try:
                co, we, dim = points(q)
            except (Undecided, KeyError, TypeError):
                ctx.count('undecided_rules')
                continue
            where = '%s:%d (quadrature_tables, %s order %d)' % (
                rel, q.line, name, order)
            key = 'quadrature:%s:%d' % (name, order)
            if dim != int(name[0]):
                ctx.violation(key, 'points of dimension %d' % dim, where)
                continue
            ctx.count('quadrature_rules')
            if any(not INSIDE[name](c) for c in co):
                ctx.violation(key + ':inside', '%s order %d: a point lies'
                              ' outside of the element' % (name, order), where)
            worst = (0, None)
            pw = [[[Fr(1)] for _ in range(dim)] for _ in co]
            for c, p in zip(co, pw):
                for x, pp in zip(c, p):
                    for _ in range(order):
                        pp.append(Fr(float(pp[-1] * x)))
            for e in itertools.product(range(order + 1), repeat=dim):
                if name == '3_6':
                    # A product of a triangle and a line: per component.
                    if 3 * max(e[0] + e[1], e[2]) > order:
                        continue
                elif sum(e) > order:
                    continue
                ctx.count('monomials')
                s = sum(w * math.prod(p[i][k] for i, k in enumerate(e))
                        for p, w in zip(pw, we))
                r = abs(s - monomial(name, e))
                if r > worst[0]:
                    worst = (r, e)
            if worst[0] > TOLERANCE:
                ctx.violation(key, '%s order %d: the monomial with powers %s'
                              ' is integrated with the error %.2e'
                              % (name, order, worst[1], worst[0]), where)


# -- polynomials in C --------------------------------------------------------

LOB = FEM + 'extmods/lobatto1d.c'
CON = 'sfepy/mechanics/extmods/contres.c'


class Inline:
    """Straight-line C functions as polynomials."""

    def __init__(self, prog):
        self.prog = prog

    def ev(self, n, env):
        while n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
            n = n.c[-1]
        if n.k == 'CallExpr' and n.c[0].name in self.prog.funcs:
            fn = self.prog.funcs[n.c[0].name]
            args = [self.ev(x, env) for x in n.c[1:]]
            return self.value(fn, args)
        if n.k == 'UnaryOperator' and n.op in '+-':
            v = self.ev(n.c[0], env)
            return -v if n.op == '-' else v
        if n.k == 'BinaryOperator' and n.op in '+-*/':
            a, b = self.ev(n.c[0], env), self.ev(n.c[1], env)
            if n.op == '/' and self.integer(n.c[0]) and self.integer(n.c[1]):
                x, y = a.const(), b.const()
                if x is None or not y:
                    raise Undecided('integer division')
                q = abs(x) // abs(y)
                return Poly.c(q if x * y >= 0 else -q)
            return arith(n.op, a, b)
        if n.k == 'CallExpr' and n.c[0].name in ('sqrt', 'pow'):
            args = [self.ev(x, env) for x in n.c[1:]]
            if n.c[0].name == 'pow':
                return arith('**', *args)
            if args[0].const() is None:
                raise Undecided('sqrt')
            return Poly.sqrt(args[0].const())
        if n.k == 'ArraySubscriptExpr':
            key = (n.c[0].name, self.ev(n.c[1], env).const())
            if key in env:
                return env[key]
            raise Undecided('array')
        return from_c(n, env)

    def integer(self, n):
        while n.k in ('ParenExpr',):
            n = n.c[-1]
        return n.k == 'IntegerLiteral' or \
            n.k == 'UnaryOperator' and self.integer(n.c[0]) or \
            n.k == 'BinaryOperator' and n.op in '+-*/' and \
            all(self.integer(x) for x in n.c)

    def value(self, fn, args):
        out = self.block(fn, args)
        if None not in out:
            raise Undecided('no value')
        return out[None]

    def block(self, fn, args):
        env = {p[0]: a for p, a in zip(fn.params, args) if a is not None}
        self.stmts(fn.body.c, env)
        return env

    def stmts(self, body, env):
        for s in body:
            if s is None:
                continue
            if None in env:
                raise Undecided('code after return')
            if s.k == 'CompoundStmt':
                self.stmts(s.c, env)
            elif s.k == 'DeclStmt':
                for v in s.c:
                    if v.c and v.c[0] is not None:
                        env[v.name] = self.ev(v.c[0], env)
            elif s.k == 'ReturnStmt':
                env[None] = self.ev(s.c[0], env) if s.c else Poly.c(0)
            elif s.k in ('BinaryOperator', 'CompoundAssignOperator') \
                    and s.op.endswith('='):
                v = self.ev(s.c[1], env)
                t = s.c[0]
                while t.k == 'ParenExpr':
                    t = t.c[0]
                if t.k == 'DeclRefExpr':
                    key = t.name
                elif t.k == 'ArraySubscriptExpr':
                    key = (t.c[0].name, self.ev(t.c[1], env).const())
                else:
                    raise Undecided('store')
                if s.op != '=':
                    if key not in env:
                        raise Undecided('update')
                    v = arith(s.op[:-1], env[key], v)
                env[key] = v
            elif s.k == 'NullStmt' or s.k in ('IntegerLiteral',
                                              'DeclRefExpr') \
                    or s.k == 'CStyleCastExpr':
                pass
            else:
                raise Undecided(s.k)


def table(prog, rel, name):
    """Names of the functions in a list of pointers."""
    for r, n in prog.globals.get(rel, ()):
        if n.k == 'VarDecl' and n.name == name and n.c and n.c[0] is not None:
            if n.c[0].k == 'InitListExpr':
                return [[x.name for x in e.walk() if x.k == 'DeclRefExpr'][0]
                        for e in n.c[0].c], n
            return n.c[0], n
    return None, None


def check_lobatto(ctx):
    prog = cfe.Program(ctx.repo, [LOB, CON])
    inl = Inline(prog)
    x = Poly.var('x')
    polys = {}
    lens = {}
    for base in ('lobatto', 'kernel', 'legendre'):
        for name in (base, 'd_' + base):
            lst, decl = table(prog, LOB, name)
            if not isinstance(lst, list):
                raise AnalysisBroken('no list ' + name)
            lens[name] = len(lst)
            for i, f in enumerate(lst):
                fn = prog.funcs.get(f)
                try:
                    polys[name, i] = inl.value(fn, [x]), fn
                except (Undecided, AttributeError):
                    ctx.count('undecided_functions')
        ctx.count('function_lists', 2)
        if lens[base] != lens['d_' + base]:
            ctx.violation('lobatto:lists:' + base, 'lists of %s and of'
                          ' derivatives have different lengths' % base, LOB)
    n, decl = table(prog, LOB, 'max_order')
    if n is not None and n.k == 'IntegerLiteral':
        ctx.count('function_lists')
        if int(n.val) + 1 > min(lens['lobatto'], lens['d_lobatto']):
            ctx.violation('lobatto:max_order', 'max_order allows functions'
                          ' that are not listed', LOB)

    def fact(ok, key, fn, msg):
        ctx.count('polynomial_identities')
        if not ok:
            ctx.violation('lobatto:' + key, msg, '%s:%d (%s)'
                          % (LOB, fn.line, fn.name))

    def get(name, i):
        return polys.get((name, i), (None, None))

    for base in ('lobatto', 'kernel', 'legendre'):
        for i in range(lens[base]):
            p, fp = get(base, i)
            d, fd = get('d_' + base, i)
            if p is None or d is None:
                continue
            fact(p.diff('x') == d, 'derivative:%s:%d' % (base, i), fd,
                 'd_%s[%d] is not the derivative of %s[%d]: %s'
                 % (base, i, base, i, d - p.diff('x')))

    def at(p, v):
        return p.subs({'x': v})

    zero, one = Poly.c(0), Poly.c(1)
    l0, l1 = get('lobatto', 0)[0], get('lobatto', 1)[0]
    for i in range(lens['lobatto']):
        p, fp = get('lobatto', i)
        if p is None:
            continue
        ends = {0: (one, zero), 1: (zero, one)}.get(i, (zero, zero))
        fact((at(p, -1), at(p, 1)) == ends, 'ends:%d' % i, fp,
             'lobatto[%d] has wrong values in vertices' % i)
        if i < 2:
            fact(p.degree('x') == 1, 'degree:%d' % i, fp,
                 'lobatto[%d] is not linear' % i)
            continue
        fact(p.degree('x') == i, 'degree:%d' % i, fp,
             'lobatto[%d] has the degree %d' % (i, p.degree('x')))
        dp = p.diff('x')
        for j in range(2, i + 1):
            q = get('lobatto', j)[0]
            if q is None:
                continue
            v = (dp * q.diff('x')).integrate('x', -1, 1)
            fact(v == (one if i == j else zero), 'orthogonal:%d' % i, fp,
                 'derivatives of lobatto[%d] and lobatto[%d] are not'
                 ' orthonormal' % (i, j))
        k, fk = get('kernel', i - 2)
        if k is not None and l0 is not None and l1 is not None:
            fact(k * l0 * l1 == p, 'kernel:%d' % i, fk, 'lobatto[%d] is not'
                 ' kernel[%d] * lobatto[0] * lobatto[1]' % (i, i - 2))
    for i in range(lens['legendre']):
        p, fp = get('legendre', i)
        if p is None:
            continue
        fact(at(p, 1) == one and p.degree('x') == i, 'legendre:%d' % i, fp,
             'legendre[%d] is not a Legendre polynomial' % i)
        for j in range(i):
            q = get('legendre', j)[0]
            if q is not None:
                fact((p * q).integrate('x', -1, 1) == zero,
                     'legendre:%d' % i, fp, 'legendre[%d] and legendre[%d]'
                     ' are not orthogonal' % (i, j))
    check_segments(ctx, prog, inl)


H = Fr(1, 2)
SEGMENTS = {
    'sfd2': (1, [(-1,), (1,)]),
    'sfd4': (2, [(-1, -1), (1, -1), (1, 1), (-1, 1)]),
    'sfd6': (2, [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)]),
    'sfd8': (2, [(-1, -1), (1, -1), (1, 1), (-1, 1),
                 (0, -1), (1, 0), (0, 1), (-1, 0)]),
}


def check_segments(ctx, prog, inl):
    for name, (dim, nodes) in SEGMENTS.items():
        fn = prog.funcs.get(name)
        if fn is None:
            continue
        rs = ['r', 's'][:dim]
        try:
            env = inl.block(fn, [None, None] + [Poly.var(v) for v in rs])
        except Undecided:
            ctx.count('undecided_functions')
            continue
        hs, ds = fn.params[0][0], fn.params[1][0]
        n = len(nodes)
        where = '%s:%d (%s)' % (CON, fn.line, name)

        def fact(ok, key, msg):
            ctx.count('polynomial_identities')
            if not ok:
                ctx.violation('segment:%s:%s' % (name, key), msg, where)

        for i in range(n):
            h = env.get((hs, i))
            if h is None:
                fact(False, 'H%d' % i, '%s[%d] is not set' % (hs, i))
                continue
            for j, node in enumerate(nodes):
                v = h.subs(dict(zip(rs, node)))
                fact(v == Poly.c(int(i == j)), 'H%d' % i,
                     'the shape function %s[%d] is %s in the node %d'
                     % (hs, i, v, j))
            for k, v in enumerate(rs):
                d = env.get((ds, k * n + i))
                fact(d is not None and d == h.diff(v), 'd%s%d' % (v, i),
                     '%s[%d] is not the derivative of %s[%d] with respect to'
                     ' %s' % (ds, k * n + i, hs, i, v))


# -- serendipity -------------------------------------------------------------

def check_serendipity(ctx, geos):
    from ..polys import from_py
    rel = FEM + '_serendipity.py'
    with open(os.path.join(ctx.repo, rel)) as fd:
        tree = ast.parse(fd.read())
    found = [s for s in tree.body if isinstance(s, ast.Assign)
             and any(getattr(t, 'id', '') == 'all_bfs' for t in s.targets)]
    if not found or not isinstance(found[0].value, ast.Dict):
        raise AnalysisBroken('all_bfs is not a table')
    names = ['x', 'y', 'z']
    for kd, vd in zip(found[0].value.keys, found[0].value.values):
        dim = kd.value
        geo = geos.get('%d_%d' % (dim, 2**dim))
        for ko, vo in zip(vd.keys, vd.values):
            order = ko.value
            bfs, bfgs = vo.elts
            nodes = list(geo.coors)
            for e in geo.edges:
                a, b = [geo.coors[v] for v in e]
                for k in range(1, order):
                    t = Fr(k, order)
                    nodes.append(tuple(x + t * (y - x)
                                       for x, y in zip(a, b)))
            key = 'serendipity:%d:%d' % (dim, order)

            def fact(ok, n, what, msg):
                ctx.count('polynomial_identities')
                if not ok:
                    ctx.violation(key + ':' + what, 'dimension %d, order %d:'
                                  ' %s' % (dim, order, msg),
                                  '%s:%d (all_bfs)' % (rel, n.lineno))

            fact(len(bfs.elts) == len(bfgs.elts) == len(nodes), vo, 'number',
                 '%d functions and %d gradients for %d nodes'
                 % (len(bfs.elts), len(bfgs.elts), len(nodes)))
            for i, (b, g) in enumerate(zip(bfs.elts, bfgs.elts)):
                try:
                    p = from_py(b)
                    gs = [from_py(x) for x in g.elts]
                except Undecided:
                    ctx.count('undecided_functions')
                    continue
                fact(len(gs) == dim, g, 'gradient%d' % i, 'the gradient %d'
                     ' has %d components' % (i, len(gs)))
                for j, d in enumerate(gs):
                    fact(d == p.diff(names[j]), g, 'gradient%d' % i,
                         'the component %d of the gradient %d is not the'
                         ' derivative of the basis function' % (j, i))
                for j, node in enumerate(nodes):
                    v = p.subs(dict(zip(names, node)))
                    fact(v == Poly.c(int(i == j)), b, 'value%d' % i,
                         'the basis function %d is %s in the node %d'
                         % (i, v, j))


# -- subdivision tables ------------------------------------------------------

def cell_ok(geo, pts):
    """A positively oriented affine image of the reference element?"""
    n = len(geo.coors)
    if geo.dim == 1:
        return pts[1][0] > pts[0][0]
    # Axes: neighbours of the vertex at the origin.
    o = geo.coors.index(tuple([Fr(0)] * geo.dim))
    ax = []
    for j in range(geo.dim):
        u = tuple(Fr(int(k == j)) for k in range(geo.dim))
        ax.append(sub(pts[geo.coors.index(u)], pts[o]))
    for i in range(n):
        want = [pts[o][k] + sum(geo.coors[i][j] * ax[j][k]
                                for j in range(geo.dim))
                for k in range(geo.dim)]
        if list(pts[i]) != want:
            return None
    return det(ax)


def facet_polys(geo, cell):
    return [[cell[v] for v in f] for f in geo.facets]


def measure(dim, pts):
    """Twice the area or the length, squared sum free (axis or not)."""
    if dim == 2:
        return sub(pts[1], pts[0])
    out = [Fr(0)] * 3
    for i in range(1, len(pts) - 1):
        c = cross(sub(pts[i], pts[0]), sub(pts[i + 1], pts[0]))
        out = [a + b for a, b in zip(out, c)]
    return out


def on_facet(geo, f, pt):
    """Is the point in the closed facet of the reference element?"""
    p = [geo.coors[v] for v in f]
    if geo.dim == 2:
        t, d = sub(p[1], p[0]), sub(pt, p[0])
        return t[0] * d[1] == t[1] * d[0] and 0 <= dot(t, d) <= dot(t, t)
    n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    if dot(n, sub(pt, p[0])) != 0:
        return False
    for i in range(len(p)):
        e = sub(p[(i + 1) % len(p)], p[i])
        if dot(cross(n, e), sub(pt, p[i])) < 0:
            return False
    return True


def partition(geo, child, cells):
    """Problems of the subdivision of the reference element to cells."""
    out = []
    vols = Fr(0)
    for i, pts in enumerate(cells):
        v = cell_ok(child, pts)
        if v is None:
            out.append((i, 'is not similar to the reference element'))
        elif v <= 0:
            out.append((i, 'is degenerate or inverted'))
        else:
            vols += v * Fr(child.d['volume'])
    if out:
        return out
    if vols != Fr(geo.d['volume']):
        return [('', 'volumes sum to %s' % vols)]
    seen = {}
    for i, pts in enumerate(cells):
        for f in facet_polys(child, pts):
            seen.setdefault(frozenset(f), []).append(i)
    for f, cs in seen.items():
        if len(cs) == 1 and not any(all(on_facet(geo, g, p) for p in f)
                                    for g in geo.facets):
            out.append((cs[0], 'a facet inside the parent is not shared'))
        elif len(cs) > 2:
            out.append((cs[0], 'a facet is shared by %d cells' % len(cs)))
    return out


def resolve(fn):
    """Last values of the local names; tuples unpacked."""
    vals = {}
    for s in ast.walk(fn):
        if not isinstance(s, ast.Assign):
            continue
        for t in s.targets:
            if isinstance(t, ast.Name):
                vals.setdefault(t.id, []).append(s.value)
            elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) \
                    and len(t.elts) == len(s.value.elts):
                for a, b in zip(t.elts, s.value.elts):
                    if isinstance(a, ast.Name):
                        vals.setdefault(a.id, []).append(b)
    return vals


def entity(n, vals, depth=0):
    """What a name numbers: 'v' vertices, 'b' cells, k: entities of tdim-k."""
    if depth > 10:
        return None
    kinds = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
           and x.func.attr == 'get_conn':
            if len(x.args) == 2:
                a = x.args[1]
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Sub) \
                   and isinstance(a.right, ast.Constant):
                    kinds.add(a.right.value)
                elif isinstance(a, ast.Constant):
                    kinds.add(('d', a.value))
            else:
                kinds.add('v')
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr == 'arange':
            kinds.add('b')
    if kinds:
        return kinds.pop() if len(kinds) == 1 else None
    # The array itself, not the offsets added to it.
    m = n
    while True:
        if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute):
            m = m.func.value
        elif isinstance(m, (ast.Attribute, ast.Subscript)):
            m = m.value
        elif isinstance(m, ast.BinOp):
            m = m.left
        else:
            break
    if isinstance(m, ast.Name) and len(vals.get(m.id, ())) == 1:
        return entity(vals[m.id][0], vals, depth + 1)
    return None


def subdivision(geo, rows, vals):
    """Coordinates of the listed nodes in the reference element."""
    out = []
    for e in rows:
        idx = None
        base = e
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            base, idx = e.value, e.slice.value
        kind = entity(base, vals)
        if kind is None:
            raise Undecided('node')
        if kind == 'b' and idx is None:
            out.append(mid(geo.coors))
            continue
        if idx is None:
            raise Undecided('node')
        if kind == 'v':
            pts = [geo.coors]
            lst = [[c] for c in geo.coors]
        else:
            d = kind[1] if isinstance(kind, tuple) else geo.dim - kind
            ents = {1: geo.edges, 2: geo.faces}.get(d)
            if ents is None:
                raise Undecided('entity')
            lst = [[geo.coors[v] for v in f] for f in ents]
        if not 0 <= idx < len(lst):
            raise Undecided('index')
        out.append(mid(lst[idx]))
    return out


def stacked(fn):
    """Lists of rows that are stacked to arrays."""
    def rows(n, depth=0):
        if depth > 5:
            return None
        if isinstance(n, (ast.List, ast.Tuple)):
            if all(isinstance(e, (ast.Subscript, ast.Name)) for e in n.elts):
                return list(n.elts)
            return None
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = rows(n.left, depth + 1), rows(n.right, depth + 1)
            return None if a is None or b is None else a + b
        if isinstance(n, ast.Name):
            if n.id not in lists:
                return None
            out = []
            for v in lists[n.id]:
                r = rows(v, depth + 1)
                if r is None:
                    return None
                out += r
            return out
        return None

    lists, odd = {}, set()
    top = {id(s) for s in fn.body}
    for s in ast.walk(fn):
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    if id(s) not in top or isinstance(s, ast.Assign) \
                       and t.id in lists:
                        odd.add(t.id)
                    lists.setdefault(t.id, []).append(s.value)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name):
            f = s.value.func
            if f.attr == 'extend' and id(s) in top and s.value.args:
                lists.setdefault(f.value.id, []).append(s.value.args[0])
            else:
                odd.add(f.value.id)
    for name in odd:
        lists.pop(name, None)
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and len(n.args) >= 1:
            f = n.func
            if isinstance(f, ast.Name) and len(lists.get(f.id, ())) == 1:
                f = lists[f.id][0]
            if getattr(f, 'attr', getattr(f, 'id', None)) \
               in ('vstack', 'array', 'stack', 'row_stack'):
                r = rows(n.args[0])
                if r is not None and len(r) >= 6:
                    yield n, r


def check_refinement(ctx, geos):
    rel = FEM + 'refine.py'
    with open(os.path.join(ctx.repo, rel)) as fd:
        tree = ast.parse(fd.read())
    children = {}
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        name = fn.name.replace('refine_', '', 1)
        if not fn.name.startswith('refine_'):
            continue
        if name == 'reference':
            check_error_edges(ctx, fn, rel, geos, children)
            continue
        geo = geos.get(name)
        if geo is None:
            continue
        vals = resolve(fn)
        for n, elts in stacked(fn):
            nv = len(geo.coors)
            where = '%s:%d (%s)' % (rel, n.lineno, fn.name)
            try:
                pts = subdivision(geo, elts, vals)
            except Undecided:
                ctx.count('undecided_tables')
                continue
            ctx.count('subdivisions')
            key = 'refine:' + name
            if len(pts) % nv:
                ctx.violation(key, 'a child cell with missing nodes', where)
                continue
            cells = [pts[i:i + nv] for i in range(0, len(pts), nv)]
            children[name] = cells
            ctx.count('child_cells', len(cells))
            for i, msg in partition(geo, geo, cells):
                ctx.violation('%s:%s' % (key, i), 'refined %s: the cell %s %s'
                              % (name, i, msg), where)
            for c in ast.walk(fn):
                if isinstance(c, ast.Call) and c.args \
                   and isinstance(c.func, ast.Attribute) \
                   and c.func.attr in ('repeat', 'tile') \
                   and isinstance(c.args[-1], ast.Constant) \
                   and any(isinstance(x, ast.Attribute)
                           and x.attr == 'cell_groups'
                           for x in ast.walk(c)):
                    ctx.count('child_groups')
                    if c.func.attr == 'tile' \
                       or c.args[-1].value != len(cells):
                        ctx.violation('%s:groups' % key, 'material ids are'
                                      ' not repeated for the %d children of'
                                      ' each cell' % len(cells), where)
    return children


def check_error_edges(ctx, fn, rel, geos, children):
    """Each triple: ends of an edge of the parent entity, middle inside."""
    for n in ast.walk(fn):
        if not (isinstance(n, ast.If) and isinstance(n.test, ast.Compare)):
            continue
        names = [c.value for c in ast.walk(n.test)
                 if isinstance(c, ast.Constant) and c.value in geos]
        if len(names) != 1 or names[0] not in children:
            continue
        tabs = []
        for s in n.body:
            if isinstance(s, ast.Assign):
                try:
                    v = ast.literal_eval(s.value)
                except ValueError:
                    continue
                if isinstance(v, list) and v and isinstance(v[0], list):
                    tabs.append((v, s))
        if len(tabs) != 2 or len(tabs[0][0]) != len(tabs[1][0]):
            ctx.count('undecided_tables')
            continue
        cells = children[names[0]]
        for i, (ir, ic) in enumerate(zip(tabs[0][0], tabs[1][0])):
            ctx.count('error_edges')
            try:
                p = [cells[a][b] for a, b in zip(ir, ic)]
            except IndexError:
                p = None
            if p is None or len(p) != 3 or p[0] == p[2] \
               or mid([p[0], p[2]]) != p[1]:
                ctx.violation('error-edges:%s:%d' % (names[0], i),
                              'the error edge %d of %s is not a halved edge'
                              % (i, names[0]), '%s:%d (%s)'
                              % (rel, tabs[1][1].lineno, fn.name))


def check_hanging(ctx, geos, children):
    rel = FEM + 'refine_hanging.py'
    lit = load(ctx, rel)
    for name, ent in (('refine_edges_2_4', 'edges'),
                      ('refine_faces_3_8', 'faces'),
                      ('refine_edges_3_8', 'edges')):
        tab = lit.env.get(name)
        gname = name[-3:]
        geo = geos.get(gname)
        if not isinstance(tab, list) or geo is None \
           or gname not in children:
            ctx.count('undecided_tables')
            continue
        cells = children[gname]
        ents = getattr(geo, ent)
        where = '%s:%d (%s)' % (rel, lit.lines[name], name)
        ctx.count('hanging_tables')
        if len(tab) != len(ents):
            ctx.violation('hanging:%s' % name, '%s has %d rows for %d %s'
                          % (name, len(tab), len(ents), ent), where)
            continue
        for i, row in enumerate(tab):
            ctx.count('hanging_facets', len(row))
            parent = [geo.coors[v] for v in ents[i]]
            got = []
            bad = False
            for sc, lf in row:
                if not (0 <= sc < len(cells) and 0 <= lf < len(ents)):
                    bad = True
                    break
                pts = [cells[sc][v] for v in ents[lf]]
                got.append(frozenset(pts))
                if not all(inside_entity(parent, p) for p in pts):
                    bad = True
            halves = 2**(1 if ent == 'edges' else 2)
            if bad or len(set(got)) != halves or len(row) != halves:
                ctx.violation('hanging:%s:%d' % (name, i), '%s: the row %d'
                              ' does not list the parts of the %s %d of %s'
                              % (name, i, ent[:-1], i, gname), where)


def inside_entity(parent, p):
    """All coordinates of parallelepiped entities are between extremes."""
    return all(min(q[k] for q in parent) <= p[k] <= max(q[k] for q in parent)
               for k in range(len(p)))


def check_q2t(ctx, geos):
    rel = 'sfepy/mesh/mesh_tools.py'
    path = os.path.join(ctx.repo, rel)
    if not os.path.exists(path):
        raise AnalysisBroken('no ' + rel)
    with open(path) as fd:
        tree = ast.parse(fd.read())
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        for n in ast.walk(fn):
            if not isinstance(n, ast.List) or len(n.elts) < 2:
                continue
            try:
                rows = ast.literal_eval(n)
            except ValueError:
                continue
            if not all(isinstance(r, list) and len(r) == len(rows[0])
                       and all(isinstance(v, int) for v in r) for r in rows):
                continue
            nv = len(rows[0])
            pair = {3: ('2_4', '2_3'), 4: ('3_8', '3_4')}.get(nv)
            if pair is None:
                continue
            geo, child = geos[pair[0]], geos[pair[1]]
            ctx.count('subdivisions')
            ctx.count('child_cells', len(rows))
            where = '%s:%d (%s)' % (rel, n.lineno, fn.name)
            if any(v not in range(len(geo.coors)) for r in rows for v in r):
                ctx.violation('split:' + pair[0], 'an unknown vertex', where)
                continue
            cells = [[geo.coors[v] for v in r] for r in rows]
            for i, msg in partition(geo, child, cells):
                ctx.violation('split:%s:%s' % (pair[0], i), 'splitting %s to'
                              ' %s: the cell %s %s' % (pair + (i, msg)),
                              where)


def check_vertex_maps(ctx, geos):
    rel = FEM + 'poly_spaces.py'
    lit = load(ctx, rel)
    maps = lit.env.get('vertex_maps')
    if not isinstance(maps, dict):
        raise AnalysisBroken('vertex_maps is not a table')
    for dim, m in maps.items():
        geo = geos.get('%d_%d' % (dim, 2**dim))
        if geo is None or dim == 0:
            continue
        ctx.count('geometry_facts')
        if [tuple(Fr(x) for x in c) for c in m] != geo.coors:
            ctx.violation('vertex_maps:%d' % dim, 'vertices of the dimension'
                          ' %d differ from the reference element' % dim,
                          '%s:%d (vertex_maps)' % (rel,
                                                   lit.lines['vertex_maps']))


# -- facet orientations ------------------------------------------------------

class Nest:
    """for k0 in range(n0): for k1 in range(n1): yield exprs"""

    def __init__(self, counts, exprs):
        self.counts, self.exprs = counts, exprs


NUM = Poly.var('num')


class Loops:
    """Loop nests of generators as affine functions of loop counters."""

    def __init__(self, tree):
        self.funcs = {f.name: f for f in tree.body
                      if isinstance(f, ast.FunctionDef)}
        self.cache = {}

    def nest(self, name):
        if name not in self.cache:
            fn = self.funcs.get(name)
            if fn is None or len(fn.args.args) != 1:
                raise Undecided(name)
            self.cache[name] = self.block(
                fn.body, {fn.args.args[0].arg: NUM}, 0)
        return self.cache[name]

    def aff(self, n, env):
        if isinstance(n, ast.Subscript):
            v = env.get(getattr(n.value, 'id', None))
            if isinstance(v, tuple):
                return self.aff(n.slice, env)
            if isinstance(n.value, ast.Attribute) \
               and n.value.attr == 'shape':
                v = env.get(getattr(n.value.value, 'id', None))
                if isinstance(v, tuple):
                    return v[1]
            raise Undecided('subscript')
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return Poly.c(n.value)
        if isinstance(n, ast.Name) and isinstance(env.get(n.id), Poly):
            return env[n.id]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -self.aff(n.operand, env)
        if isinstance(n, ast.BinOp):
            a, b = self.aff(n.left, env), self.aff(n.right, env)
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}.get(type(n.op))
            if op:
                return arith(op, a, b)
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'len' \
           and len(n.args) == 1:
            v = env.get(getattr(n.args[0], 'id', None))
            if isinstance(v, tuple):
                return v[1]
        raise Undecided(ast.dump(n)[:50])

    def rng(self, n, env, depth):
        """(start + step k, number of iterations) of a range."""
        rev = False
        while isinstance(n, ast.Call) \
                and getattr(n.func, 'id', '') == 'reversed':
            rev = not rev
            n = n.args[0]
        if not isinstance(n, ast.Call) \
           or getattr(n.func, 'id', '') != 'range':
            raise Undecided('range')
        a = [self.aff(x, env) for x in n.args]
        lo, hi = (Poly.c(0), a[0]) if len(a) == 1 else a[:2]
        step = a[2].const() if len(a) == 3 else 1
        if step not in (1, -1):
            raise Undecided('step')
        cnt = hi - lo if step == 1 else lo - hi
        if rev:
            lo, step = (hi - Poly.c(1), -1) if step == 1 else \
                (hi + Poly.c(1), 1)
        k = Poly.var('k%d' % depth)
        return lo + Poly.c(step) * k, cnt

    def block(self, body, env, depth):
        env = dict(env)
        out = None
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Pass,)):
                continue
            if out is not None:
                raise Undecided('statement after the loop')
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Call) \
                   and isinstance(s.value.func, ast.Attribute) \
                   and s.value.func.attr == 'diag_indices' \
                   and len(s.value.args) == 1:
                    n = self.aff(s.value.args[0], env)
                    for x in t.elts:
                        env[x.id] = ('identity', n)
                elif isinstance(t, ast.Name):
                    try:
                        env[t.id] = self.aff(s.value, env)
                    except Undecided:
                        env.pop(t.id, None)
                else:
                    raise Undecided('assignment')
            elif isinstance(s, ast.For):
                out = self.loop(s, env, depth)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                v = s.value.value
                elts = v.elts if isinstance(v, ast.Tuple) else [v]
                out = Nest([], [self.aff(x, env) for x in elts])
            elif isinstance(s, ast.Expr) \
                    and isinstance(s.value, ast.YieldFrom) \
                    and depth == 0:
                out = self.called(s.value.value, env)
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.Call) \
                    and depth == 0:
                out = self.called(s.value, env)
            else:
                raise Undecided(type(s).__name__)
        if out is None:
            raise Undecided('nothing is generated')
        return out

    def called(self, n, env):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                and len(n.args) == 1 and self.aff(n.args[0], env) == NUM):
            raise Undecided('call')
        return self.nest(n.func.id)

    def loop(self, s, env, depth):
        if isinstance(s.target, ast.Name):
            try:
                v, cnt = self.rng(s.iter, env, depth)
            except Undecided:
                if depth:
                    raise
                inner = self.called(s.iter, env)
                v, cnt = None, None
                env2 = dict(env)
                env2[s.target.id] = inner.exprs[0]
                res = self.block(s.body, env2, 9)
                if res.counts or len(inner.exprs) != 1:
                    raise Undecided('nested generators')
                return Nest(inner.counts, res.exprs)
            env2 = dict(env)
            env2[s.target.id] = v
            res = self.block(s.body, env2, depth + 1)
            return Nest([cnt] + res.counts, res.exprs)
        if depth:
            raise Undecided('nested generators')
        inner = self.called(s.iter, env)
        names = [t.id for t in s.target.elts]
        if len(names) != len(inner.exprs):
            raise Undecided('tuple')
        env2 = dict(env)
        env2.update(zip(names, inner.exprs))
        res = self.block(s.body, env2, 9)
        if res.counts:
            raise Undecided('nested generators')
        return Nest(inner.counts, res.exprs)


def masks(n):
    """Orientation key -> positions of vertices in the ascending order."""
    cmps = [(a, b) for b in range(n) for a in range(b)]
    out = {}
    for p in itertools.permutations(range(n)):
        key = sum(2**i for i, (a, b) in enumerate(cmps) if p[a] < p[b])
        out[key] = [p.index(i) for i in range(n)]
    return out, cmps


def expected(n, order):
    """
    Counts of loops over facet nodes and position of each node in the
    canonical order of the facet, that starts at its least vertex.
    """
    one = Poly.c(1)
    k0, k1 = Poly.var('k0'), Poly.var('k1')
    last = NUM - one
    if n == 2:
        return [NUM], [k0 if order[0] == 0 else last - k0]
    if n == 3:
        w = [last - k0 - k1, k1, k0]
        return [NUM, NUM - k0], [last - w[order[2]], w[order[1]]]
    # Towards the vertices 1 (k1) and 3 (k0).
    a = order[0]
    pos = {0: (0, 0), 1: (0, 1), 2: (1, 1), 3: (1, 0)}
    nb = sorted([(a + 1) % 4, (a - 1) % 4], key=order.index)

    def along(v):
        i = 0 if pos[v][0] != pos[a][0] else 1
        k = (k0, k1)[i]
        return k if pos[a][i] == 0 else last - k

    return [NUM, NUM], [along(nb[1]), along(nb[0])]


def check_facets(ctx):
    rel = FEM + 'facets.py'
    lit = load(ctx, rel)
    loops = Loops(lit.tree)
    groups = lit.env.get('_quad_ori_groups')
    square = lit.env.get('ori_square_to_iter')
    if not isinstance(groups, dict) or not isinstance(square, dict):
        raise AnalysisBroken('no tables of facet orientations')
    tabs = {2: ('ori_line_to_iter', lit.env.get('ori_line_to_iter')),
            3: ('ori_triangle_to_iter', lit.env.get('ori_triangle_to_iter')),
            4: ('_quad_ori_groups', {k: square.get(v)
                                     for k, v in groups.items()})}
    for n, (tname, tab) in tabs.items():
        if not isinstance(tab, dict):
            raise AnalysisBroken('no table ' + tname)
        ms, _ = masks(n)
        where = '%s:%d (%s)' % (rel, lit.lines[tname], tname)
        ctx.count('orientation_tables')
        for key, order in sorted(ms.items()):
            k = 'orientation:%d:%d' % (n, key)
            if not isinstance(tab.get(key), Call):
                ctx.violation(k, 'no traversal of facets with %d vertices'
                              ' for the orientation %d' % (n, key), where)
                continue
            name = tab[key].name
            try:
                nest = loops.nest(name)
            except Undecided:
                ctx.count('undecided_traversals')
                continue
            ctx.count('orientations')
            counts, exprs = expected(n, order)
            if nest.counts != counts or nest.exprs != exprs:
                ctx.violation(k, '%s: nodes of a facet with %d vertices and'
                              ' the orientation %d are numbered %s by %s(),'
                              ' not %s: neighbouring cells do not share them'
                              % (tname, n, key,
                                 [str(e) for e in nest.exprs], name,
                                 [str(e) for e in exprs]), where)
    check_keys(ctx)


MESH = 'sfepy/discrete/common/extmods/mesh.c'


def element(n):
    """(array, constant index)"""
    while n.k in ('ParenExpr', 'ImplicitCastExpr'):
        n = n.c[-1]
    if n.k == 'ArraySubscriptExpr':
        b, i = n.c
        while b.k == 'ParenExpr':
            b = b.c[0]
        if b.k == 'DeclRefExpr' and i.k == 'IntegerLiteral':
            return b.name, int(i.val)
    return None


def check_keys(ctx):
    """Orientation keys and sorting of facet vertices in C."""
    prog = cfe.Program(ctx.repo, [MESH])
    for n in (2, 3, 4):
        fn = prog.funcs.get('uint32_sort%d' % n)
        if fn is None or fn.body is None:
            ctx.count('undecided_functions')
            continue
        bits, net, known = {}, [], True

        def visit(stmts):
            nonlocal known
            for s in stmts:
                if s is None:
                    continue
                if s.k in ('CompoundStmt', 'DoStmt'):
                    visit(s.c[0].c if s.k == 'DoStmt' else s.c)
                    continue
                if s.k != 'IfStmt':
                    continue
                cond = s.c[0]
                while cond.k == 'ParenExpr':
                    cond = cond.c[0]
                a, b = (element(x) for x in cond.c) \
                    if cond.k == 'BinaryOperator' and len(cond.c) == 2 \
                    else (None, None)
                if a is None or b is None or cond.op not in '<>':
                    known = False
                    continue
                a, b = a[1], b[1]
                stores = [x for x in s.c[1].walk()
                          if x.k in ('BinaryOperator',
                                     'CompoundAssignOperator')
                          and x.op in ('=', '+=', '|=')]
                if len(stores) == 1 and stores[0].op in ('+=', '|=') \
                   and stores[0].c[1].k == 'IntegerLiteral':
                    pair = (a, b) if cond.op == '<' else (b, a)
                    bits[pair] = bits.get(pair, 0) + int(stores[0].c[1].val)
                elif len(stores) == 3:
                    w = [element(x.c[0]) for x in stores]
                    r = [element(x.c[1]) for x in stores]
                    if {x[1] for x in w + r if x} != {a, b} \
                       or w[1] != r[0] or r[1] != w[2] or w[0] or r[2]:
                        known = False
                    net.append((a, b) if cond.op == '>' else (b, a))
                else:
                    known = False

        visit(fn.body.c)
        if not known or not bits or not net:
            ctx.count('undecided_functions')
            continue
        where = '%s:%d (%s)' % (MESH, fn.line, fn.name)
        _, cmps = masks(n)
        ctx.count('orientation_keys', len(cmps))
        if bits != {c: 2**i for i, c in enumerate(cmps)}:
            ctx.violation('key:%d' % n, 'bits of the orientation key %s do'
                          ' not compare the pairs of vertices in the order'
                          ' %s' % (bits, cmps), where)
        for vals in itertools.product((0, 1), repeat=n):
            v = list(vals)
            for a, b in net:
                if v[a] > v[b]:
                    v[a], v[b] = v[b], v[a]
            ctx.count('sorted_inputs')
            if v != sorted(v):
                ctx.violation('sort:%d' % n, 'the exchanges %s do not sort'
                              ' %d vertices' % (net, n), where)
                break


def run(ctx):
    geos = check_geometry(ctx, load(ctx, GEO))
    check_vertex_maps(ctx, geos)
    check_quadratures(ctx)
    check_lobatto(ctx)
    check_serendipity(ctx, geos)
    children = check_refinement(ctx, geos)
    check_hanging(ctx, geos, children)
    check_q2t(ctx, geos)
    check_facets(ctx)
    ctx.floor('geometry_facts', 60)
    ctx.floor('quadrature_rules', 25)
    ctx.floor('polynomial_identities', 1000)
    ctx.floor('child_cells', 10)
    ctx.floor('orientations', 10)
    ctx.sample('quadrature 2_3, order 19: 210 monomials within 1e-14')
    ctx.sample('d_lobatto[9] = d/dx lobatto[9] in Q(sqrt)[x]')
    ctx.sample('orientation 7 of a quadrilateral: nodes (k0, k1) numbered'
               ' (k1, num - 1 - k0)')
