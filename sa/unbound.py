"""
Path-sensitive definite assignment for Python functions.

A path is described by the set of unassigned candidate names and the outcomes
of the tests that occur more than once (or have a comparable sibling) in the
function.  Iterations of `for` loops are assumed to happen at least once and
an if/elif chain selecting on one expression is assumed to be exhaustive, so
only paths that need no such assumption are reported.
"""
import ast
import builtins

from .pyflow import Flow

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                 '__path__', '__package__', '__spec__',
                                 '__loader__', '__builtins__', '__class__',
                                 '__module__', '__qualname__', 'WindowsError',
                                 '__annotations__', '__debug__'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
EXITS = {'exit', '_exit', 'quit', 'abort', 'debug'}


def target_names(t):
    out = []
    for x in ast.walk(t):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.append(x.id)
    return out


def local_names(fn):
    """Names bound in the scope of a function (not nested ones)."""
    out, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    params = set(out)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for n in scope_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return out - glob, params, glob


def scope_nodes(body):
    """Nodes of one scope; comprehension targets are excluded (own scope)."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, SCOPES):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            if isinstance(n, ast.ClassDef):
                stack.extend(n.bases)
                stack.extend(k.value for k in n.keywords)
            else:
                stack.extend(n.args.defaults)
                stack.extend(d for d in n.args.kw_defaults if d)
            continue
        if isinstance(n, COMPS):
            # only the walrus and free loads leak
            yield from comp_free(n, frozenset())
            continue
        stack.extend(ast.iter_child_nodes(n))


def comp_free(n, bound):
    """Names loaded in `n` but not bound by the enclosing comprehensions."""
    if isinstance(n, ast.Name):
        if isinstance(n.ctx, ast.Load) and n.id not in bound:
            yield n
        return
    if isinstance(n, ast.Lambda):
        a = n.args
        bound = bound | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    elif isinstance(n, ast.NamedExpr):
        yield n.target
    elif isinstance(n, COMPS):
        for g in n.generators:
            yield from comp_free(g.iter, bound)
            bound = bound | set(target_names(g.target))
            for c in g.ifs:
                yield from comp_free(c, bound)
        for x in ([n.key, n.value] if isinstance(n, ast.DictComp)
                  else [n.elt]):
            yield from comp_free(x, bound)
        return
    for c in ast.iter_child_nodes(n):
        yield from comp_free(c, bound)


def atom(t):
    """Canonical (key, polarity, kind, consts) of a test atom."""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 \
       and isinstance(t.left, ast.Name) \
       and isinstance(t.comparators[0], ast.Constant):
        # counters: x > 0, x >= 1 and x < 1 are x != 0 and x == 0
        k = (type(t.ops[0]), t.comparators[0].value)
        if k in ((ast.Gt, 0), (ast.GtE, 1)):
            return t.left.id, False, frozenset([0])
        if k == (ast.Lt, 1):
            return t.left.id, True, frozenset([0])
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if isinstance(r, ast.Constant):
                return ast.unparse(l), not neg, frozenset([r.value])
            if isinstance(r, (ast.List, ast.Tuple)) and not r.elts:
                return ast.unparse(t), True, None
        if isinstance(op, (ast.In, ast.NotIn)) \
           and isinstance(r, (ast.Tuple, ast.List, ast.Set)) \
           and all(isinstance(x, ast.Constant) for x in r.elts):
            return ast.unparse(l), not neg, frozenset(x.value
                                                      for x in r.elts)
        comp = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
                ast.LtE: ast.Gt}
        if neg or type(op) in (ast.GtE, ast.LtE):
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In,
                    ast.GtE: ast.Lt, ast.LtE: ast.Gt}[type(op)]
            t2 = ast.Compare(l, [flip()], [r])
            return ast.unparse(ast.fix_missing_locations(t2)), False, None
    return ast.unparse(t), True, None


def const_key(v):
    return (type(v).__name__, v)


class Unbound(Flow):
    def __init__(self, fn, cand, report):
        self.fn = fn
        self.cand = cand
        self.report = report
        self.seen_rep = set()
        cnt = {}
        for n in scope_nodes(fn.body):
            tests = []
            if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)):
                tests = [n.test]
            while tests:
                t = tests.pop()
                if isinstance(t, ast.BoolOp):
                    tests += t.values
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    tests.append(t.operand)
                else:
                    k = atom(t)[0]
                    cnt[k] = cnt.get(k, 0) + 1
        self.tracked = {k for k, v in cnt.items() if v > 1}
        self.compared = {
            n.left.id for n in scope_nodes(fn.body)
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name)
            and len(n.ops) == 1
            and isinstance(n.comparators[0], ast.Constant)}
        # all constants a selector is compared with
        self.consts, self.open = {}, set()
        for n in scope_nodes(fn.body):
            if isinstance(n, ast.Compare):
                k, _, cs = atom(n)
                if cs is not None:
                    self.consts.setdefault(k, set()).update(
                        const_key(c) for c in cs
                        if c is not None and not isinstance(c, bool))
            elif isinstance(n, ast.If) and not n.orelse:
                self.open |= {id(x) for x in ast.walk(n.test)}
        # a zero-based counter initialised by a constant, tested once
        for n in scope_nodes(fn.body):
            if isinstance(n, (ast.For, ast.AsyncFor)):
                c = self._counter(n)
                if c in cnt:
                    self.tracked.add(c)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 \
                    and isinstance(n.targets[0], ast.Name) \
                    and (n.targets[0].id in cnt
                         or n.targets[0].id in self.compared) \
                    and isinstance(n.value, ast.Constant):
                self.tracked.add(n.targets[0].id)
        self.chains = set()
        self.exh = {}
        for n in scope_nodes(fn.body):
            if isinstance(n, ast.If):
                self._chain(n)

    @staticmethod
    def _counter(n):
        """The zero-based counter of `for ii in range(n)`/enumerate(x)."""
        it = n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)):
            return None
        if it.func.id == 'range' and len(it.args) == 1 \
           and isinstance(n.target, ast.Name):
            return n.target.id
        if it.func.id == 'enumerate' and len(it.args) == 1 \
           and not it.keywords and isinstance(n.target, ast.Tuple) \
           and isinstance(n.target.elts[0], ast.Name):
            return n.target.elts[0].id
        return None

    ZERO = const_key(0)

    @staticmethod
    def _incr(old):
        """The fact about a non-negative counter after an increment."""
        if old is None:
            return None
        if old[0] == 'in' and all(isinstance(c[1], int) and c[1] >= 0
                                  for c in old[1]):
            return ('out', frozenset([Unbound.ZERO]))
        if old[0] == 'out' and Unbound.ZERO in old[1]:
            return ('out', frozenset([Unbound.ZERO]))
        return None

    def _chain(self, n):
        """Mark the last elif of an exhaustive-by-intent chain."""
        keys, last, k = None, n, 0
        cur = n
        while True:
            a = self._sel(cur.test)
            keys = a if keys is None else keys & a
            if not keys:
                return
            k += 1
            last = cur
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            break
        if k >= 2 and not last.orelse:
            self.chains.add(id(last.test))

    @staticmethod
    def _sel(t):
        """The expressions a test selects on."""
        if isinstance(t, ast.BoolOp):
            r = [Unbound._sel(v) for v in t.values]
            if isinstance(t.op, ast.And):
                return frozenset().union(*r)
            return frozenset.intersection(*r)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 \
           and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is, ast.Gt, ast.Lt,
                                     ast.GtE, ast.LtE)):
            return frozenset([ast.unparse(t.left)])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) \
           and t.func.id in ('isinstance', 'hasattr') and t.args:
            return frozenset([ast.unparse(t.args[0])])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) \
           and t.func.attr in ('startswith', 'endswith'):
            return frozenset([ast.unparse(t.func.value)])
        return frozenset()

    # state: (frozenset unassigned, frozenset facts)
    # fact: (key, 'T'/'F') or (key, ('in', consts)) / (key, ('out', consts))
    def start(self):
        return (frozenset(self.cand), frozenset())

    def uses(self, n, s):
        un, facts = s
        if not un or n is None:
            return
        for x in scope_nodes([n]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) \
               and x.id in un:
                if (x.id, x.lineno) not in self.seen_rep:
                    self.seen_rep.add((x.id, x.lineno))
                    self.report(x, facts)

    def bind(self, names, s):
        un, facts = s
        if not names:
            return s
        names = set(names)
        facts = frozenset(f for f in facts
                          if not (self._names(f[0]) & names))
        return (un - names, facts)

    _ncache = {}

    def _names(self, key):
        r = self._ncache.get(key)
        if r is None:
            try:
                r = {x.id for x in ast.walk(ast.parse(key, mode='eval'))
                     if isinstance(x, ast.Name)}
            except SyntaxError:
                r = set()
            self._ncache[key] = r
        return r

    def stmt(self, n, s):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            return {self.bind([n.name], s)}
        if t is ast.Assign:
            self.uses(n.value, s)
            for tg in n.targets:
                self.uses(tg, s)
            nm = []
            for tg in n.targets:
                nm += target_names(tg)
            old = dict(s[1])
            s = self.bind(nm, s)
            if len(nm) == 1 and isinstance(n.value, ast.BinOp) \
               and isinstance(n.value.op, ast.Add) \
               and isinstance(n.value.left, ast.Name) \
               and n.value.left.id == nm[0] \
               and isinstance(n.value.right, ast.Constant):
                new = self._incr(old.get(nm[0]))
                if new is not None:
                    s = (s[0], s[1] | {(nm[0], new)})
            # constant flags
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
               and isinstance(n.value, ast.Constant):
                k = n.targets[0].id
                v = n.value.value
                f = set(s[1])
                if k in self.tracked:
                    f.add((k, ('in', frozenset([const_key(v)]))))
                s = (s[0], frozenset(f))
            return {s}
        if t is ast.AugAssign:
            self.uses(n.value, s)
            if isinstance(n.target, ast.Name):
                x = ast.copy_location(ast.Name(n.target.id, ast.Load()), n)
                self.uses(x, s)
                k = n.target.id
                old = dict(s[1]).get(k)
                s = self.bind([k], s)
                if isinstance(n.op, ast.Add) \
                   and isinstance(n.value, ast.Constant):
                    new = self._incr(old)
                    if new is not None:
                        s = (s[0], s[1] | {(k, new)})
                return {s}
            self.uses(n.target, s)
            return {s}
        if t is ast.AnnAssign:
            if n.value is not None:
                self.uses(n.value, s)
                return {self.bind(target_names(n.target), s)}
            return {s}
        if t in (ast.Import, ast.ImportFrom):
            return {self.bind([(a.asname or a.name).split('.')[0]
                               for a in n.names], s)}
        if t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    # a deleted name counts as unassigned again
                    if x.id in self.cand:
                        s = (s[0] | {x.id}, s[1])
                else:
                    self.uses(x, s)
            return {s}
        if t in (ast.Return, ast.Raise):
            if t is ast.Raise:
                self.uses(n.exc, s)
                self.uses(n.cause, s)
            return {s}
        self.uses(n, s)
        out = s
        for x in ast.walk(n) if isinstance(n, ast.AST) else ():
            if isinstance(x, ast.NamedExpr):
                out = self.bind([x.target.id], out)
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                d = x.func
                nm = d.id if isinstance(d, ast.Name) else \
                    d.attr if isinstance(d, ast.Attribute) else ''
                if nm in EXITS or (nm == 'error'
                                   and isinstance(d, ast.Attribute)
                                   and isinstance(d.value, ast.Name)
                                   and 'parser' in d.value.id):
                    return set()
        return {out}

    def enter_with(self, it, s):
        self.uses(it.context_expr, s)
        if it.optional_vars is not None:
            s = self.bind(target_names(it.optional_vars), s)
        return {s}

    def bind_for(self, n, s):
        self.uses(n.target, s)
        return {self.bind(target_names(n.target), s)}

    def enter_handler(self, h, s):
        self.uses(h.type, s)
        return {self.bind([h.name] if h.name else [], s)}

    def may_raise(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Call, ast.Subscript, ast.Attribute,
                              ast.Import, ast.ImportFrom, ast.BinOp,
                              ast.Assert)):
                return True
        return False

    def exc_states(self, n, before, after):
        return before

    @staticmethod
    def _cmp(op, a, b):
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                    ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
                    }[type(op)]()
        except (KeyError, TypeError):
            return None

    def branch(self, test, s, val):
        key, pol, consts = atom(test)
        if not s[0]:
            pass
        val2 = val if pol else not val
        facts = dict(s[1])
        # `it < 2` with a known constant
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
           and isinstance(test.left, ast.Name) \
           and isinstance(test.comparators[0], ast.Constant):
            kn = facts.get(test.left.id)
            if kn is not None and kn[0] == 'in':
                r = {self._cmp(test.ops[0], c[1],
                               test.comparators[0].value) for c in kn[1]}
                if None not in r and val not in r:
                    return set()
        if id(test) in self.chains and not val:
            return set()
        if key not in self.tracked:
            return {s}
        old = facts.get(key)
        if consts is not None:
            cs = frozenset(const_key(c) for c in consts)
            if val2:
                if old is not None:
                    if old[0] == 'in':
                        cs = cs & old[1]
                    elif old[0] == 'out':
                        cs = cs - old[1]
                    elif old[0] == 'T' and all(not c[1] for c in cs):
                        return set()
                    if not cs:
                        return set()
                new = ('in', cs)
            else:
                if old is not None:
                    if old[0] == 'in':
                        rest = old[1] - cs
                        if not rest:
                            return set()
                        new = ('in', rest)
                    elif old[0] == 'out':
                        new = ('out', old[1] | cs)
                    else:
                        new = old
                else:
                    new = ('out', cs)
                # none of the values the function knows
                known = self.consts.get(key, ())
                if id(test) in self.open and new[0] == 'out' \
                   and len(known) > 1 and known <= new[1]:
                    return set()
        else:
            if old is not None:
                if old[0] == 'in':
                    tv = {bool(c[1]) for c in old[1]}
                    if val2 not in tv:
                        return set()
                    new = ('in', frozenset(c for c in old[1]
                                           if bool(c[1]) == val2))
                elif old[0] == 'out':
                    new = ('T',) if val2 else old
                    if not val2 and ('NoneType', None) in old[1] and False:
                        return set()
                else:
                    if (old[0] == 'T') != val2:
                        return set()
                    new = old
            else:
                new = ('T',) if val2 else ('F',)
        facts[key] = new
        return {(s[0], frozenset(facts.items()))}

    # `for` loops run at least once; limit the number of states
    def bind_first(self, n, s, first):
        out = set()
        c = self._counter(n)
        for s2 in self.bind_for(n, s):
            if c in self.tracked:
                k = 'in' if first else 'out'
                s2 = (s2[0], s2[1] | {(c, (k, frozenset([self.ZERO])))})
            out.add(s2)
        return out

    def _loop(self, n, states):
        is_for = not isinstance(n, ast.While)
        if not is_for:
            return super()._loop(n, states)
        states = self.simple(n.iter, states)
        brk, exits, seen = set(), set(), set()
        work = set(states)
        rounds = 0
        while (work - seen or rounds == 1) and rounds < 30:
            rounds += 1
            new = work if rounds <= 2 else work - seen
            if rounds > 1:
                seen |= new
            body = self._each(lambda s: self.bind_first(n, s, rounds == 1),
                              new)
            self._loops.append({'break': set(), 'cont': set(),
                                'depth': len(self._tries)})
            out = self.block(n.body, body)
            fr = self._loops.pop()
            brk |= fr['break']
            work = out | fr['cont']
            exits |= work
        out = self.block(n.orelse, exits) if n.orelse else exits
        return out | brk

    def block(self, stmts, states):
        for n in stmts:
            if not states:
                break
            states = self.one(n, states)
            if len(states) > 400:
                # forget the facts: keep the unassigned sets only
                raise TooMany()
        return states


class TooMany(Exception):
    pass


def candidates(fn):
    loc, params, glob = local_names(fn)
    return loc - params


def analyse(fn, report):
    cand = candidates(fn)
    if not cand:
        return 0
    # cheap pre-pass: one name at a time keeps the state space small
    suspects = set()
    a = Unbound(fn, cand, lambda x, f: suspects.add(x.id))
    a.tracked = set()
    try:
        a.run(fn, {a.start()})
    except TooMany:
        suspects = set(cand)
    n = 0
    for name in sorted(suspects):
        n += 1
        b = Unbound(fn, {name}, report)
        try:
            b.run(fn, {b.start()})
        except TooMany:
            # without facts the analysis would be imprecise: not judged
            report(None, name)
    return n
