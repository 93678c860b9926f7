"""
Structured abstract interpretation of one Python function.

A client subclasses Flow and works on hashable states.  Every way out of the
function (return, raise, falling off the end) is reported through `leave`.
Exceptional edges: a statement that `may_raise` sends its pre-state and its
post-state to the innermost handlers (or out of the function).
"""
import ast


class Flow:
    raise_all = False     # treat every statement with a call as may-raise

    def run(self, fn_node, start):
        self._loops = []
        self._tries = []      # stack of dicts collecting exceptional states
        out = self.block(fn_node.body, set(start))
        for s in out:
            self.leave('end', fn_node, s)
        return out

    # -- client interface ----------------------------------------------
    def stmt(self, n, s):
        """States after simple statement (or header expression) `n`."""
        return {s}

    def branch(self, test, s, val):
        """States when `test` evaluates to `val` (empty: infeasible)."""
        return {s}

    def enter_with(self, item, s):
        return self.stmt(item.context_expr, s)

    def exit_with(self, item, s):
        return {s}

    def bind_for(self, n, s):
        return {s}

    def catches(self, handler, s, node):
        """Can the handler catch what was raised at `node` with `s`?"""
        return True

    def catches_all(self, handler):
        t = handler.type
        if t is None:
            return True
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        return any(isinstance(x, ast.Name)
                   and x.id in ('Exception', 'BaseException') for x in ts)

    def enter_handler(self, h, s):
        return {s}

    def leave(self, how, node, s):
        pass

    def may_raise(self, n):
        if isinstance(n, ast.AST):
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    return True
        return False

    # -- engine -----------------------------------------------------------
    def block(self, stmts, states):
        for n in stmts:
            if not states:
                break
            states = self.one(n, states)
        return states

    def _exc(self, node, states):
        """Route states to the innermost exceptional collector."""
        if self._tries:
            self._tries[-1].setdefault('exc', []).append((node,
                                                          frozenset(states)))
        else:
            for s in states:
                self.leave('raise', node, s)

    def _each(self, f, states):
        out = set()
        for s in states:
            out |= set(f(s))
        return out

    def simple(self, n, states):
        out = self._each(lambda s: self.stmt(n, s), states)
        if self.raise_all and self.may_raise(n):
            self._exc(n, self.exc_states(n, states, out))
        elif self._tries and self.may_raise(n):
            self._exc(n, self.exc_states(n, states, out))
        return out

    def exc_states(self, n, before, after):
        return before | after

    def one(self, n, states):
        t = type(n)
        if t is ast.If:
            states = self.simple(n.test, states)
            a = self._each(lambda s: self.cond(n.test, s, True), states)
            b = self._each(lambda s: self.cond(n.test, s, False), states)
            return self.block(n.body, a) | self.block(n.orelse, b)
        if t in (ast.While,):
            return self._loop(n, states)
        if t in (ast.For, ast.AsyncFor):
            return self._loop(n, states)
        if t in (ast.With, ast.AsyncWith):
            for it in n.items:
                pre = states
                states = self._each(lambda s: self.enter_with(it, s), states)
                if self.raise_all or self._tries:
                    self._exc(it.context_expr, pre)
            col = {}
            self._tries.append(col)
            self._withs = getattr(self, '_withs', [])
            out = self.block(n.body, states)
            self._tries.pop()
            for it in reversed(n.items):
                out = self._each(lambda s: self.exit_with(it, s), out)
            for node, ss in col.get('exc', ()):
                ss = set(ss)
                for it in reversed(n.items):
                    ss = self._each(lambda s: self.exit_with(it, s), ss)
                self._exc(node, ss)
            for kind, node, ss in col.get('jump', ()):
                for it in reversed(n.items):
                    ss = self._each(lambda s: self.exit_with(it, s), set(ss))
                self._jump(kind, node, ss)
            return out
        if t is ast.Try or t.__name__ == 'TryStar':
            return self._try(n, states)
        if t is ast.Return:
            if n.value is not None:
                states = self.simple(n.value, states)
            states = self._each(lambda s: self.stmt(n, s), states)
            self._jump('return', n, states)
            return set()
        if t is ast.Raise:
            states = self._each(lambda s: self.stmt(n, s), states)
            self._exc(n, states)
            return set()
        if t is ast.Break:
            self._jump('break', n, states)
            return set()
        if t is ast.Continue:
            self._jump('continue', n, states)
            return set()
        if t is ast.Assert:
            states = self.simple(n.test, states)
            bad = self._each(lambda s: self.cond(n.test, s, False), states)
            if bad and (self.raise_all or self._tries):
                self._exc(n, bad)
            return self._each(lambda s: self.cond(n.test, s, True), states)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            return self._each(lambda s: self.stmt(n, s), states)
        if t is getattr(ast, 'Match', None):
            out = set()
            for c in n.cases:
                out |= self.block(c.body, states)
            return out | states
        return self.simple(n, states)

    def cond(self, test, s, val):
        """Short-circuit refinement."""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == val:
                ss = {s}
                for v in test.values:
                    ss = self._each(lambda x: self.cond(v, x, val), ss)
                return ss
            out, cur = set(), {s}
            for v in test.values:
                out |= self._each(lambda x: self.cond(v, x, val), cur)
                cur = self._each(lambda x: self.cond(v, x, not val), cur)
            return out
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.cond(test.operand, s, not val)
        if isinstance(test, ast.Constant):
            return {s} if bool(test.value) == val else set()
        return self.branch(test, s, val)

    def _loop(self, n, states):
        is_for = not isinstance(n, ast.While)
        if is_for:
            states = self.simple(n.iter, states)
        brk = set()
        exits = set()
        seen = set()
        work = set(states)
        rounds = 0
        while work and rounds < 60:
            rounds += 1
            new = work - seen
            if not new:
                break
            seen |= new
            if is_for:
                # the iterator may raise; loop may end
                exits |= self._each(lambda s: self.end_for(n, s), new)
                body = self._each(lambda s: self.bind_for(n, s), new)
            else:
                tt = self.simple(n.test, new)
                exits |= self._each(lambda s: self.cond(n.test, s, False), tt)
                body = self._each(lambda s: self.cond(n.test, s, True), tt)
            self._loops.append({'break': set(), 'cont': set(),
                                'depth': len(self._tries)})
            out = self.block(n.body, body)
            fr = self._loops.pop()
            brk |= fr['break']
            work = out | fr['cont']
        out = self.block(n.orelse, exits)
        return out | brk

    def end_for(self, n, s):
        return {s}

    def _jump(self, kind, node, states):
        """return / break / continue, through enclosing finally blocks."""
        if not states:
            return
        if kind in ('break', 'continue') and self._loops:
            fr = self._loops[-1]
            if len(self._tries) <= fr['depth']:
                fr['break' if kind == 'break' else 'cont'] |= set(states)
                return
        if self._tries:
            self._tries[-1].setdefault('jump', []).append(
                (kind, node, frozenset(states)))
            return
        for s in states:
            self.leave(kind, node, s)

    def _try(self, n, states):
        col = {}
        self._tries.append(col)
        body = self.block(n.body, states)
        self._tries.pop()
        outer = {}
        has_fin = bool(n.finalbody)
        if has_fin:
            self._tries.append(outer)
        uncaught = []
        hs = [(h, set()) for h in n.handlers]
        for node, ss in col.get('exc', ()):
            for s in ss:
                caught = False
                for h, acc in hs:
                    if self.catches(h, s, node):
                        acc.add(s)
                        if self.catches_all(h):
                            caught = True
                            break
                if not caught:
                    uncaught.append((node, s))
        out = self.block(n.orelse, body)
        for h, acc in hs:
            if acc:
                ss = self._each(lambda s: self.enter_handler(h, s), acc)
                out |= self.block(h.body, ss)
        for node, s in uncaught:
            self._exc(node, {s})
        for kind, node, ss in col.get('jump', ()):
            self._jump(kind, node, ss)
        if not has_fin:
            return out
        self._tries.pop()
        res = self.block(n.finalbody, out)
        for node, ss in outer.get('exc', ()):
            self._exc(node, self.block(n.finalbody, set(ss)))
        for kind, node, ss in outer.get('jump', ()):
            self._jump(kind, node, self.block(n.finalbody, set(ss)))
        return res
