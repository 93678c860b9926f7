"""
Write effects of C functions: which pointer parameters' data are stored to.
Flow-sensitive local pointer aliasing on the CFG, interprocedural fixpoint.
"""
from .cfe import CFG, assigned, base_var, calls

PRETEND = {'fmf_pretend', 'fmf_pretend_nc', 'fmfr_pretend', 'fmf_set_qp'}
LIBC = {'memcpy': 0, 'memset': 0, 'memmove': 0, 'strcpy': 0}


def is_ptr(t):
    return bool(t) and ('*' in t or '[' in t)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        for rel in prog.by_file:
            for f in prog.by_file[rel].values():
                self.fns[f.name] = f
        self.W = {n: {} for n in self.fns}   # name -> {param: witness}
        self.cfgs = {}
        changed = True
        while changed:
            changed = False
            for f in self.fns.values():
                w = self.analyse(f)
                for p, wit in w.items():
                    if p not in self.W[f.name]:
                        self.W[f.name][p] = wit
                        changed = True

    def roots(self, n, env):
        if n is None:
            return frozenset()
        k = n.k
        if k == 'DeclRefExpr':
            return env.get(n.name, frozenset())
        if k in ('MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator'):
            return self.roots(n.c[0], env)
        if k == 'BinaryOperator':
            if n.op == '=':
                return self.roots(n.c[1], env)
            if n.op in ('+', '-'):
                r = frozenset()
                for c in n.c:
                    if is_ptr(c.type):
                        r |= self.roots(c, env)
                return r
            return frozenset()
        if k == 'ConditionalOperator':
            return self.roots(n.c[1], env) | self.roots(n.c[2], env)
        if k in ('CStyleCastExpr', 'ParenExpr', 'ImplicitCastExpr'):
            return self.roots(n.c[-1], env)
        return frozenset()

    def analyse(self, f):
        if f.name not in self.cfgs:
            self.cfgs[f.name] = CFG(f)
        cfg = self.cfgs[f.name]
        params = {p[0] for p in f.params if is_ptr(p[1])}
        start = {p: frozenset([p]) for p in params}
        wr = {}
        ins = {cfg.entry.i: start}
        work = [cfg.entry]
        while work:
            b = work.pop()
            env = dict(ins[b.i])
            if b.node is not None and b.kind != 'loop':
                self.transfer(f, b.node, env, wr)
            for _, t in b.succ:
                old = ins.get(t.i)
                if old is None:
                    ins[t.i] = dict(env)
                    work.append(t)
                    continue
                ch = False
                for k, v in env.items():
                    if not v <= old.get(k, frozenset()):
                        old[k] = old.get(k, frozenset()) | v
                        ch = True
                if ch:
                    work.append(t)
        return {p: w for p, w in wr.items() if p in params}

    def transfer(self, f, node, env, wr):
        # effects first (uses the state before the statement's own bindings)
        for l, r, x in assigned(node):
            if is_ptr(l.type) or l.k == 'DeclRefExpr':
                continue
            if l.k == 'MemberExpr':
                continue      # scalar header fields of a structure
            for p in self.roots(l, env):
                wr.setdefault(p, (f.where(x), 'stores to it'))
        for nm, x in calls(node):
            if nm in self.W:
                ps = self.fns[nm].params
                for (pn, pt, _), a in zip(ps, x.c[1:]):
                    if pn in self.W[nm]:
                        for p in self.roots(a, env):
                            wr.setdefault(p, (f.where(x), 'passes it to %s()'
                                              ' that writes it' % nm))
            elif nm in LIBC and len(x.c) > 1:
                for p in self.roots(x.c[1], env):
                    wr.setdefault(p, (f.where(x), 'passes it to %s()' % nm))
            if nm in PRETEND and len(x.c) > 1:
                b = base_var(x.c[1])
                if b is not None:
                    r = frozenset()
                    for a in x.c[2:]:
                        if is_ptr(a.type):
                            r |= self.roots(a, env)
                    env[b.name] = r if r else env.get(b.name, frozenset())
        if node.k == 'VarDecl':
            if node.has_init and is_ptr(node.type) and node.c:
                env[node.name] = self.roots(node.c[-1], env)
            return
        for l, r, x in assigned(node):
            if not is_ptr(l.type):
                continue
            if r is None:
                continue
            if l.k == 'DeclRefExpr':
                env[l.name] = self.roots(r, env)
            else:
                b = base_var(l)
                if b is not None:
                    env[b.name] = env.get(b.name, frozenset()) \
                        | self.roots(r, env)
