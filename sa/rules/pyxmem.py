"""Typestate of C allocations in the Cython sources (structured walk)."""
from ..pyxfe import PyxProgram, X, calls, xtext

ALLOC_RET = {'pyalloc', 'malloc', 'calloc', 'PyMem_Malloc'}
FREE_PTR = {'pyfree', 'free', 'PyMem_Free'}
ALLOC_OBJ = {'fmf_alloc': ''}
ALLOC_OBJ_ARG1 = {'mesh_select_complete': (1, '.mask')}
FREE_OBJ = {'fmf_free'}
_cache = {}


def program(repo):
    if repo not in _cache:
        _cache[repo] = PyxProgram(repo)
    return _cache[repo]


def freed_fields(repo):
    """Struct fields released from Cython code (text of the last member)."""
    out = set()
    px = program(repo)
    for rel, fns in px.funcs.items():
        for fn in fns:
            for name, c in calls(fn.node):
                if name.split('.')[-1] in FREE_PTR and c.args:
                    t = xtext(c.args[0])
                    if '.' in t:
                        out.add(t.split('.')[-1])
    return out


def strip(n):
    while isinstance(n, X) and n.t == 'TypecastNode':
        n = n.operand
    return n


def root(n):
    """Base name of `_B + ii`, `_B`, `&x[0]`."""
    n = strip(n)
    while isinstance(n, X):
        if n.t == 'NameNode':
            return n.name
        if n.t == 'AttributeNode':
            return xtext(n)
        if n.operand1 is not None:
            n = strip(n.operand1)
        elif n.t == 'AmpersandNode':
            n = strip(n.operand)
        elif n.t == 'IndexNode':
            n = strip(n.base)
        else:
            return None
    return None


class Walk:
    def __init__(self, ctx, rel, fn, report):
        self.rel = rel
        self.fn = fn
        self.report = report
        self.objs = set()
        self.owned = set()     # self attributes receiving memory

    def stmts(self, n, sts):
        """States after `n`; exits are checked on the way."""
        if n is None or not sts:
            return sts
        t = n.t
        if t == 'StatListNode':
            for s in n.stats or []:
                sts = self.stmts(s, sts)
            return sts
        if t == 'IfStatNode':
            out = set()
            cur = sts
            for cl in n.if_clauses or []:
                cur = self.expr(cl.condition, cur)
                out |= self.stmts(cl.body, self.refine(cl.condition, cur,
                                                       True))
                cur = self.refine(cl.condition, cur, False)
            out |= self.stmts(n.else_clause, cur) if n.else_clause is not None\
                else cur
            return out
        if t in ('ForInStatNode', 'ForFromStatNode', 'WhileStatNode'):
            body = n.body
            r = self.stmts(body, sts)
            has = any(x.t == 'SimpleCallNode'
                      and xtext(x.function).split('.')[-1]
                      in (FREE_OBJ | FREE_PTR | set(ALLOC_OBJ))
                      for x in body.walk())
            return r if has else r | sts
        if t == 'ReturnStatNode':
            sts = self.expr(n.value if isinstance(n.value, X) else None, sts)
            self.exit(sts, n, 'return')
            return set()
        if t == 'RaiseStatNode':
            self.exit(sts, n, 'raise')
            return set()
        if t == 'TryFinallyStatNode':
            self._fin = getattr(self, '_fin', []) + [n.finally_clause]
            r = self.stmts(n.body, sts)
            self._fin.pop()
            return self.stmts(n.finally_clause, r)
        if t == 'TryExceptStatNode':
            r = self.stmts(n.body, sts)
            out = set(r)
            for cl in n.except_clauses or []:
                out |= self.stmts(cl.body, sts | r)
            return out
        if t in ('CVarDefNode', 'FuncDefNode', 'DefNode', 'CFuncDefNode'):
            return sts
        return self.expr(n, sts)

    def refine(self, cond, sts, val):
        """`x is NULL` / `x == NULL` kills allocated states."""
        if cond is None or not cond.operator:
            return sts
        op = cond.operator
        if op in ('is', '==', 'is_not', '!=') and cond.operand2 is not None \
           and xtext(cond.operand2) in ('NULL', 'None'):
            name = xtext(cond.operand1)
            isnull = (op in ('is', '==')) == val
            if isnull:
                return {tuple(kv if kv[0] != name else (name, 'null')
                              for kv in s) for s in sts}
        return sts

    def expr(self, n, sts):
        if n is None:
            return sts
        evs = []
        self.events(n, evs)
        out = set()
        for s in sts:
            d = dict(s)
            for kind, key, node in evs:
                st = d.get(key)
                if kind == 'alloc':
                    self.objs.add(key)
                    d[key] = 'alloc'
                elif kind == 'free':
                    if st == 'freed':
                        self.report('double-free', self, key, node,
                                    '%s is released twice' % key)
                    d[key] = 'freed'
                elif kind == 'escape':
                    d[key] = 'escaped'
                elif kind == 'use' and st == 'freed':
                    self.report('use-after-free', self, key, node,
                                '%s is used after it was released' % key)
            out.add(tuple(sorted(d.items())))
        return out

    def events(self, n, out):
        t = n.t
        if t in ('SingleAssignmentNode', 'CascadedAssignmentNode'):
            lhss = n.lhs_list if t == 'CascadedAssignmentNode' else [n.lhs]
            r = strip(n.rhs)
            isal = isinstance(r, X) and r.t == 'SimpleCallNode' and \
                xtext(r.function).split('.')[-1] in ALLOC_RET
            if isal:
                names = [xtext(x) for x in lhss if isinstance(x, X)]
                attrs = [x for x in names if '.' in x]
                if attrs:
                    self.owned.update(attrs)
                else:
                    for nm in names:
                        out.append(('alloc', nm, n))
                return
            if isinstance(n.rhs, X):
                self.events(n.rhs, out)
            if isinstance(r, X) and r.t == 'NameNode':
                for x in lhss:
                    if isinstance(x, X) and x.t == 'AttributeNode' \
                       and xtext(x).startswith('self.'):
                        out.append(('escape', r.name, n))
            return
        if t == 'SimpleCallNode':
            f = xtext(n.function).split('.')[-1]
            args = n.args or []
            for a in args:
                if isinstance(a, X) and f not in FREE_PTR | FREE_OBJ:
                    self.events(a, out)
            if f in ALLOC_OBJ and args:
                out.append(('alloc', root(args[0]), n))
            elif f in ALLOC_OBJ_ARG1:
                i, suf = ALLOC_OBJ_ARG1[f]
                if i < len(args):
                    out.append(('alloc', root(args[i]) + suf, n))
            elif f in FREE_OBJ | FREE_PTR and args:
                out.append(('free', root(args[0]), n))
            return
        if t == 'NameNode':
            out.append(('use', n.name, n))
            return
        for k in n.kids:
            self.events(k, out)

    def exit(self, sts, node, how):
        for s in sts:
            for fin in reversed(getattr(self, '_fin', [])):
                r = Walk(None, self.rel, self.fn, lambda *a: None).stmts(
                    fin, {s})
                s = sorted(r)[0] if r else s
            for key, st in s:
                if st == 'alloc':
                    self.report('leak', self, key, node,
                                '%s is still allocated at a %s'
                                % (key, how))


def run(ctx, prog):
    px = program(ctx.repo)

    def report(kind, w, key, node, text):
        ctx.violation('mem.%s:%s:%s' % (kind, w.fn.name, key),
                      '%s in %s' % (text, w.fn.name),
                      '%s:%d (%s)' % (w.rel, node.line, w.fn.name))

    owned = {}
    deallocs = {}
    for rel in sorted(px.funcs):
        for fn in px.funcs[rel]:
            ctx.count('cython_functions')
            w = Walk(ctx, rel, fn, report)
            rest = w.stmts(fn.node.body, {()})
            w.exit(rest, fn.node, 'normal end')
            ctx.count('cython_tracked_objects', len(w.objs))
            for a in w.owned:
                owned.setdefault((rel, a), fn)
                ctx.count('cython_owned_attributes')
            if fn.name == '__dealloc__':
                for name, c in calls(fn.node):
                    if name.split('.')[-1] in FREE_PTR and c.args:
                        t = xtext(strip(c.args[0]))
                        deallocs.setdefault(rel, []).append(t)
                        # local alias of the attribute
                        for x in fn.node.walk():
                            if x.t == 'SingleAssignmentNode' \
                               and isinstance(x.rhs, X) \
                               and xtext(x.lhs) == t:
                                deallocs[rel].append(xtext(strip(x.rhs)))
    counts = {}
    for (rel, a), fn in sorted(owned.items()):
        counts.setdefault(rel, []).append(a)
        if a not in deallocs.get(rel, []):
            ctx.violation('mem.owner:%s:%s' % (rel, a),
                          'memory stored in %s by %s is not released by a'
                          ' __dealloc__' % (a, fn.name),
                          '%s:%d' % (rel, fn.node.line))
    ctx.floor('cython_functions', 120)
    ctx.floor('cython_tracked_objects', 8)
