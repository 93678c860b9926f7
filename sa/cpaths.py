"""
Access paths of C pointers, loops, and the current-cell ("->val") effects of
functions on the FMField arrays reachable from their parameters.
"""
from .cfe import CFG, render, calls, assigned, N


class FnInfo:
    """Per-function facts: aliases, loops, access-path roots."""

    def __init__(self, fn):
        self.fn = fn
        self.params = {p[0]: (i, p[1]) for i, p in enumerate(fn.params)}
        self.cfg = CFG(fn)
        self.aliases = self._aliases()
        self.loops = self._loops()

    # -- aliases ----------------------------------------------------------
    def _aliases(self):
        """Local pointer variables assigned exactly once from a plain path."""
        defs = {}
        for n in self.fn.body.walk():
            if n.k == 'VarDecl' and '*' in (n.type or ''):
                defs.setdefault(n.name, [])
                if n.c and n.has_init and not self._is_null(n.c[0]):
                    defs[n.name].append(n.c[0])
            elif n.k == 'VarDecl':
                continue
        for lhs, rhs, node in assigned(self.fn.body):
            if lhs.k == 'DeclRefExpr' and lhs.name in defs:
                if rhs is not None and self._is_null(rhs):
                    continue
                defs[lhs.name].append(rhs)
        out = {}
        for name, rhss in defs.items():
            if len(rhss) == 1 and rhss[0] is not None \
               and rhss[0].k in ('DeclRefExpr', 'MemberExpr') \
               and not (rhss[0].k == 'MemberExpr'
                        and rhss[0].name in ('val', 'val0')):
                out[name] = rhss[0]
        return out

    @staticmethod
    def _is_null(n):
        return n.k == 'IntegerLiteral' and str(n.val) == '0' \
            or n.k == 'GNUNullExpr'

    def path(self, n, depth=0):
        """
        Canonical access path ('vg->bfGM') of a pointer expression, or None.
        `&x->y` and `x[0]`-style arrays decay are kept as text.
        """
        if n is None or depth > 6:
            return None
        if n.k == 'DeclRefExpr':
            if n.name in self.aliases and n.name not in self.params:
                return self.path(self.aliases[n.name], depth + 1)
            return n.name
        if n.k == 'MemberExpr':
            b = self.path(n.c[0], depth)
            return None if b is None else b + '->' + n.name
        if n.k == 'ArraySubscriptExpr':
            b = self.path(n.c[0], depth)
            return None if b is None else b + '[' + render(n.c[1]) + ']'
        if n.k == 'UnaryOperator' and n.op == '&':
            return self.path(n.c[0], depth)
        if n.k == 'UnaryOperator' and n.op == '*':
            return self.path(n.c[0], depth)
        return None

    def rooted(self, path):
        """Parameter the path is rooted at, or None."""
        if path is None:
            return None
        root = path.split('->')[0].split('[')[0]
        return root if root in self.params else None

    # -- loops ------------------------------------------------------------
    def _loops(self):
        """loop head blk -> set of blk indices of its natural loop body."""
        cfg = self.cfg
        out = {}
        for b in cfg.blks:
            if b.kind != 'loop':
                continue
            # back edges: preds of head reachable from head
            reach = set()
            stack = [b]
            while stack:
                x = stack.pop()
                for _, t in x.succ:
                    if t.i not in reach:
                        reach.add(t.i)
                        stack.append(t)
            body = {b.i}
            stack = [p for _, p in cfg.preds.get(b.i, []) if p.i in reach]
            while stack:
                x = stack.pop()
                if x.i in body:
                    continue
                body.add(x.i)
                stack.extend(p for _, p in cfg.preds.get(x.i, []))
            out[b.i] = body
        return out


def names_in(n):
    return {x.name for x in n.walk() if x.k == 'DeclRefExpr'}


def is_field_type(t):
    return t is not None and t.replace('const ', '').strip() \
        in ('FMField *', 'struct FMField *', 'FMField')


class CellSummaries:
    """
    Fixpoint over the call graph of
      exposed[f]: {param suffix path} whose current cell is used before f
                  positions it;
      sets[f]:    {(param path, index param or '*')} positioned on all paths.
    Paths are written relative to parameter indices: ('0', '->bf').
    """

    def __init__(self, prog):
        self.prog = prog
        self.info = {}
        for name, fn in prog.funcs.items():
            self.info[name] = FnInfo(fn)
        self.exposed = {f: set() for f in self.info}
        self.sets = {f: set() for f in self.info}
        self.violations = {}
        self.loopfacts = {}
        self.outside = {}
        self._fix()

    def _fix(self):
        changed = True
        n = 0
        while changed:
            changed = False
            n += 1
            for f in self.info:
                exp, sets, viol, lf = self.analyse(f)
                if exp != self.exposed[f] or sets != self.sets[f]:
                    self.exposed[f] = exp
                    self.sets[f] = sets
                    changed = True
                self.violations[f] = viol
                self.loopfacts[f] = lf
            if n > 12:
                break

    # -- events of one CFG node ------------------------------------------
    def events(self, info, node):
        """
        Ordered list of ('use', path, ast), ('set', path, rhs names, ast).
        """
        out = []
        self._ev(info, node, out)
        return out

    def _ev(self, info, n, out):
        if n is None:
            return
        k = n.k
        if k == 'BinaryOperator' and n.op == '=' \
           and n.c[0].k == 'MemberExpr' and n.c[0].name == 'val':
            p = info.path(n.c[0].c[0])
            r = n.c[1]
            reads = [x for x in r.walk()
                     if x.k == 'MemberExpr' and x.name in ('val0', 'val')]
            if p is not None and any(info.path(x.c[0]) == p
                                     and x.name == 'val0' for x in reads):
                out.append(('set', p, names_in(r), n))
                return
            if p is not None:
                self._ev(info, r, out)
                out.append(('set', p, {'*'}, n))
                return
        if k == 'CompoundAssignOperator' and n.c[0].k == 'MemberExpr' \
           and n.c[0].name == 'val' and n.op in ('+=', '-='):
            p = info.path(n.c[0].c[0])
            out.append(('next', p, names_in(n.c[1]), n))
            return
        if k == 'BinaryOperator' and n.op == '+':
            # FMF_PtrCell(): F->val0 + idx * F->cellSize
            l, r = n.c
            if l.k == 'MemberExpr' and l.name == 'val0' \
               and is_field_type(l.c[0].type):
                p = info.path(l.c[0])
                if p is not None and any(
                        x.k == 'MemberExpr' and x.name == 'cellSize'
                        for x in r.walk()):
                    idx = set()
                    for x in r.walk():
                        if x.k == 'DeclRefExpr' and '*' not in (x.type or ''):
                            idx.add(x.name)
                    out.append(('cellptr', p, idx, n))
                    return
        if k == 'ConditionalOperator':
            # FMF_PtrCellX1(): nCell > 1 ? cell pointer : val0
            sub = []
            for x in n.c[1:]:
                self._ev(info, x, sub)
            ptrs = {e[1] for e in sub if e[0] == 'cellptr'}
            guards = {info.path(x.c[0]) for x in n.c[0].walk()
                      if x.k == 'MemberExpr' and x.name == 'nCell'}
            for e in sub:
                if e[0] == 'first' and e[1] in ptrs and e[1] in guards:
                    continue
                out.append(e)
            return
        if k == 'MemberExpr' and n.name == 'val0' \
           and is_field_type(n.c[0].type):
            out.append(('first', info.path(n.c[0]), n, None))
            return
        if k == 'ArraySubscriptExpr' and n.c[0].k == 'MemberExpr' \
           and n.c[0].name == 'val' and is_field_type(n.c[0].c[0].type) \
           and self._gathers(info, n.c[1]):
            # nodal array addressed by a connectivity: not a cell datum.
            self._ev(info, n.c[1], out)
            return
        if k == 'MemberExpr' and n.name == 'val' \
           and is_field_type(n.c[0].type):
            p = info.path(n.c[0])
            self._ev(info, n.c[0], out)
            out.append(('use', p, n, None))
            return
        if k == 'CallExpr' and n.c[0].k == 'DeclRefExpr':
            g = n.c[0].name
            for a in n.c[1:]:
                self._ev(info, a, out)
            if g in self.exposed:
                for (i, suffix) in sorted(self.exposed[g]):
                    if i + 1 < len(n.c):
                        p = info.path(n.c[1 + i])
                        if p is not None:
                            out.append(('use', p + suffix, n, g))
                for (i, suffix, idx) in sorted(self.sets[g], key=str):
                    if i + 1 < len(n.c):
                        p = info.path(n.c[1 + i])
                        if p is None:
                            continue
                        if idx == '*':
                            nm = {'*'}
                        elif idx == 'const':
                            nm = set()
                        else:
                            nm = names_in(n.c[1 + idx])
                        out.append(('set', p + suffix, nm, n))
            return
        for x in n.c:
            self._ev(info, x, out)

    @staticmethod
    def _gathers(info, idx):
        """Is the index computed from an element of an integer array?"""
        def has_int_elem(n):
            for x in n.walk():
                if x.k == 'ArraySubscriptExpr' \
                   and x.c[0].k in ('DeclRefExpr', 'MemberExpr') \
                   and 'int' in (x.c[0].type or ''):
                    return True
            return False
        if has_int_elem(idx):
            return True
        names = names_in(idx)
        for lhs, rhs, _ in assigned(info.fn.body):
            if lhs.k == 'DeclRefExpr' and lhs.name in names \
               and rhs is not None and has_int_elem(rhs):
                return True
        return False

    # -- cell loops -------------------------------------------------------
    def derived(self, info, body):
        """Variables of a loop: induction ones and derived from them."""
        cfg = info.cfg
        inner = set()
        for h, b in info.loops.items():
            if b < body:
                inner |= b
        ind = set()
        assigns = []
        for i in body:
            b = cfg.blks[i]
            if b.node is None or b.kind == 'loop':
                continue
            for lhs, rhs, node in assigned(b.node):
                if lhs.k != 'DeclRefExpr':
                    continue
                if rhs is None or lhs.name in names_in(rhs):
                    if i not in inner:
                        ind.add(lhs.name)
                else:
                    assigns.append((lhs.name, names_in(rhs), i in inner))
            if b.node.k == 'VarDecl' and b.node.c:
                assigns.append((b.node.name, names_in(b.node.c[0]),
                                i in inner))
            if b.node.k == 'CallExpr' or True:
                # out-parameters: f(&x)
                for c in b.node.walk():
                    if c.k == 'CallExpr':
                        for a in c.c[1:]:
                            if a.k == 'UnaryOperator' and a.op == '&' \
                               and a.c[0].k == 'DeclRefExpr':
                                assigns.append((a.c[0].name, {'*call'},
                                                i in inner))
        der = set(ind)
        ch = True
        while ch:
            ch = False
            for name, src, _ in assigns:
                if name not in der and src & der:
                    der.add(name)
                    ch = True
        return ind, der

    @staticmethod
    def _bound_ncell(node):
        """The `X->nCell` text if the loop condition is bounded by it."""
        if node is None or node.k not in ('ForStmt', 'WhileStmt'):
            return None
        cond = node.c[2] if node.k == 'ForStmt' else node.c[-2]
        if cond is None:
            return None
        for x in cond.walk():
            if x.k == 'BinaryOperator' and x.op in ('<', '<=', '!='):
                r = x.c[1]
                if r.k == 'MemberExpr' and r.name == 'nCell':
                    return render(r)
                if any(y.k == 'MemberExpr' and y.name == 'nCell'
                       for y in r.walk()) \
                   and not any(y.k == 'MemberExpr' and y.name in
                               ('nLev', 'nRow', 'nCol') for y in r.walk()):
                    return render(r)
        return None

    def analyse(self, f):
        info = self.info[f]
        cfg = info.cfg
        evs = {}
        for b in cfg.blks:
            if b.kind in ('stmt', 'cond', 'return', 'switch') \
               and b.node is not None:
                evs[b.i] = self.events(info, b.node)
            else:
                evs[b.i] = []
        # cell loops
        cell = {}
        for h, body in info.loops.items():
            ind, der = self.derived(info, body)
            hit = False
            inner = set()
            for h2, b2 in info.loops.items():
                if b2 < body:
                    inner |= b2
            for i in body - inner:
                for e in evs[i]:
                    if e[0] == 'set' and info.rooted(e[1]) \
                       and (e[2] & der or '*' in e[2]):
                        if e[2] & der:
                            hit = True
                    if e[0] == 'next' and info.rooted(e[1]):
                        hit = True
                    if e[0] == 'cellptr' and info.rooted(e[1]) \
                       and e[2] & der:
                        hit = True
            if self._bound_ncell(cfg.blks[h].node) is not None:
                hit = True
            n = cfg.blks[h].node
            if hit:
                cell[h] = (body, ind, der)
        incell = set()
        for body, _, _ in cell.values():
            incell |= body
        # forward must analysis: positioned paths
        TOP = None
        state = {cfg.entry.i: frozenset()}
        work = [cfg.entry]
        viol = {}
        exposed = set()
        outside = []

        def loop_of(i):
            best = None
            for h, (body, ind, der) in cell.items():
                if i in body and (best is None or len(body) < len(best[0])):
                    best = (body, ind, der, h)
            return best

        def transfer(b, s, record):
            s = set(s)
            lo = loop_of(b.i)
            for e in evs[b.i]:
                if e[0] == 'use':
                    p = e[1]
                    r = info.rooted(p)
                    if r is None:
                        continue
                    if p not in s and '!' + p not in s:
                        if lo is not None:
                            if record:
                                viol.setdefault(p, []).append(
                                    (e[2], e[3]))
                        else:
                            if record:
                                exposed.add((info.params[r][0],
                                             p[len(r):]))
                                outside.append((p, b.i, e[2], e[3]))
                elif e[0] == 'cellptr':
                    if record and lo is not None and info.rooted(e[1]) \
                       and not e[2] & lo[2]:
                        viol.setdefault(e[1], []).append((e[3], None))
                elif e[0] == 'first':
                    if record and lo is not None and info.rooted(e[1]) \
                       and e[1] not in s:
                        viol.setdefault(e[1], []).append((e[2], None))
                elif e[0] in ('set', 'next'):
                    p = e[1]
                    if p is None:
                        continue
                    if e[0] == 'next':
                        s.discard(p)
                        s.add('N:' + p)
                    elif lo is None or '*' in e[2] or e[2] & lo[2]:
                        s.add(p)
                    else:
                        s.discard(p)
            return frozenset(s)

        def edge(b, lab, s, t):
            if t.i in cell:
                if b.i in cell[t.i][0]:
                    # back edge: only positions advanced for the next
                    # iteration survive.
                    s = frozenset(p[2:] for p in s if p[:2] == 'N:')
                else:
                    s = frozenset(p for p in s if p[:2] != 'N:')
            # nCell > 1 false edge (FMF_SetCellX1) -> a single-cell field is
            # always positioned.
            if b.kind == 'cond' and b.node.k == 'BinaryOperator':
                n = b.node
                l, r = n.c
                if l.k == 'MemberExpr' and l.name == 'nCell' \
                   and r.k == 'IntegerLiteral':
                    p = info.path(l.c[0])
                    one = (n.op, str(r.val), lab) in (
                        ('>', '1', False), ('==', '1', True),
                        ('!=', '1', False), ('<=', '1', True),
                        ('<', '2', True), ('>=', '2', False))
                    if one and p is not None:
                        return s | {p}
                # pointer null test: the field is absent on that edge.
                if is_field_type(l.type) and (
                        r.k == 'IntegerLiteral' and str(r.val) == '0'
                        or r.k == 'GNUNullExpr'):
                    p = info.path(l)
                    null = (n.op, lab) in (('>', False), ('!=', False),
                                           ('==', True), ('<=', True))
                    if null and p is not None:
                        return s | {p}
            elif b.kind == 'cond' and is_field_type(b.node.type) \
                    and lab is False:
                p = info.path(b.node)
                if p is not None:
                    return s | {p}
            return s

        seen = True
        while work:
            b = work.pop()
            s = transfer(b, state[b.i], False)
            for lab, t in b.succ:
                s2 = edge(b, lab, s, t)
                if t.i not in state:
                    state[t.i] = s2
                    work.append(t)
                else:
                    m = state[t.i] & s2
                    if m != state[t.i]:
                        state[t.i] = m
                        work.append(t)
        for b in cfg.blks:
            if b.i in state:
                transfer(b, state[b.i], True)
        self.outside[f] = outside
        # must-set summary at exit (for helpers that position fields)
        sets = set()
        ex = state.get(cfg.exit.i, frozenset())
        allsets = {}
        for i, es in evs.items():
            for e in es:
                if e[0] in ('set', 'next') and info.rooted(e[1]):
                    allsets.setdefault(e[1], []).append(e)
        if not cell:
            for p, es in allsets.items():
                if p not in ex:
                    continue
                r = info.rooted(p)
                nm = set()
                for e in es:
                    nm |= e[2] if e[0] == 'set' else {'*'}
                idx = [info.params[x][0] for x in nm if x in info.params
                       and not is_field_type(info.params[x][1])
                       and '*' not in info.params[x][1]]
                if '*' in nm:
                    sets.add((info.params[r][0], p[len(r):], '*'))
                elif idx:
                    sets.add((info.params[r][0], p[len(r):], idx[0]))
                else:
                    sets.add((info.params[r][0], p[len(r):], 'const'))
        return exposed, sets, viol, cell
