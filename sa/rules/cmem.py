"""N01: native temporaries are released exactly once on every path."""
from ..cfe import Program, CFG, render, calls, assigned
from ..core import AnalysisBroken
from . import pyxmem

EXPLANATION = (
    'Clang AST of every native source, one CFG per function; path-sensitive'
    ' typestate {null, allocated, freed, uninitialised, escaped} of every'
    ' locally allocated object, correlated with the branch conditions that'
    ' guard allocation and release; helper functions are summarised (which'
    ' pointer parameters they allocate or release). Reported: an exit with an'
    ' allocated unescaped object, allocation over a live object, second'
    ' release, use after release, release of an uninitialised pointer. The'
    ' same typestate runs over the Cython functions (with their raise paths),'
    ' and every struct field that receives allocated memory must be released'
    ' by the destructor of its struct on all paths.')
RULE = ('one obligation per (function, allocated object): all CFG paths from'
        ' entry to every exit; plus one per owning struct field')
ASSUMPTIONS = [
    'releasing a null pointer is a no-op (the release primitives test it,'
    ' which is checked)',
    'a failing allocation aborts the routine (reported through the error'
    ' flag) before the pointer is used',
    'memory stored into a caller-visible structure is owned by it',
]

OUT_ALLOC = {'fmf_createAlloc', 'fmf_createAllocInit', 'fmf_createAllocCopy'}
RET_ALLOC = {'mem_alloc_mem', 'pyalloc', 'malloc', 'calloc', 'PyMem_Malloc'}
OBJ_ALLOC = {'fmf_alloc', 'conn_alloc'}
OUT_FREE = {'fmf_freeDestroy'}
PTR_FREE = {'mem_free_mem', 'pyfree', 'free', 'PyMem_Free'}
OBJ_FREE = {'fmf_free', 'conn_free'}
PRIMITIVES = (OUT_ALLOC | RET_ALLOC | OBJ_ALLOC | OUT_FREE | PTR_FREE
              | OBJ_FREE | {'mem_realloc_mem', 'conn_resize',
                            'mem_list_new', 'mem_list_remove',
                            'mem_check_ptr'})
MAXSTATES = 4000


def is_null(n):
    return n is not None and n.k == 'IntegerLiteral' and str(n.val) == '0' \
        or (n is not None and n.k == 'GNUNullExpr')


def addr_of(n):
    """Variable text X if n is &X, else None."""
    if n.k == 'UnaryOperator' and n.op == '&' and \
       n.c[0].k in ('DeclRefExpr',):
        return n.c[0].name
    return None


def deref_name(n):
    if n.k == 'UnaryOperator' and n.op == '*' and n.c[0].k == 'DeclRefExpr':
        return '*' + n.c[0].name
    return None


class FnMem:
    """Typestate of one function.  `summ` maps callee -> {argidx: effect}."""

    def __init__(self, fn, summ, start=None):
        self.fn = fn
        self.summ = summ
        self.cfg = CFG(fn)
        self.start = start or {}
        self.pparams = {p[0] for p in fn.params
                        if p[1] and p[1].count('*') >= 2}
        self.params = {p[0] for p in fn.params}
        self.locals = {}
        for n in fn.body.walk():
            if n.k == 'VarDecl' and n.storage != 'static':
                self.locals[n.name] = n
        self.domains = self._domains()
        self.tracked = self._tracked()
        self.ctl = self._controlling()
        self.reports = {}

    def _domains(self):
        """
        Integer parameters never written and compared to literals only: a flag
        compared to 0/1 only takes these two values; otherwise the literals
        and one other value are distinguished.
        """
        written = set()
        for lhs, rhs, n in assigned(self.fn.body):
            if lhs.k == 'DeclRefExpr':
                written.add(lhs.name)
        dom = {}
        for name, typ, _ in self.fn.params:
            if name in written or '*' in (typ or '') \
               or 'int' not in (typ or ''):
                continue
            lits = set()
            for n in self.fn.body.walk():
                if n.k == 'BinaryOperator' and n.op in ('==', '!=') \
                   and n.c[0].k == 'DeclRefExpr' and n.c[0].name == name \
                   and n.c[1].k == 'IntegerLiteral':
                    lits.add(int(n.c[1].val))
            if lits <= {0, 1}:
                dom[name] = frozenset((0, 1))
            else:
                dom[name] = frozenset(lits | {0, 'other'})
        return dom

    def flag_test(self, n, lab):
        """(name, allowed values) if n tests a flag parameter."""
        if n.k == 'DeclRefExpr' and n.name in self.domains:
            dom = self.domains[n.name]
            if lab is True:
                return n.name, dom - {0}
            return n.name, dom & {0}
        if n.k == 'BinaryOperator' and n.op in ('==', '!=') \
           and n.c[0].k == 'DeclRefExpr' and n.c[0].name in self.domains \
           and n.c[1].k == 'IntegerLiteral':
            dom = self.domains[n.c[0].name]
            v = int(n.c[1].val)
            if (n.op == '==') == (lab is True):
                return n.c[0].name, dom & {v}
            return n.c[0].name, dom - {v}
        return None

    # which resources ------------------------------------------------------
    def events_of(self, n):
        """[(kind, key, node)] in evaluation order (args before call)."""
        out = []
        self._ev(n, out)
        return out

    def _ev(self, n, out, lhs=False):
        if n is None:
            return
        k = n.k
        if k == 'BinaryOperator' and n.op == '=':
            l, r = n.c
            rc = self._alloc_call(r)
            name = None
            if l.k == 'DeclRefExpr' and l.name in self.locals:
                name = l.name
            elif deref_name(l) and l.c[0].name in self.pparams:
                name = deref_name(l)
            if name is None:
                # a chain a = b = alloc(), or store to memory
                self._ev(r, out)
                self._ev(l, out)
                if r.k == 'DeclRefExpr':
                    out.append(('escape', r.name, n))
                return
            if rc is not None:
                for a in rc.c[1:]:
                    self._ev(a, out)
                out.append(('alloc', name, n))
            else:
                re = self._realloc(r)
                if re is not None and render(re.c[1]) == name:
                    out.append(('use', name, n))
                    return
                self._ev(r, out)
                if is_null(r):
                    out.append(('null', name, n))
                elif r.k == 'DeclRefExpr' and r.name in self.locals:
                    out.append(('copy', (name, r.name), n))
                elif r.k == 'DeclRefExpr' and r.name == name:
                    pass
                else:
                    out.append(('other', name, n))
            return
        if k == 'VarDecl':
            if n.c and n.has_init:
                r = n.c[0]
                rc = self._alloc_call(r)
                if rc is not None:
                    for a in rc.c[1:]:
                        self._ev(a, out)
                    out.append(('alloc', n.name, n))
                    return
                self._ev(r, out)
                if is_null(r):
                    out.append(('null', n.name, n))
                elif r.k == 'DeclRefExpr' and r.name in self.locals:
                    out.append(('copy', (n.name, r.name), n))
                else:
                    out.append(('other', n.name, n))
            else:
                out.append(('uninit', n.name, n))
            return
        if k == 'CallExpr' and n.c[0].k == 'DeclRefExpr':
            f = n.c[0].name
            effects = {}
            if f in OUT_ALLOC:
                effects[0] = 'allocout'
            elif f in OUT_FREE:
                effects[0] = 'freeout'
            elif f in PTR_FREE:
                effects[0] = 'free'
            elif f in OBJ_ALLOC:
                effects[0] = 'allocobj'
            elif f in OBJ_FREE:
                effects[0] = 'freeobj'
            else:
                effects = self.summ.get(f, {})
            for i, a in enumerate(n.c[1:]):
                e = effects.get(i)
                if e is None:
                    self._ev(a, out)
            for i, a in enumerate(n.c[1:]):
                e = effects.get(i)
                if e in ('allocout', 'freeout'):
                    key = addr_of(a)
                    if key is None and a.k == 'DeclRefExpr' \
                       and a.name in self.pparams:
                        key = '*' + a.name
                    if key is None:
                        key = render(a)
                    out.append(('alloc' if e == 'allocout' else 'free', key,
                                n))
                elif e == 'free':
                    key = a.name if a.k == 'DeclRefExpr' else \
                        (deref_name(a) or render(a))
                    out.append(('free', key, n))
                elif e in ('allocobj', 'freeobj'):
                    key = addr_of(a) or render(a)
                    out.append(('alloc' if e == 'allocobj' else 'free',
                                key + '#', n))
            return
        if k == 'ReturnStmt':
            for x in n.c:
                self._ev(x, out)
                if x is not None and x.k == 'DeclRefExpr':
                    out.append(('escape', x.name, n))
            return
        if k == 'DeclRefExpr':
            out.append(('use', n.name, n))
            return
        if k == 'UnaryOperator' and n.op == '&' and n.c[0].k == 'DeclRefExpr':
            out.append(('addr', n.c[0].name, n))
            return
        for x in n.c:
            self._ev(x, out)

    def _alloc_call(self, r):
        if r.k == 'CallExpr' and r.c[0].k == 'DeclRefExpr':
            if r.c[0].name in RET_ALLOC \
               or self.summ.get(r.c[0].name, {}).get('ret') == 'alloc':
                return r
        return None

    def _realloc(self, r):
        if r.k == 'CallExpr' and r.c[0].k == 'DeclRefExpr' \
           and r.c[0].name == 'mem_realloc_mem':
            return r
        return None

    def _tracked(self):
        keys = set(self.start)
        for b in self.cfg.blks:
            if b.node is None or b.kind == 'loop':
                continue
            for e in self.events_of(b.node):
                if e[0] not in ('alloc', 'free'):
                    continue
                key = e[1]
                root = key.rstrip('#').lstrip('*')
                if key.endswith('#'):
                    n = self.locals.get(root)
                    # contents of a local object (array-of-one or struct)
                    if n is not None and '*' not in (n.type or ''):
                        keys.add(key)
                elif key.startswith('*'):
                    if root in self.pparams:
                        keys.add(key)
                elif root in self.locals:
                    keys.add(key)
        return keys

    # which conditions matter ---------------------------------------------
    def _controlling(self):
        """Texts of conditions guarding an allocation or release."""
        out = set()

        def touches(n):
            return any(e[0] in ('alloc', 'free') and e[1] in self.tracked
                       for e in self.events_of(n))

        def texts(n):
            if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
                return texts(n.c[0]) | texts(n.c[1])
            if n.k == 'UnaryOperator' and n.op == '!':
                return texts(n.c[0])
            return {render(n)}

        for n in self.fn.body.walk():
            if n.k == 'IfStmt':
                if any(x is not None and touches_tree(self, x)
                       for x in n.c[1:]):
                    out |= texts(n.c[0])
            elif n.k == 'SwitchStmt':
                if touches_tree(self, n.c[-1]):
                    out.add('switch ' + render(n.c[-2]))
        # equality tests of the same lhs
        return out

    # the walk --------------------------------------------------------------
    def run(self):
        init = {k: 'none' for k in self.tracked}
        for key in self.tracked:
            root = key.rstrip('#').lstrip('*')
            if key.startswith('*'):
                init[key] = 'null'
        init.update(self.start)
        st0 = (tuple(sorted(init.items())), ())
        seen = {}
        work = [(self.cfg.entry, st0, ())]
        self.exits = set()
        nst = 0
        while work:
            b, st, path = work.pop()
            if st in seen.setdefault(b.i, set()):
                continue
            seen[b.i].add(st)
            nst += 1
            if nst > 200000:
                raise AnalysisBroken('%s: too many states' % self.fn.name)
            d = dict(st[0])
            facts = dict(st[1])
            if b.kind == 'exit':
                self.exits.add(st[0])
                self.leaks(d, path)
                continue
            if b.node is not None and b.kind != 'loop':
                self.apply(b, d, facts)
            for lab, t in b.succ:
                d2, f2 = d, facts
                if b.kind == 'cond':
                    r = self.refine(b.node, lab, d, facts)
                    if r is None:
                        continue
                    d2, f2 = r
                elif b.kind == 'switch':
                    txt = 'switch ' + render(b.node)
                    if txt in self.ctl and isinstance(lab, tuple):
                        have = facts.get(txt)
                        if have is not None and have != lab:
                            continue
                        f2 = dict(facts)
                        f2[txt] = lab
                ret = path
                if b.kind == 'return':
                    ret = (b.node.line,)
                work.append((t, (tuple(sorted(d2.items())),
                                 tuple(sorted(f2.items(), key=repr))), ret))
        self.nstates = nst
        return self

    def report(self, kind, key, node, text):
        self.reports.setdefault((kind, key), (node, text))

    def leaks(self, d, path):
        for key, s in d.items():
            if s == 'alloc' and not key.startswith('*') \
               and key not in self.start:
                where = (' (return at line %d)' % path[0]) if path else ''
                self.report('leak', key, self.fn.node,
                            '%s is still allocated on a path to an exit%s'
                            % (key.rstrip('#'), where))

    def apply(self, b, d, facts):
        n = b.node
        for kind, key, node in self.events_of(n):
            if kind == 'copy':
                a, c = key
                if c in d and d[c] == 'alloc':
                    d[c] = 'escaped'
                if a in d:
                    if d[a] == 'alloc':
                        self.report('overwrite', a, node,
                                    'the only pointer to the live object %s'
                                    ' is overwritten' % a)
                    d[a] = 'escaped'
                continue
            cont = key + '#'
            if kind in ('use', 'addr') and d.get(cont) == 'none':
                d[cont] = 'null'     # initialised in some way
            if kind == 'use' and d.get(key) == 'freed':
                self.report('use-after-free', key, node,
                            '%s is used after it was released' % key)
            if key not in d:
                continue
            s = d[key]
            if kind == 'alloc':
                if s == 'alloc':
                    self.report('realloc', key, node,
                                '%s is allocated again while it is live'
                                % key.rstrip('#'))
                d[key] = 'alloc'
            elif kind == 'free':
                if s == 'freed':
                    self.report('double-free', key, node,
                                '%s is released twice' % key.rstrip('#'))
                elif s in ('uninit', 'none') \
                        and key.rstrip('#') in self.locals:
                    self.report('free-uninit', key, node,
                                '%s is released without being set'
                                % key.rstrip('#'))
                d[key] = 'freed'
            elif kind == 'null':
                if s == 'alloc':
                    self.report('overwrite', key, node,
                                'the only pointer to the live object %s is'
                                ' overwritten' % key)
                d[key] = 'null'
            elif kind == 'other':
                if s == 'alloc':
                    self.report('overwrite', key, node,
                                'the only pointer to the live object %s is'
                                ' overwritten' % key)
                d[key] = 'escaped'
            elif kind == 'uninit':
                if s == 'alloc':
                    self.report('leak', key, node,
                                '%s is still allocated at its scope end'
                                % key)
                d[key] = 'uninit'
            elif kind == 'escape':
                if s == 'alloc':
                    d[key] = 'escaped'
            elif kind == 'addr':
                # address passed to an unsummarised callee
                if s in ('uninit', 'null', 'none'):
                    d[key] = 'escaped'
        # kill facts
        names = set()
        for lhs, rhs, x in assigned(n):
            names.add(render(lhs))
            if lhs.k == 'DeclRefExpr':
                names.add(lhs.name)
        if n.k == 'VarDecl':
            names.add(n.name)
        for x in n.walk():
            if x.k == 'UnaryOperator' and x.op == '&' and x.c[0].k \
               == 'DeclRefExpr':
                names.add(x.c[0].name)
        if names:
            for t in list(facts):
                if any(word_in(nm, t) for nm in names):
                    del facts[t]

    def refine(self, n, lab, d, facts):
        # pointer tests
        name, pos = None, None
        if n.k == 'DeclRefExpr':
            name, pos = n.name, True
        elif deref_name(n):
            name, pos = deref_name(n), True
        elif n.k == 'BinaryOperator' and n.op in ('==', '!='):
            for a, c in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                if is_null(c) and (a.k == 'DeclRefExpr' or deref_name(a)):
                    name = a.name if a.k == 'DeclRefExpr' else deref_name(a)
                    pos = n.op == '!='
        if name is not None and name in d:
            nonnull = (lab is True) == pos
            s = d[name]
            if s == 'alloc' and not nonnull:
                return None
            if s == 'null' and nonnull:
                return None
            return d, facts
        txt = render(n)
        ft = self.flag_test(n, lab) if txt in self.ctl else None
        if ft is not None:
            key = 'flag ' + ft[0]
            have = frozenset(facts.get(key, self.domains[ft[0]])) & ft[1]
            if not have:
                return None
            f2 = dict(facts)
            f2[key] = tuple(sorted(have, key=repr))
            return d, f2
        if txt in self.ctl:
            for t, lb in self.implied(n, lab):
                have = facts.get(t)
                if have is not None and have != lb:
                    return None
            # x == c1 true excludes x == c2
            if n.k == 'BinaryOperator' and n.op == '==' and lab is True:
                lhs = render(n.c[0])
                for t, v in facts.items():
                    if v is True and t.startswith('(%s == ' % lhs) \
                       and t != txt and n.c[1].k == 'IntegerLiteral':
                        return None
            f2 = dict(facts)
            f2[txt] = lab
            return d, f2
        return d, facts

    @staticmethod
    def implied(n, lab):
        out = [(render(n), lab)]
        if n.k == 'BinaryOperator':
            inv = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=',
                   '<=': '>'}
            if n.op in inv:
                out.append(('(%s %s %s)' % (render(n.c[0]), inv[n.op],
                                            render(n.c[1])), not lab))
                if n.op in ('!=', '==') and is_null(n.c[1]):
                    out.append((render(n.c[0]),
                                lab if n.op == '!=' else not lab))
        return out


def word_in(w, t):
    import re
    return re.search(r'(?<![\w>.])%s(?!\w)' % re.escape(w), t) is not None


def touches_tree(fm, n):
    for x in n.walk():
        if x.k == 'CallExpr' or (x.k == 'BinaryOperator' and x.op == '=') \
           or x.k == 'VarDecl':
            for e in fm.events_of(x):
                if e[0] in ('alloc', 'free') and e[1] in fm.tracked:
                    return True
        if x.k in ('GotoStmt', 'ReturnStmt'):
            pass
    return False


def direct_summary(fn, summ):
    """Effects of fn on its pointer parameters: {idx: effect, 'ret': ..}."""
    out = {}
    probe = FnMem(fn, summ)
    evs = []
    for b in probe.cfg.blks:
        if b.node is not None and b.kind != 'loop':
            evs += probe.events_of(b.node)
    for i, (name, typ, _) in enumerate(fn.params):
        stars = (typ or '').count('*')
        if stars >= 2:
            key = '*' + name
            kinds = {e[0] for e in evs if e[1] == key
                     and e[0] in ('alloc', 'free')}
            if kinds == {'alloc'}:
                out[i] = 'allocout'
            elif kinds == {'free'}:
                out[i] = 'freeout'
        elif stars == 1:
            for key, eff in ((name, 'free'), (name + '#', 'freeobj')):
                if any(e[0] == 'free' and e[1] == key for e in evs):
                    out[i] = eff
            if any(e[0] == 'alloc' and e[1] == name + '#' for e in evs):
                out[i] = 'allocobj'
    rets = [n for n in fn.body.walk() if n.k == 'ReturnStmt' and n.c]
    alloced = {e[1] for e in evs if e[0] == 'alloc'}
    if rets and '*' in fn.rtype:
        names = {r.c[0].name for r in rets if r.c[0] is not None
                 and r.c[0].k == 'DeclRefExpr'}
        direct = any(r.c[0] is not None and probe._alloc_call(r.c[0])
                     for r in rets)
        if direct or (names & alloced):
            out['ret'] = 'alloc'
    return out


def run(ctx):
    prog = Program(ctx.repo)
    summ = {}
    allf = [(rel, fn) for rel in sorted(prog.by_file)
            for fn in prog.by_file[rel].values()]
    for _ in range(4):
        changed = False
        for rel, fn in allf:
            if fn.name in PRIMITIVES:
                continue
            s = direct_summary(fn, summ)
            if s and summ.get(fn.name) != s:
                summ[fn.name] = s
                changed = True
        if not changed:
            break
    seen = set()
    for rel, fn in allf:
        if (fn.file, fn.name) in seen or fn.name in PRIMITIVES:
            continue
        seen.add((fn.file, fn.name))
        ctx.count('functions')
        fm = FnMem(fn, summ)
        if not fm.tracked:
            continue
        fm.run()
        ctx.count('allocating_functions')
        ctx.count('tracked_objects', len(fm.tracked))
        ctx.count('path_states', fm.nstates)
        ctx.sample('%s: %s' % (fn.name, ', '.join(sorted(fm.tracked))))
        for (kind, key), (node, text) in sorted(fm.reports.items()):
            ctx.violation('mem.%s:%s:%s' % (kind, fn.name, key), text,
                          fn.where(node))
    owners(ctx, prog)
    resets(ctx, prog)
    primitives(ctx, prog)
    pyxmem.run(ctx, prog)
    ctx.floor('allocating_functions', 60)
    ctx.floor('tracked_objects', 180)
    ctx.floor('owned_fields', 4)


# -- struct owners -----------------------------------------------------------

def owners(ctx, prog):
    """Every field that receives memory is released by some C function."""
    recv = {}
    freed = set()
    for rel in sorted(prog.by_file):
        for fn in prog.by_file[rel].values():
            if fn.name in ('mem_list_new',):
                continue
            allocv = set()
            for lhs, rhs, n in assigned(fn.body):
                if rhs is None:
                    continue
                r = rhs
                chain = {lhs.name}
                while r.k == 'BinaryOperator' and r.op == '=':
                    chain.add(r.c[0].name)
                    r = r.c[1]
                isal = r.k == 'CallExpr' and r.c[0].k == 'DeclRefExpr' \
                    and r.c[0].name in RET_ALLOC
                if isal and lhs.k == 'DeclRefExpr':
                    allocv.add(lhs.name)
                if lhs.k == 'MemberExpr' and (
                        isal or (r.k == 'DeclRefExpr' and r.name in allocv)):
                    recv.setdefault(lhs.name, (fn, n, set()))[2].update(chain)
            for name, c in calls(fn.body):
                if name in PTR_FREE and len(c.c) > 1 \
                   and c.c[1].k == 'MemberExpr':
                    freed.add(c.c[1].name)
    freed |= pyxmem.freed_fields(ctx.repo)
    for field, (fn, n, chain) in sorted(recv.items()):
        ctx.count('owned_fields')
        if field not in freed and not chain & freed \
           and not any(field in c[2] and c[2] & freed
                       for c in recv.values()):
            ctx.violation('mem.owner:%s' % field,
                          'memory stored in field %s (by %s) is never'
                          ' released' % (field, fn.name), fn.where(n))


# function -> list of (what must be released, allowed guard)
DESTRUCTORS = {
    'conn_free': ['conn->indices', 'conn->offsets'],
    'fmf_free': ['obj->val0'],
    'fmf_freeDestroy': ['(*p_obj)'],
    'mesh_free': None,
}


def must_call(fn, wanted):
    """
    True if every entry-exit path, except those where a null test of a
    parameter failed or the pretend branch was taken, passes `wanted(node)`.
    """
    cfg = CFG(fn)
    seen = set()
    work = [cfg.entry]
    while work:
        b = work.pop()
        if b.i in seen:
            continue
        seen.add(b.i)
        if b.kind == 'exit':
            return False
        if b.node is not None and b.kind != 'loop' and wanted(b.node):
            continue
        for lab, t in b.succ:
            if b.kind == 'cond' and null_edge(b.node, lab):
                continue
            if b.kind == 'cond' and b.node.k == 'BinaryOperator' \
               and render(b.node.c[0]).endswith('nAlloc') \
               and ((b.node.op == '>=' and lab is False)
                    or (b.node.op == '<' and lab is True)):
                continue
            work.append(t)
    return True


def null_edge(n, lab):
    if n.k == 'BinaryOperator' and n.op in ('==', '!=') and is_null(n.c[1]):
        return (n.op == '==') == (lab is True)
    if n.k in ('DeclRefExpr', 'MemberExpr') or \
       (n.k == 'UnaryOperator' and n.op == '*'):
        if n.k == 'DeclRefExpr' and '*' not in (n.type or ''):
            return False
        return lab is False
    return False


# Destructors of a whole object: the object itself is not used again.
TERMINAL = {'mesh_free', 'fmf_free', 'mem_free_mem', 'mem_realloc_mem'}


def resets(ctx, prog):
    """A released field of a caller's structure does not keep dangling."""
    for rel in sorted(prog.by_file):
        for fn in sorted(prog.by_file[rel].values(), key=lambda f: f.name):
            if fn.name in TERMINAL or fn.file != rel:
                continue
            sites = []
            for name, c in calls(fn.body):
                if name in PTR_FREE and len(c.c) > 1 \
                   and c.c[1].k == 'MemberExpr':
                    sites.append((c, render(c.c[1])))
            if not sites:
                continue
            cfg = CFG(fn)
            for c, text in sites:
                ctx.count('field_releases')
                starts = [b for b in cfg.blks if b.node is not None
                          and b.kind != 'loop'
                          and any(x is c for x in b.node.walk())]
                work = [t for b in starts for _, t in b.succ]
                seen = set()
                bad = False
                while work:
                    b = work.pop()
                    if b.i in seen:
                        continue
                    seen.add(b.i)
                    if b.kind == 'exit':
                        bad = True
                        break
                    if b.node is not None and b.kind != 'loop' and any(
                            render(l) == text
                            for l, _, _ in assigned(b.node)):
                        continue
                    work.extend(t for _, t in b.succ)
                if bad:
                    ctx.violation(
                        'mem.dangling:%s:%s' % (fn.name, text),
                        '%s is released but keeps pointing to the released'
                        ' block when %s returns: the owner releases it again'
                        % (text, fn.name), fn.where(c))


def primitives(ctx, prog):
    for f, want in sorted(DESTRUCTORS.items()):
        fn = prog.func(f)
        if fn is None:
            raise AnalysisBroken('destructor %s not found' % f)
        if want is None:
            continue
        p = fn.params[0][0]
        for w in want:
            field = w.split('->')[-1] if '->' in w else None

            def hit(node):
                for name, c in calls(node):
                    if name in PTR_FREE and len(c.c) > 1:
                        a = c.c[1]
                        if field and a.k == 'MemberExpr' and a.name == field:
                            return True
                        if not field and a.k == 'UnaryOperator' \
                           and a.op == '*':
                            return True
                return False
            ctx.count('destructor_obligations')
            if not must_call(fn, hit):
                ctx.violation('mem.destructor:%s:%s' % (f, w),
                              '%s can return without releasing %s' % (f, w),
                              fn.where())
    # fmf_freeDestroy releases the contents too
    fn = prog.func('fmf_freeDestroy')
    ctx.count('destructor_obligations')
    if not must_call(fn, lambda n: any(nm == 'fmf_free' for nm, _ in
                                       calls(n))):
        ctx.violation('mem.destructor:fmf_freeDestroy:contents',
                      'fmf_freeDestroy can return without releasing the data',
                      fn.where())
    # mesh_free: all connectivities and orientation arrays
    fn = prog.func('mesh_free')
    for field in ('face_oris', 'edge_oris'):
        ctx.count('destructor_obligations')

        def hit2(node, field=field):
            return any(nm in PTR_FREE and c.c[1].k == 'MemberExpr'
                       and c.c[1].name == field for nm, c in calls(node))
        if not must_call(fn, hit2):
            ctx.violation('mem.destructor:mesh_free:%s' % field,
                          'mesh_free can return without releasing %s' % field,
                          fn.where())
    # mem_free_mem releases every valid block: an earlier error elsewhere must
    # not turn releases into leaks.
    fn = prog.func('mem_free_mem')
    ctx.count('destructor_obligations')
    cfg = CFG(fn)
    # The only branch allowed to skip PyMem_Free: p == 0, and the result of
    # the validity check of this very block.
    valid = set()
    for lhs, rhs, n in assigned(fn.body):
        if rhs is not None and any(nm == 'mem_check_ptr'
                                   for nm, _ in calls(rhs)) \
           and lhs.k == 'DeclRefExpr':
            valid.add(lhs.name)
    for n in fn.body.walk():
        if n.k == 'VarDecl' and n.c and n.has_init \
           and any(nm == 'mem_check_ptr' for nm, _ in calls(n.c[0])):
            valid.add(n.name)
    seen, work, bad = set(), [cfg.entry], False
    while work:
        b = work.pop()
        if b.i in seen:
            continue
        seen.add(b.i)
        if b.kind == 'exit':
            bad = True
            break
        if b.node is not None and any(nm == 'PyMem_Free'
                                      for nm, _ in calls(b.node)):
            continue
        for lab, t in b.succ:
            if b.kind == 'cond':
                if null_edge(b.node, lab):
                    continue
                names = {x.name for x in b.node.walk()
                         if x.k == 'DeclRefExpr'}
                if 'mem_check_ptr' in names or names & valid:
                    if lab is True:
                        continue
            work.append(t)
    if bad:
        ctx.violation('mem.primitive:mem_free_mem',
                      'mem_free_mem can skip the release of a valid block'
                      ' (for a reason other than the check of that block)',
                      fn.where())
