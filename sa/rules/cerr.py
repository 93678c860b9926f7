"""
Errors detected by native code: flag + exception are set together, the flag is
cleared and the exception propagates at every boundary.
"""
import ast

from .. import cfe, pyfe
from ..cfe import CFG, calls as ccalls
from ..pyflow import Flow
from ..pyxfe import X, calls as pcalls, xtext
from .pyxmem import program as pyx_program

EXPLANATION = (
    'Static check of the native error protocol: the C functions that report'
    ' errors set the Python exception and the global flag on every path; after'
    ' every call of C code that can report an error, each path of the Cython'
    ' function to its exit passes the routine that clears the flag and'
    ' propagates; status-returning wrappers are only reached from Python'
    ' methods whose handlers clear the flag and re-raise.')
RULE = (
    'may-fail = C functions reaching errput()/errset() in the call graph;'
    ' must-pass-through check_ccore_error() in Cython; try/except coverage of'
    ' RuntimeError and SystemError with errclear() and re-raise in Python')
ASSUMPTIONS = [
    'CPython raises SystemError when a C function returns normally with an'
    ' exception set',
    'geme_det3x3() and geme_invert3x3() fail only for matrices larger than'
    ' 3x3, which no caller builds',
    'memory allocation failures and damaged memory blocks are out of scope',
]

# Error sources that are not operation errors: allocation, printing and
# bookkeeping functions.
NOT_OP = {'mem_alloc_mem', 'mem_free_mem', 'mem_realloc_mem', 'mem_check_ptr',
          'fmf_pretend', 'fmfr_pretend', 'fmf_print', 'fmfr_print',
          'fmf_save', 'fmfc_save', 'fmfr_save', 'fmf_free',
          'fmf_freeDestroy', 'mem_checkIntegrity', 'mem_print',
          'mem_printSome', 'mem_freeGarbage', 'conn_resize',
          'print_context_lagrange', 'print_context_nurbs',
          'geme_det3x3', 'geme_invert3x3'}
# Calls through the basis function pointer.
POINTER = {'eval_basis', 'get_xi_dist'}

def may_fail(prog):
    bodies = {}
    for rel in prog.by_file:
        for fn in prog.by_file[rel].values():
            bodies.setdefault(fn.name, set()).update(
                n for n, _ in ccalls(fn.body))
    may = {'errput', 'errset'} | POINTER
    changed = True
    while changed:
        changed = False
        for f, b in bodies.items():
            if f not in may and f not in NOT_OP and b & may:
                may.add(f)
                changed = True
    return may


# -- C protocol functions ---------------------------------------------------
def _all_paths(fn, ok):
    """Does every entry-exit path satisfy a set of events?  -> missing sets"""
    cfg = CFG(fn)
    missing = set()
    seen = set()
    work = [(cfg.entry, frozenset())]
    while work:
        b, st = work.pop()
        if (b.i, st) in seen:
            continue
        seen.add((b.i, st))
        if b.node is not None and b.kind != 'loop':
            st = ok(b, st)
        if b.kind == 'exit':
            missing.add(st)
        for lab, t in b.succ:
            st2 = st
            if b.kind == 'cond':
                names = {n for n, _ in ccalls(b.node)}
                if 'PyErr_Occurred' in names and lab is False:
                    st2 = st | {'pyclear'}
            work.append((t, st2))
    return missing


def check_protocol(ctx, prog):
    for name in ('errput', 'errset', 'errclear'):
        fn = prog.funcs.get(name)
        if fn is None:
            from ..core import AnalysisBroken
            raise AnalysisBroken('no C function %s' % name)
        ctx.count('protocol_functions')

        def ok(b, st):
            names = {n for n, _ in ccalls(b.node)}
            if any(n.startswith('PyErr_Set') or n == 'PyErr_Format'
                   or n in ('errput', 'errset') for n in names):
                st = st | {'pyset'}
            if names & {'errput', 'errset'}:
                st = st | {'flag'}
            if 'PyErr_Clear' in names or 'PyErr_Print' in names:
                st = st | {'pyclear'}
            for lhs, rhs, x in cfe.assigned(b.node):
                if lhs.k == 'DeclRefExpr' and lhs.name == 'g_error':
                    if x.k == 'UnaryOperator' and x.op == '++':
                        st = (st | {'flag'}) - {'noflag'}
                    elif rhs is not None and rhs.k == 'IntegerLiteral':
                        st = (st | {'noflag'}) - {'flag'} \
                            if str(rhs.val) == '0' \
                            else (st | {'flag'}) - {'noflag'}
                    elif x.k == 'CompoundAssignOperator':
                        st = (st | {'flag'}) - {'noflag'}
            return st

        need = {'pyset', 'flag'} if name != 'errclear' \
            else {'pyclear', 'noflag'}
        for st in _all_paths(fn, ok):
            lack = need - st
            if lack:
                ctx.violation('err.protocol:%s' % name,
                              '%s() has a path that misses %s'
                              % (name, ', '.join(sorted(
                                  {'pyset': 'setting the Python exception',
                                   'flag': 'setting the error flag',
                                   'pyclear': 'clearing the Python exception',
                                   'noflag': 'clearing the error flag'}[x]
                                  for x in lack))), fn.where())


def flag_access(n):
    """Events of a statement: flag reads/writes and calls, in source order."""
    if n is None:
        return
    if n.k == 'CallExpr':
        for a in n.c[1:]:
            yield from flag_access(a)
        f = n.c[0]
        while f.k in ('ParenExpr', 'ImplicitCastExpr', 'UnaryOperator') \
                and f.c:
            f = f.c[0]
        yield 'call', f.name, n
        return
    if n.k == 'BinaryOperator' and n.op == '=' \
       and n.c[0].k == 'DeclRefExpr' and n.c[0].name == 'g_error':
        yield from flag_access(n.c[1])
        zero = n.c[1].k == 'IntegerLiteral' and str(n.c[1].val) == '0'
        yield ('clear' if zero else 'set'), None, n
        return
    if n.k == 'UnaryOperator' and n.op in ('++', '--') \
       and n.c[0].k == 'DeclRefExpr' and n.c[0].name == 'g_error':
        yield 'set', None, n
        return
    if n.k == 'DeclRefExpr' and n.name == 'g_error':
        yield 'read', None, n
    for c in n.c:
        yield from flag_access(c)


def check_foreign(ctx, prog, px):
    """
    C functions stored in context pointers run in the extension module that
    stored them, with its own flag: they must not depend on its old value.
    """
    entries = []
    for rel in sorted(px.funcs):
        for f in px.funcs[rel]:
            if f.node.body is None:
                continue
            for x in f.node.body.walk():
                if x.t == 'SingleAssignmentNode' and isinstance(x.lhs, X) \
                   and xtext(x.lhs).split('.')[-1] in POINTER \
                   and isinstance(x.rhs, X):
                    e = px.extern_of(rel, xtext(x.rhs).lstrip('&<> '))
                    if e is not None:
                        entries.append((rel, e))
    ctx.count('pointer_entries', len(entries))
    ctx.floor('pointer_entries', 2)

    local = {}
    for rel in prog.by_file:
        for fn in prog.by_file[rel].values():
            local.setdefault(fn.name, []).append((rel, fn))

    memo = {}

    def stale_read(rel, name, depth=0):
        """Can `name` read the flag before it is cleared?  Returns
        (reads stale, clears on all paths)."""
        if name in POINTER and depth:
            # Another context function: checked as an entry on its own.
            return False, False
        cands = local.get(name, [])
        own = [c for c in cands if c[0].rsplit('/', 1)[0]
               == rel.rsplit('/', 1)[0]] or cands
        if not own:
            return False, False
        rel2, fn = own[0]
        key = (rel2, name)
        if key in memo:
            return memo[key]
        memo[key] = (False, False)
        cfg = CFG(fn)
        bad, clears = False, True
        seen = set()
        work = [(cfg.entry, False)]
        while work:
            b, st = work.pop()
            if (b.i, st) in seen:
                continue
            seen.add((b.i, st))
            if b.node is not None and b.kind != 'loop' and not st:
                for kind, nm, x in flag_access(b.node):
                    if kind in ('clear', 'set'):
                        st = True
                        break
                    if kind == 'read':
                        bad = True
                    elif kind == 'call' and nm is not None:
                        r, c = stale_read(rel2, nm, depth + 1)
                        bad = bad or r
                        if c:
                            st = True
                            break
            if b.kind == 'exit' and not st:
                clears = False
            for lab, t in b.succ:
                work.append((t, st))
        memo[key] = (bad, clears)
        return memo[key]

    done = set()
    for rel, e in entries:
        base = rel.rsplit('/', 1)[0]
        cands = local.get(e.cname, [])
        own = [c for c in cands if c[0].rsplit('/', 1)[0] == base] or cands
        if not own:
            continue
        r2, fn = own[0]
        if (r2, fn.name) in done:
            continue
        done.add((r2, fn.name))
        memo.clear()
        bad, _ = stale_read(r2, fn.name)
        if bad:
            ctx.violation('err.stale:%s:%s' % (r2.rsplit('/', 1)[-1],
                                               fn.name),
                          '%s() is called from other extension modules, but'
                          ' can read the error flag of its own module before'
                          ' clearing it: an error already reported elsewhere'
                          ' makes a later valid call stop silently' % fn.name,
                          fn.where())
    # Modules calling the pointers stored elsewhere.
    stored = {rel for rel, _ in entries}
    out = set()
    for rel in sorted(px.funcs):
        if rel in stored:
            continue
        for f in px.funcs[rel]:
            if f.node.body is not None and any(
                    c.t == 'SimpleCallNode'
                    and xtext(c.function).split('.')[-1] in POINTER
                    for c in f.node.body.walk()):
                out.add(f.qual)
    return out


# -- Cython -------------------------------------------------------------
class PWalk:
    """Pending native error states: None or the line of the failing call."""

    def __init__(self, rel, fn, is_fail, is_check, report):
        self.rel, self.fn = rel, fn
        self.is_fail, self.is_check, self.report = is_fail, is_check, report
        self.fin = []
        self.status = {}      # variable name holding a status
        self.n = 0

    def events(self, n, out):
        t = n.t
        if t == 'SimpleCallNode':
            for a in n.args or []:
                if isinstance(a, X):
                    self.events(a, out)
            name = xtext(n.function).split('.')[-1]
            if self.is_check(name):
                out.append(('check', None, n))
            elif self.is_fail(name):
                self.n += 1
                out.append(('fail', name, n))
            return
        for k in n.kids:
            self.events(k, out)

    def expr(self, n, sts):
        if not isinstance(n, X):
            return sts
        evs = []
        self.events(n, evs)
        for kind, name, node in evs:
            if kind == 'check':
                sts = {None}
            else:
                sts = sts | {(name, node.line)} if False else {(name,
                                                                node.line)}
        return sts

    def block(self, n, sts):
        if n is None or not sts:
            return sts
        t = n.t
        if t == 'StatListNode':
            for s in n.stats or []:
                sts = self.block(s, sts)
            return sts
        if t == 'IfStatNode':
            out = set()
            cur = sts
            for cl in n.if_clauses or []:
                cur = self.expr(cl.condition, cur)
                out |= self.block(cl.body, cur)
            return out | (self.block(n.else_clause, cur)
                          if n.else_clause is not None else cur)
        if t in ('ForInStatNode', 'ForFromStatNode', 'WhileStatNode'):
            for _ in range(3):
                sts = sts | self.block(n.body, sts)
            return sts
        if t == 'ReturnStatNode':
            v = n.value if isinstance(n.value, X) else None
            direct = v is not None and v.t == 'SimpleCallNode' and \
                self.is_fail(xtext(v.function).split('.')[-1])
            sts = self.expr(v, sts)
            self.exit(sts, n, 'return', v, direct)
            return set()
        if t == 'RaiseStatNode':
            self.exit(sts, n, 'raise', None, False)
            return set()
        if t == 'TryFinallyStatNode':
            self.fin.append(n.finally_clause)
            r = self.block(n.body, sts)
            self.fin.pop()
            return self.block(n.finally_clause, r)
        if t == 'TryExceptStatNode':
            r = self.block(n.body, sts)
            out = set(r)
            for cl in n.except_clauses or []:
                out |= self.block(cl.body, sts | r)
            return out
        if t in ('DefNode', 'CFuncDefNode'):
            return sts
        return self.expr(n, sts)

    def exit(self, sts, node, how, value, direct):
        for s in sts:
            cur = {s}
            for fin in reversed(self.fin):
                cur = PWalk(self.rel, self.fn, self.is_fail, self.is_check,
                            lambda *a: None).block(fin, cur)
            for s2 in cur:
                if s2 is not None:
                    self.report(self, s2, node, how, value, direct)


def check_cython(ctx, may, prog):
    px = pyx_program(ctx.repo)
    foreign = check_foreign(ctx, prog, px)

    # Routines that clear the flag and propagate.
    checkers = set()
    names = [f for fs in px.funcs.values() for f in fs]
    for f in names:
        if f.kind == 'def' or f.node.body is None:
            continue
        zero = any(x.t == 'SingleAssignmentNode' and isinstance(x.lhs, X)
                   and xtext(x.lhs).split('.')[-1] == 'g_error'
                   and isinstance(x.rhs, X) and xtext(x.rhs) == '0'
                   for x in f.node.body.walk())
        fails = any(x.t == 'ReturnStatNode' and isinstance(x.value, X)
                    and xtext(x.value).replace(' ', '') in ('-1', '(-1)')
                    or x.t == 'RaiseStatNode' for x in f.node.body.walk())
        if zero and not f.args:
            ctx.count('check_routines')
            if not fails or f.exc is None or \
               f.exc.exception_value is None and not f.exc.exception_check:
                ctx.violation('err.checker:%s' % f.name,
                              '%s clears the flag but does not propagate the'
                              ' error' % f.name, f.where())
            # order: nonzero test first
            ifs = [x for x in f.node.body.walk() if x.t == 'IfStatNode']
            if not ifs:
                ctx.violation('err.checker-test:%s' % f.name,
                              '%s does not test the flag' % f.name, f.where())
            checkers.add(f.name)
            if foreign:
                ctx.count('foreign_callers', len(foreign))
                if not any(x.t in ('SimpleCallNode',)
                           and xtext(x.function).split('.')[-1]
                           == 'PyErr_Occurred' for x in f.node.body.walk()):
                    ctx.violation('err.foreign:%s' % f.name,
                                  '%s does not detect an error reported by a'
                                  ' function of another extension module'
                                  ' (called through a context pointer in %s)'
                                  % (f.name, ', '.join(sorted(foreign))),
                                  f.where())
    if not checkers:
        ctx.violation('err.checker', 'no Cython routine clears the native'
                      ' error flag and propagates', '_fmfield.pxd')

    def is_check(name):
        return name in checkers

    wrappers = {}
    for rel in sorted(px.funcs):
        for f in px.funcs[rel]:
            if f.node.body is None:
                continue

            def is_fail(name, rel=rel):
                if name in POINTER:
                    return True
                e = px.extern_of(rel, name)
                return e is not None and e.cname in may

            seen = []

            def report(w, st, node, how, value, direct):
                seen.append((st, node, how, value, direct))

            w = PWalk(rel, f, is_fail, is_check, report)
            rest = w.block(f.node.body, {None})
            w.exit(rest, f.node, 'normal end', None, False)
            ctx.count('cython_functions')
            ctx.count('may_fail_calls', w.n)
            if w.n == 0:
                continue
            # Status wrapper: the status of the (only) failing call is the
            # returned value.
            svars = set()
            for x in f.node.body.walk():
                if x.t == 'SingleAssignmentNode' and isinstance(x.rhs, X) \
                   and x.rhs.t == 'SimpleCallNode' \
                   and is_fail(xtext(x.rhs.function).split('.')[-1]):
                    svars.add(xtext(x.lhs))
            for st, node, how, value, direct in seen:
                if direct or (value is not None and xtext(value) in svars):
                    wrappers[f.name] = f
                    continue
                if how == 'raise' and svars and any(
                        x.t == 'ReturnStatNode' and isinstance(x.value, X)
                        and xtext(x.value) in svars
                        for x in f.node.body.walk()):
                    # status wrapper raising on a bad status: the callers'
                    # handlers have to cover the exception
                    e = node.exc_type
                    nm = xtext(e.function if isinstance(e, X)
                               and e.t == 'SimpleCallNode' else e)
                    wrappers[f.name] = f
                    wrappers.setdefault('$exc', set()).add(nm)
                    continue
                ctx.violation('err.unchecked:%s:%s:%s' % (
                    rel.rsplit('/', 1)[-1], f.qual, st[0]),
                    'an error reported by %s() can leave %s() without'
                    ' being checked and cleared (%s)'
                    % (st[0], f.qual, how), '%s:%d (%s)' % (rel, st[1],
                                                             f.qual))
    excs = wrappers.pop('$exc', set()) | {'RuntimeError', 'SystemError'}
    ctx.count('status_wrappers', len(wrappers))
    return wrappers, excs


# -- Python ---------------------------------------------------------------
CALLBACKS = {'function', 'get_fargs'}


def check_python(ctx, wrappers, excs):
    pp = pyfe.load(ctx.repo)
    term = pp.cls('Term')
    native_files = {f.file for f in wrappers.values()}

    def is_native(m, c):
        """`terms.dq_grad(...)` with terms a Cython module with wrappers."""
        d = pyfe.dotted(c.func)
        if d is None or d.split('.')[-1] not in wrappers:
            return False
        full = pp.absolute(m, d) or ''
        f = wrappers[d.split('.')[-1]]
        mod = f.file[:-4].replace('/', '.')
        return full.startswith(mod)

    clearing = set()
    for fn in pp.all_funcs():
        if any(isinstance(x, ast.Call) and pyfe.call_name(x) == 'errclear'
               for x in pyfe.own_nodes(fn)):
            clearing.add(fn.name)

    def clears(nodes):
        for s in nodes:
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    nm = pyfe.call_name(x)
                    if nm == 'errclear' or nm in clearing:
                        return True
        return False

    def covers(h):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = {(pyfe.dotted(x) or '').split('.')[-1] for x in ts}
        return bool(names & {'Exception', 'BaseException'}) or \
            excs <= names

    def parents(fn):
        par = {}
        for n in ast.walk(fn.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        return par

    def protected(fn, par, n):
        cur = n
        while cur in par:
            p = par[cur]
            if isinstance(p, ast.Try) and any(
                    cur is s for s in p.body):
                for h in p.handlers:
                    if covers(h) and clears(h.body) and any(
                            isinstance(x, ast.Raise) for s in h.body
                            for x in ast.walk(s)):
                        return True
            if isinstance(p, ast.With):
                # context manager helper of the repository that clears
                for it in p.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) \
                       and pyfe.call_name(c) in clearing:
                        return True
            cur = p
        return False

    # 1. Invocations of term callbacks are protected.
    classes = pp.subclasses(term)
    n_prot = 0
    for c in classes:
        for fn in c.methods.values():
            par = None
            for x in ast.walk(fn.node):
                if not (isinstance(x, ast.Call)
                        and isinstance(x.func, ast.Attribute)
                        and isinstance(x.func.value, ast.Name)
                        and x.func.value.id == 'self'
                        and x.func.attr in CALLBACKS):
                    continue
                # Terms with a pure Python function method of their own.
                if not reaches_native(pp, c, x.func.attr, is_native):
                    ctx.count('python_only_callbacks')
                    continue
                par = par or parents(fn)
                ctx.count('callback_invocations')
                if protected(fn, par, x):
                    n_prot += 1
                    continue
                # an enclosing helper may be invoked protected
                ctx.violation('err.callback:%s.%s:%s' % (c.name, fn.name,
                                                         x.func.attr),
                              'native errors raised by self.%s() are not'
                              ' cleared by a handler of RuntimeError and'
                              ' SystemError that re-raises' % x.func.attr,
                              fn.where(x))
            # status test after self.function
            st = status_dropped(fn)
            for node in st:
                ctx.violation('err.status:%s.%s' % (c.name, fn.name),
                              'a non-zero status of the term function does'
                              ' not raise', fn.where(node))
    ctx.count('protected_invocations', n_prot)
    ctx.floor('protected_invocations', 2)
    # 2. get_fargs() is only called through the protected dispatcher.
    for fn in pp.all_funcs():
        for x in pyfe.own_nodes(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
               and x.func.attr == 'get_fargs':
                ctx.count('get_fargs_sites')
                par = parents(fn)
                ok = protected(fn, par, x)
                base = ast.unparse(x.func.value)
                # super-calls from another get_fargs run below its dispatcher
                if not ok and (fn.name.startswith('get_fargs')
                               or fn.name.startswith('get_function')
                               or (fn.cls is not None
                                   and in_get_fargs(pp, fn))):
                    ok = True
                if not ok:
                    ctx.violation('err.get_fargs:%s' % fn.qual,
                                  '%s.get_fargs() is called without clearing'
                                  ' native errors' % base, fn.where(x))


def in_get_fargs(pp, fn):
    """Method called only from get_fargs() methods of its class family."""
    callers = set()
    for g in pp.all_funcs():
        if g.cls is None:
            continue
        for x in pyfe.own_nodes(g):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
               and x.func.attr == fn.name:
                callers.add(g.name)
    return bool(callers) and callers <= {'get_fargs'}


def reaches_native(pp, cls, attr, is_native):
    """
    Base dispatchers serve every subclass; a class whose own family defines
    the callback in pure Python without native calls is exempt.
    """
    fam = [cls] + pp.subclasses(cls, strict=True)
    for c in fam:
        k, v = c.find_attr(attr)
        if v is None:
            if any(isinstance(x, ast.Attribute)
                   and isinstance(x.ctx, ast.Store) and x.attr == attr
                   for g in c.mro() for f in g.methods.values()
                   for x in ast.walk(f.node)):
                continue       # set on the instance by the class itself
            return True
        if isinstance(v, pyfe.Func):
            m = v.module
            todo = [v]
            seen = set()
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call):
                        if is_native(f.module, x):
                            return True
                        t = pp.resolve_expr(f.module, x.func)
                        if isinstance(t, pyfe.Func):
                            todo.append(t)
                        elif isinstance(x.func, ast.Attribute) \
                                and isinstance(x.func.value, ast.Name) \
                                and x.func.value.id == 'self':
                            g = c.find(x.func.attr)
                            if g is not None:
                                todo.append(g)
        else:
            return True
    return False


def status_dropped(fn):
    """Assigned-but-unraised status of `self.function(out, *fargs)`."""
    out = []
    for x in pyfe.own_nodes(fn):
        if isinstance(x, (ast.Assign, ast.Expr)) \
           and isinstance(x.value, ast.Call) \
           and isinstance(x.value.func, ast.Attribute) \
           and x.value.func.attr == 'function' \
           and isinstance(x.value.func.value, ast.Name) \
           and x.value.func.value.id == 'self' \
           and fn.name == 'call_function':
            names = set()
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    es = t.elts if isinstance(t, ast.Tuple) else [t]
                    if isinstance(es[-1], ast.Name):
                        names.add(es[-1].id)
            good = False
            for y in pyfe.own_nodes(fn):
                if isinstance(y, ast.If) and any(
                        isinstance(z, ast.Name) and z.id in names
                        for z in ast.walk(y.test)) and any(
                        isinstance(z, ast.Raise)
                        for s in y.body + y.orelse for z in ast.walk(s)):
                    good = True
                if isinstance(y, ast.Call) and any(
                        isinstance(z, ast.Name) and z.id in names
                        for a in y.args for z in ast.walk(a)):
                    good = True      # checked by a helper
            if not good:
                out.append(x)
    return out


def run(ctx):
    prog = cfe.Program(ctx.repo)
    may = may_fail(prog)
    ctx.count('may_fail_c_functions', len(may))
    check_protocol(ctx, prog)
    wrappers, excs = check_cython(ctx, may, prog)
    check_python(ctx, wrappers, excs)
    ctx.floor('may_fail_c_functions', 60)
    ctx.floor('may_fail_calls', 35)
    ctx.floor('status_wrappers', 20)
    ctx.floor('callback_invocations', 2)
