"""N03: each cell is computed from its own data, and every cell is visited."""
from ..cfe import Program, render, calls
from ..cpaths import CellSummaries, names_in, is_field_type
from ..pyxfe import PyxProgram, calls as xcalls, xtext

SCOPE = 'sfepy/terms/extmods/'

EXPLANATION = (
    'Clang AST of every native source; per function a CFG. Forward must'
    ' analysis "field positioned on the current cell of this iteration":'
    ' generated by FMF_SetCell*/SetCellNext-style assignments whose index is'
    ' derived from the cell loop induction variable, by the nCell <= 1 branch,'
    ' killed at each back edge; interprocedural summaries (which current-cell'
    ' reads a callee makes before positioning, which fields a helper'
    ' positions). Every current-cell access of a field reachable from a kernel'
    ' parameter inside a cell loop must be positioned; cell pointers and'
    ' connectivity rows must be addressed by that variable; loop headers must'
    ' enumerate all cells once.')
RULE = ('one obligation per (kernel cell loop, parameter-rooted field) and per'
        ' cell loop header; nontrivial = the field data are accessed there')
ASSUMPTIONS = [
    'FMField cell layout macros keep their meaning: val = val0 + n * cellSize',
    'fields built from arrays with fewer than four axes have one cell',
    'nodal arrays addressed through a connectivity are not per-cell data',
]


def single_cell_params(prog, px):
    """{(cname, index)} whose wrapper argument always has a single cell."""
    single, multi = set(), set()
    for rel, fns in px.funcs.items():
        for fn in fns:
            kinds = {}
            for name, c in xcalls(fn.node):
                short = name.split('.')[-1]
                if short.startswith('array2fmfield') and c.args:
                    kinds[xtext(c.args[0])] = short[-1]
            for name, c in xcalls(fn.node):
                e = px.extern_of(rel, name)
                if e is None:
                    continue
                for i, a in enumerate(c.args or []):
                    t = xtext(a)
                    if t in kinds:
                        (multi if kinds[t] == '4' else single).add(
                            (e.cname, i))
    return single - multi


def bad_header(node):
    """Reason if the for header provably skips or overruns cells."""
    if node.k != 'ForStmt':
        return None
    init, _, cond, inc, body = node.c
    if init is None or cond is None or inc is None:
        return None
    start = None
    for x in init.walk():
        if x.k == 'BinaryOperator' and x.op == '=' \
           and x.c[0].k == 'DeclRefExpr':
            start = (x.c[0].name, x.c[1])
        elif x.k == 'VarDecl' and x.c:
            start = (x.name, x.c[0])
    if start is None or cond.k != 'BinaryOperator':
        return None
    var = start[0]
    l, r = cond.c
    op = cond.op
    if r.k == 'DeclRefExpr' and r.name == var:
        l, r = r, l
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if not (l.k == 'DeclRefExpr' and l.name == var):
        return None
    up = inc.k == 'UnaryOperator' and inc.op == '++'
    if inc.k == 'CompoundAssignOperator' and inc.op == '+=':
        if inc.c[1].k == 'IntegerLiteral':
            if str(inc.c[1].val) != '1':
                return 'step %s' % render(inc.c[1])
            up = True
    if not up:
        return None
    if start[1].k == 'IntegerLiteral' and str(start[1].val) != '0':
        return 'starts at %s' % render(start[1])
    plain = r.k in ('MemberExpr', 'DeclRefExpr')
    minus1 = (r.k == 'BinaryOperator' and r.op == '-'
              and r.c[1].k == 'IntegerLiteral')
    if op == '<=' and plain:
        return 'runs one past the last cell'
    if op in ('<', '!=') and minus1 and str(r.c[1].val) != '0':
        return 'stops %s cell(s) early' % r.c[1].val
    return None


def run(ctx):
    prog = Program(ctx.repo)
    px = PyxProgram(ctx.repo)
    single = single_cell_params(prog, px)
    S = CellSummaries(prog)
    exported = {e.cname for ex in px.externs.values() for e in ex.values()}
    for f in sorted(S.info):
        info = S.info[f]
        fn = info.fn
        if not fn.file.startswith(SCOPE):
            continue
        ctx.count('functions')
        cell = S.loopfacts[f]
        if not cell:
            continue
        ctx.count('kernels_with_cell_loop')
        fields = set()
        for h, (body, ind, der) in sorted(cell.items()):
            ctx.count('cell_loops')
            node = info.cfg.blks[h].node
            why = bad_header(node)
            if why:
                ctx.violation('percell.header:%s' % f,
                              'cell loop of %s does not visit every cell'
                              ' exactly once: %s' % (f, why),
                              fn.where(node))
            for i in body:
                b = info.cfg.blks[i]
                if b.node is None or b.kind == 'loop':
                    continue
                for e in S.events(info, b.node):
                    if info.rooted(e[1]):
                        fields.add(e[1])
                # connectivity rows passed to gathers
                for name, c in calls(b.node):
                    for a in c.c[1:]:
                        if a.k == 'BinaryOperator' and a.op == '+' \
                           and 'int' in (a.type or '') \
                           and '*' in (a.type or ''):
                            ctx.count('connectivity_rows')
                            if not names_in(a) & der:
                                ctx.violation(
                                    'percell.conn:%s' % f,
                                    'connectivity row %s does not depend on'
                                    ' the current cell' % render(a),
                                    fn.where(a))
                        elif a.k == 'DeclRefExpr' and a.name in info.params \
                                and (a.type or '').replace(' ', '') \
                                == 'int32*' and name in S.info \
                                and gathers_param(S, name, c.c.index(a) - 1):
                            ctx.violation(
                                'percell.conn:%s' % f,
                                'the whole connectivity %s, not the row of'
                                ' the current cell, is passed to %s'
                                % (a.name, name), fn.where(a))
        for p in sorted(fields):
            r = info.rooted(p)
            ctx.count('field_obligations')
            bad = S.violations[f].get(p)
            if not bad:
                continue
            if p == r and (f, info.params[r][0]) in single:
                ctx.count('single_cell_params')
                continue
            node, callee = bad[0]
            how = ' (by %s)' % callee if callee else ''
            ctx.violation(
                'percell:%s:%s' % (f, p),
                'field %s is accessed%s in the cell loop of %s without being'
                ' positioned on the current cell on every path: %s'
                % (p, how, f, node.text()[:80]), fn.where(node))
        for p, node, callee in after_loop(S, f):
            ctx.violation(
                'percell.after:%s:%s' % (f, p),
                'field %s is positioned on each cell by a cell loop of %s, but'
                ' accessed%s after it: only the last cell is affected: %s'
                % (p, f, ' (by %s)' % callee if callee else '',
                   node.text()[:80]), fn.where(node))
        ctx.sample('%s: fields %s' % (f, ', '.join(sorted(fields))))
    # a field that is ever treated as possibly single-cell must be so always
    for f in sorted(S.info):
        info = S.info[f]
        if not info.fn.file.startswith(SCOPE):
            continue
        check_x1(ctx, S, f)
    ctx.floor('cell_loops', 70)
    ctx.floor('field_obligations', 300)


def after_loop(S, f):
    """Current-cell accesses after a cell loop that moved the field."""
    info = S.info[f]
    cfg = info.cfg
    out = []
    if not S.outside[f]:
        return out
    for h, (body, ind, der) in sorted(S.loopfacts[f].items()):
        moved = set()
        for i in body:
            b = cfg.blks[i]
            if b.node is None or b.kind == 'loop':
                continue
            moved |= {e[1] for e in S.events(info, b.node)
                      if e[0] in ('set', 'next') and info.rooted(e[1])
                      and (e[0] == 'next' or e[2] & der)}
        reach = set()
        stack = [cfg.blks[h]]
        while stack:
            x = stack.pop()
            for _, t in x.succ:
                if t.i not in reach:
                    reach.add(t.i)
                    stack.append(t)
        for p, i, node, callee in S.outside[f]:
            if p in moved and i in reach and i not in body:
                out.append((p, node, callee))
    return out


def gathers_param(S, g, i):
    """Does callee g index a nodal array by elements of its i-th param?"""
    fn = S.info[g].fn
    if i >= len(fn.params):
        return False
    name = fn.params[i][0]
    for n in fn.body.walk():
        if n.k == 'ArraySubscriptExpr' and n.c[0].k == 'MemberExpr' \
           and n.c[0].name == 'val':
            for x in n.c[1].walk():
                if x.k == 'ArraySubscriptExpr' and x.c[0].k == 'DeclRefExpr' \
                   and x.c[0].name == name:
                    return True
    return False


def check_x1(ctx, S, f):
    """
    Mapping base functions may be shared by all cells (one cell stored): their
    positioning must be conditional on the cell count.
    """
    info = S.info[f]
    cfg = info.cfg
    for b in cfg.blks:
        if b.kind != 'stmt' or b.node is None:
            continue
        for e in S.events(info, b.node):
            if e[0] not in ('set', 'next') or e[1] is None:
                continue
            if b.node.k == 'CallExpr':
                continue
            p = e[1]
            if not p.endswith('->bf'):
                continue
            ctx.count('shared_basis_positionings')
            r = info.rooted(p)
            if r is None or 'Mapping' not in info.params[r][1]:
                continue
            ok = False
            for lab, q in cfg.preds.get(b.i, []):
                if q.kind == 'cond':
                    n = q.node
                    if any(x.k == 'MemberExpr' and x.name == 'nCell'
                           and info.path(x.c[0]) == p for x in n.walk()):
                        ok = True
            if not ok and e[0] == 'set' and e[2] & set_vars(info):
                ctx.violation(
                    'percell.shared:%s:%s' % (f, p),
                    'basis %s can be shared by all cells (single cell), but'
                    ' %s moves it past its only cell' % (p, f),
                    info.fn.where(b.node))


def set_vars(info):
    out = set()
    for n in info.fn.body.walk():
        if n.k == 'UnaryOperator' and n.op in ('++', '--') \
           and n.c[0].k == 'DeclRefExpr':
            out.add(n.c[0].name)
    return out
