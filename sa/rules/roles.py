"""T02: no two inputs of a kernel are exchanged between the layers."""
import ast
import re

from .. import cfe, pyfe, pyxfe
from ..pyxfe import X, xtext
from . import termif
from .pyxmem import program as pyx_program

EXPLANATION = (
    'Follows every input of every native routine through the three layers:'
    ' prepared term arguments or direct Python call -> Cython wrapper'
    ' parameter -> C parameter. An input whose name is the name of another'
    ' parameter of the same callee is bound to a wrong role, unless the pair'
    ' is listed as symmetric. The C declarations used by Cython are compared'
    ' with the C definitions in the same way, and every converted Cython'
    ' array has to come from the wrapper argument of the same name.')
RULE = ('one obligation per (call, named argument) over all layers; violation:'
        ' argument named as a different parameter of the callee')
ASSUMPTIONS = ['an argument that carries the name of no parameter of the'
               ' callee is not judged']

# (callee, argument, position): roles in which the callee is symmetric
SYMMETRIC = {
    # the bilinear form is symmetric in its two gradients
    ('d_sd_lin_elastic', 'grad_w', 'grad_v'),
}


def norm(s):
    return (s or '').replace('_', '').lower()


def judge(ctx, layer, callee, names, params, where, caller):
    """names: argument names or None per position (aligned with params)."""
    for i, a in enumerate(names):
        if a is None or i >= len(params):
            continue
        ctx.count(layer)
        if a == params[i] or a not in params:
            continue
        j = params.index(a)
        if j < len(names) and names[j] == a:
            continue           # the right position receives it, too
        if (callee, a, params[i]) in SYMMETRIC:
            ctx.count('symmetric_roles')
            continue
        ctx.violation('role:%s:%s:%s:%s' % (layer, caller, callee, a),
                      '%s passes %r to %s() as its argument %r'
                      % (caller, a, callee, params[i]), where)


def simple_name(n):
    """Plain name behind &x[0], x, <T> x; None for computed arguments."""
    while isinstance(n, X) and n.t in ('TypecastNode', 'AmpersandNode'):
        n = n.operand
    if isinstance(n, X) and n.t == 'IndexNode':
        n = n.base
    if isinstance(n, X) and n.t == 'NameNode':
        return n.name
    return None


def run(ctx):
    pp = pyfe.load(ctx.repo)
    px = pyx_program(ctx.repo)
    prog = cfe.Program(ctx.repo)
    sigs = termif.pyx_sigs(ctx.repo)

    # 1. Cython -> C
    for rel in sorted(px.funcs):
        for f in px.funcs[rel]:
            if f.node.body is None:
                continue
            for name, c in pyxfe.calls(f.node.body):
                e = px.extern_of(rel, name)
                if e is None:
                    continue
                fn = prog.funcs.get(e.cname) or prog.protos.get(e.cname)
                if fn is None:
                    continue
                args = [norm(simple_name(a)) or None for a in c.args or []]
                judge(ctx, 'native_arguments', e.cname, args,
                      [norm(p[0]) for p in fn.params],
                      '%s:%d (%s)' % (rel, c.line, f.qual), f.qual)

            # 2. conversions: array2fmfield4(_x, x)
            own = {norm(a.name) for a in f.args}
            for name, c in pyxfe.calls(f.node.body):
                short = name.split('.')[-1]
                if not re.match(r'array2(fmfield\d|pint\d)$', short):
                    continue
                args = c.args or []
                if len(args) < 2:
                    continue
                src = norm(simple_name(args[-1]))
                dst = norm(simple_name(args[0]))
                ctx.count('conversions')
                if dst and src and dst != src and dst in own \
                   and src in own:
                    ctx.violation('role:conversion:%s:%s' % (f.qual, dst),
                                  '%s converts argument %r into the native'
                                  ' array of argument %r'
                                  % (f.qual, src, dst),
                                  '%s:%d (%s)' % (rel, c.line, f.qual))

    # 3. extern declarations vs definitions
    for rel, ex in sorted(px.externs.items()):
        for al, e in sorted(ex.items()):
            fn = prog.funcs.get(e.cname)
            if fn is None:
                continue
            judge(ctx, 'declared_parameters', e.cname,
                  [norm(x[0]) or None for x in e.args],
                  [norm(p[0]) for p in fn.params],
                  '%s:%d' % (rel, e.line), rel.rsplit('/', 1)[-1])

    # 4. C prototypes vs definitions
    for nm, pr in sorted(prog.protos.items()):
        fn = prog.funcs.get(nm)
        if fn is None:
            continue
        judge(ctx, 'prototype_parameters', nm,
              [norm(p[0]) or None for p in pr.params],
              [norm(p[0]) for p in fn.params], pr.where(), 'prototype')

    # 5. term -> function
    term = pp.cls('sfepy.terms.terms.Term')
    done = set()
    for c in pp.subclasses(term, strict=True):
        if 'name' not in c.attrs:
            continue
        rows, modes = termif.rows_of(c)
        gf = c.find('get_fargs')
        if rows is None or gf is None:
            continue
        for i, row in enumerate(rows):
            weak = any(a.startswith('virtual') for a in row)
            smode = modes[i] if modes is not None and len(rows) > 1 else None
            for mode in (['weak'] if weak else ['eval', 'el_avg', 'qp']):
                for diff in ([False, True] if weak else [False]):
                    conf = {'mode': mode, 'diff': diff, 'self_mode': smode}
                    fl = termif.Fargs(pp, c, gf, conf)
                    fl.run(gf.node, {()})
                    funs = [f for f in termif.selected(pp, c, smode, sigs)
                            if isinstance(f, termif.Sig)]
                    for node, k in fl.rets:
                        v = getattr(node, 'value', None)
                        if not isinstance(v, ast.Tuple):
                            continue
                        for f in funs:
                            if not f.lo <= len(v.elts) + 1 <= f.hi:
                                continue
                            key = (c.name, node.lineno, f.name)
                            if key in done:
                                continue
                            done.add(key)
                            names = ['out'] + [
                                e.id if isinstance(e, ast.Name) else
                                (e.attr if isinstance(e, ast.Attribute)
                                 and e.attr != 'cmap' else None)
                                for e in v.elts]
                            judge(ctx, 'term_arguments', f.name, names,
                                  f.params, gf.where(node), c.name)

    # 6. direct Python calls of wrappers
    for fn in pp.all_funcs():
        for x in pyfe.own_nodes(fn):
            if not isinstance(x, ast.Call) or not x.args:
                continue
            nm = pyfe.call_name(x)
            if nm not in sigs:
                continue
            full = pp.absolute(fn.module, x.func) or ''
            if not full.startswith('sfepy.terms.extmods.terms.'):
                continue
            judge(ctx, 'direct_arguments', nm,
                  [a.id if isinstance(a, ast.Name) else None
                   for a in x.args], sigs[nm].params, fn.where(x), fn.qual)

    # 7. nodal values and the connectivity that addresses them
    for c in pp.subclasses(term):
        for fn in c.methods.values():
            check_gather(ctx, c, fn)

    ctx.floor('native_arguments', 700)
    ctx.floor('term_arguments', 250)
    ctx.floor('declared_parameters', 600)
    ctx.floor('direct_arguments', 20)
    ctx.floor('conversions', 200)


def origin(n, defs, depth=0):
    """('dofs' | 'conn', variable) of an expression, or None."""
    if isinstance(n, ast.Name) and depth < 4:
        vals = defs.get(n.id)
        if not vals:
            return None
        got = {origin(v, defs, depth + 1) for v in vals}
        return got.pop() if len(got) == 1 else None
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Name) and f.id in defs.params:
            return 'dofs', f.id
        if isinstance(f, ast.Attribute) and f.attr == 'get_econn' \
           and isinstance(f.value, ast.Attribute) \
           and f.value.attr == 'field' \
           and isinstance(f.value.value, ast.Name):
            v = f.value.value
            if v.id in defs.params:
                return 'conn', v.id
            vals = defs.get(v.id)
            if vals and len(vals) == 1 and isinstance(vals[0], ast.Name):
                return 'conn', vals[0].id
    return None


def same_field(c, name):
    """Arguments declared to use the same field ('virtual': (n, 'state'))."""
    out = set()
    k, v = c.find_attr('arg_shapes')
    if v is None or isinstance(v, pyfe.Func):
        return out
    for x in ast.walk(v):
        if isinstance(x, ast.Dict):
            for kk, vv in zip(x.keys, x.values):
                if isinstance(kk, ast.Constant) \
                   and str(kk.value).split('/')[0] == name:
                    out |= {y.value for y in ast.walk(vv)
                            if isinstance(y, ast.Constant)
                            and isinstance(y.value, str)}
    return out


class Defs(dict):
    pass


def check_gather(ctx, c, fn):
    """
    A tuple of prepared arguments with the values of one variable and a
    connectivity: both have to belong to the same variable.
    """
    if not any(isinstance(x, ast.Attribute) and x.attr == 'get_econn'
               for x in pyfe.own_nodes(fn)):
        return
    defs = Defs()
    defs.params = set(fn.params)
    for x in pyfe.own_nodes(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(x.value)
                else:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            defs.setdefault(y.id, []).append(ast.Constant(0))
        elif isinstance(x, (ast.For, ast.AugAssign)):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    defs.setdefault(y.id, []).append(ast.Constant(0))
    for x in pyfe.own_nodes(fn):
        if isinstance(x, ast.Tuple):
            es = x.elts
        elif isinstance(x, ast.Call):
            es = x.args
        else:
            continue
        os = [origin(e, defs) for e in es]
        conn = {o[1] for o in os if o and o[0] == 'conn'}
        dofs = {o[1] for o in os if o and o[0] == 'dofs'}
        if len(conn) != 1 or len(dofs) != 1:
            continue
        ctx.count('gathers')
        a, b = min(conn), min(dofs)
        if a != b and b not in same_field(c, a) and a not in same_field(c, b):
            ctx.violation('role:gather:%s:%s' % (c.name, fn.name),
                          'the values of variable %r are passed with the'
                          ' connectivity of variable %r'
                          % (min(dofs), min(conn)), fn.where(x))
