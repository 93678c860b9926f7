"""P04: attributes and options that are read are defined."""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import warnings

from .. import pyfe, unbound
from ..core import AnalysisBroken

OPEN_BASES = {'object', 'Exception', 'ValueError', 'IOError', 'RuntimeError',
              'TypeError', 'AttributeError', 'Enum', 'ABC', 'abc.ABC'}
BUILTIN = {'__class__', '__dict__', '__doc__', '__name__', '__module__',
           '__init__', '__repr__', '__str__', '__eq__', '__hash__',
           '__setattr__', '__getattribute__', '__delattr__', '__reduce__',
           '__sizeof__', '__new__', '__weakref__', '__ne__', '__format__',
           'args', 'with_traceback', '__bases__', '__mro__'}


def self_name(fn):
    """The first parameter of a method, seen also in nested functions."""
    f = fn
    while f.outer is not None:
        f = f.outer
    if f.cls is None or f.is_static or not f.params:
        return None, None
    return f.params[0], f


def facts(prog):
    """Per class: defined and read attributes; attributes set outside."""
    if hasattr(prog, '_attr_facts'):
        return prog._attr_facts
    defined, reads, opened, outside = {}, {}, {}, set()
    kwsets = {}
    for c in prog.all_classes():
        defined[c] = set(c.methods) | set(c.attrs)
        for n in c.node.body:
            for x in ast.walk(n) if not isinstance(
                    n, (ast.FunctionDef, ast.AsyncFunctionDef)) else []:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    defined[c].add(x.id)
            if isinstance(n, ast.ClassDef):
                defined[c].add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                defined[c] |= {(a.asname or a.name).split('.')[0]
                               for a in n.names}
        reads[c] = []
        opened[c] = []
        if any(isinstance(b, str) and b not in OPEN_BASES for b in c.bases):
            opened[c].append('base')
        if '__getattr__' in c.methods or '__getattribute__' in c.methods:
            opened[c].append('getattr')
    for f in prog.all_funcs():
        me, top = self_name(f)
        c = top.cls if top is not None else None
        if f.outer is not None and me in f.all_params():
            me = None
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, ast.Lambda):
                for x in ast.walk(n.body):
                    visit(prog, f, c, me, x, defined, reads, opened, outside)
            visit(prog, f, c, me, n, defined, reads, opened, outside)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id not in ('self', 'cls'):
                outside.add(n.attr)
            elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and not isinstance(n.value, ast.Name):
                outside.add(n.attr)
            elif isinstance(n, ast.Call) and pyfe.call_name(n) == 'setattr' \
                    and len(n.args) == 3:
                s = pyfe.const_str(n.args[1])
                if s is not None:
                    outside.add(s)
    prog._attr_facts = defined, reads, opened, outside
    return prog._attr_facts


def visit(prog, f, c, me, n, defined, reads, opened, outside):
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
            and me is not None and n.value.id == me:
        if isinstance(n.ctx, ast.Load):
            reads[c].append((n.attr, n, f))
        else:
            defined[c].add(n.attr)
    if not isinstance(n, ast.Call):
        return
    name = pyfe.call_name(n)
    is_me = [i for i, a in enumerate(n.args)
             if isinstance(a, ast.Name) and a.id == me]
    if me is not None and name == 'setattr' and is_me == [0]:
        s = pyfe.const_str(n.args[1])
        if s is None:
            opened[c].append('setattr')
        else:
            defined[c].add(s)
    if me is None or not isinstance(n.func, ast.Attribute):
        return
    base = n.func.value
    mine = isinstance(base, ast.Name) and base.id == me
    sup = isinstance(base, ast.Call) and pyfe.call_name(base) == 'super'
    if name == '__init__' and (is_me == [0] or sup) \
            or name in ('set_default', 'setdefault', 'update') and (
                mine or isinstance(base, ast.Attribute)
                and base.attr == '__dict__'
                and isinstance(base.value, ast.Name)
                and base.value.id == me):
        for k in n.keywords:
            if k.arg is not None:
                defined[c].add(k.arg)
            elif not (isinstance(k.value, ast.Name)
                      and k.value.id == f.kwarg):
                opened[c].append('**')
        for a in n.args:
            if isinstance(a, ast.Dict):
                for k in a.keys:
                    s = pyfe.const_str(k)
                    if s is None:
                        opened[c].append('dict')
                    else:
                        defined[c].add(s)
            elif pyfe.const_str(a) is not None and name == 'set_default':
                defined[c].add(a.value)
            elif name == 'update' and not (isinstance(a, ast.Name)
                                           and a.id == f.kwarg):
                opened[c].append('update')


# -- names stored on any object --------------------------------------------
def stored_names(prog):
    """Attributes that may be set on an object other than through self."""
    if hasattr(prog, '_attr_stored'):
        return prog._attr_stored
    out = set(facts(prog)[3])
    for f in prog.all_funcs():
        consts, dyn = set(), False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and pyfe.call_name(n) == 'setattr' \
                    and len(n.args) == 3 and pyfe.const_str(n.args[1]) is None:
                dyn = True
            if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                    and n.value.isidentifier():
                consts.add(n.value)
        if dyn:
            out |= consts
    prog._attr_stored = out
    return out


def all_trees(prog):
    for m in prog.modules.values():
        yield m.rel, m.tree


def built_with(prog):
    """Class name -> keyword names used to build an instance."""
    if hasattr(prog, '_attr_built'):
        return prog._attr_built
    out = {}
    names = {}
    for c in prog.all_classes():
        names.setdefault(c.name, []).append(c)
    for rel, tree in all_trees(prog):
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                for c in names.get(pyfe.call_name(n), ()):
                    out.setdefault(c, set()).update(
                        k.arg for k in n.keywords if k.arg)
    prog._attr_built = out
    return out


def family(prog, c):
    fam = set(prog.subclasses(c)) | set(c.mro())
    for s in list(fam):
        fam |= set(s.mro())
    return fam


def class_knows(prog, c, cache={}):
    """Names an instance of a class (or of its subclasses) may have, or None
    when the class is open."""
    key = (id(prog), c)
    if key in cache:
        return cache[key]
    defined, _, opened, _ = facts(prog)
    built = built_with(prog)
    fam = family(prog, c)
    if any(opened[k] for k in fam if k.name != 'Struct'):
        cache[key] = None
        return None
    out = set(BUILTIN)
    for k in fam:
        if k.name != 'Struct' or c.name == 'Struct':
            out |= built.get(k, set())
        out |= defined[k]
    cache[key] = out
    return out


# -- rules -----------------------------------------------------------------
class Attrs:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog

    def report(self, key, where, message):
        self.ctx.violation(key, message, where)

    def guarded(self, f, n):
        """The attribute is tested by hasattr() in this function, or the
        AttributeError is handled."""
        key = f.node
        top = f
        while top.outer is not None:
            top = top.outer
        g = getattr(top, '_attr_guard', None)
        if g is None:
            g = set(), set()
            for x in ast.walk(top.node):
                if isinstance(x, ast.Call) and pyfe.call_name(x) in (
                        'hasattr', 'getattr') and len(x.args) >= 2:
                    s = pyfe.const_str(x.args[1])
                    if s and (pyfe.call_name(x) == 'hasattr'):
                        g[0].add(s)
                elif isinstance(x, ast.Try) and any(
                        h.type is None or any(
                            e in ast.unparse(h.type) for e in (
                                'AttributeError', 'Exception'))
                        for h in x.handlers):
                    for b in x.body:
                        g[1].update(id(y) for y in ast.walk(b))
            top._attr_guard = g
        return n.attr in g[0] or id(n) in g[1]

    @staticmethod
    def forwards(c):
        """A constructor stores all its keywords as attributes."""
        for k in c.mro():
            f = k.methods.get('__init__')
            if f is None:
                continue
            return f.kwarg is not None
        return False

    def self_reads(self):
        ctx, prog = self.ctx, self.prog
        defined, reads, opened, _ = facts(prog)
        out = stored_names(prog)
        seen = set()
        for c in sorted(reads, key=lambda x: (x.rel, x.name)):
            known = class_knows(prog, c)
            if known is None:
                ctx.count('open_classes')
                continue
            ctx.count('classes')
            for attr, node, f in reads[c]:
                ctx.count('self_attribute_reads')
                if attr in known or attr in out or self.guarded(f, node):
                    continue
                if attr in f.all_params() and self.forwards(c):
                    # the default of a parameter, given to the constructor
                    continue
                k = (c.rel, c.name, attr)
                if k in seen:
                    continue
                seen.add(k)
                self.report('undefined-attribute %s:%s.%s' % k, f.where(node),
                           'the attribute %r of %s is read here, but nothing'
                           ' defines it' % (attr, c.name))

    def instance_reads(self):
        """Attributes of a local that holds a new instance of a class."""
        ctx, prog = self.ctx, self.prog
        out = stored_names(prog)
        for f in prog.all_funcs():
            binds = {}
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    binds.setdefault(n.id, []).append(n)
            inst = {}
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, ast.Call) \
                        and len(binds[n.targets[0].id]) == 1 \
                        and n.targets[0].id not in f.all_params():
                    t = prog.resolve_expr(f.module, n.value.func) \
                        if pyfe.dotted(n.value.func) else None
                    if isinstance(t, pyfe.Class) and t.find('__new__') is None:
                        inst[n.targets[0].id] = (t, n.value)
            if not inst:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                        and n.value.id in inst:
                    c, call = inst[n.value.id]
                    known = class_knows(prog, c)
                    if known is None or any(k.arg is None
                                            for k in call.keywords):
                        continue
                    if c.name == 'Struct':
                        known = set(known)
                    ctx.count('instance_attribute_reads')
                    if n.attr in known or n.attr in out \
                            or self.guarded(f, n):
                        continue
                    self.report('undefined-attribute %s:%s:%s.%s'
                               % (f.rel, f.qual, c.name, n.attr), f.where(n),
                               'the attribute %r of a new %s is read here, but'
                               ' nothing defines it' % (n.attr, c.name))

    # -- order in constructors
    def constructor_order(self):
        ctx, prog = self.ctx, self.prog
        defined, _, opened, _ = facts(prog)
        stored = stored_names(prog)
        built = built_with(prog)
        for c in prog.all_classes():
            f = c.methods.get('__init__')
            if f is None or not f.params:
                continue
            me = f.params[0]
            own = {}
            nested = set()
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    own.setdefault(n.attr, []).append(n)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nested |= {x.attr for x in ast.walk(n)
                               if isinstance(x, ast.Attribute)}
            stores, loads = set(), set()
            for a, ns in own.items():
                if any(isinstance(x.ctx, ast.Store) for x in ns):
                    stores.add(a)
                if any(isinstance(x.ctx, ast.Load) for x in ns):
                    loads.add(a)
            # what the constructors of the base classes set
            calls, by_base = [], set()
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) \
                        and n.func.attr == '__init__':
                    calls.append(n)
                    by_base |= {k.arg for k in n.keywords if k.arg}
            if calls:
                for k in c.mro()[1:]:
                    g = k.methods.get('__init__')
                    if g is None:
                        continue
                    by_base |= self.sets(c, g)
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Call) and isinstance(
                                n.func, ast.Attribute) \
                                and n.func.attr == '__init__':
                            by_base |= {x.arg for x in n.keywords if x.arg}
            needs = {}
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) and n.func.value.id == me:
                    g = c.find(n.func.attr)
                    if g is not None and g is not f and not g.is_static:
                        needs[n.func.attr] = self.definite_reads(g)
                        loads |= needs[n.func.attr]
            late = self.read_later(c, f, stores)
            loads |= late
            cand = loads & (stores | by_base)
            cand -= nested
            if self.escapes(f):
                cand -= stored
            for k in c.mro():
                cand -= set(k.attrs) | set(k.methods)
            for name in needs:
                cand -= self.sets(c, c.find(name))
            for k in prog.subclasses(c, strict=True):
                cand -= set(k.attrs) | set(k.methods)
            for n in pyfe.own_nodes(f.node):
                if isinstance(n, ast.Call):
                    if pyfe.call_name(n) in ('setattr', 'set_default',
                                             'update'):
                        cand -= {pyfe.const_str(a) for a in n.args}
                        cand -= {k.arg for k in n.keywords}
            ctx.count('constructors')
            if not cand:
                continue
            fn = copy.deepcopy(f.node)
            late &= cand

            class T(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if isinstance(n.value, ast.Name) and n.value.id == me \
                            and n.attr in cand:
                        return ast.copy_location(
                            ast.Name(id='%s_%s' % (me, n.attr), ctx=n.ctx), n)
                    return n

                def visit_Call(self, n):
                    r = needs.get(n.func.attr, set()) & cand if isinstance(
                        n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) \
                        and n.func.value.id == me else set()
                    self.generic_visit(n)
                    if not r:
                        return n
                    new = ast.Tuple(elts=[
                        ast.Name(id='%s_%s' % (me, a), ctx=ast.Load())
                        for a in sorted(r)] + [n], ctx=ast.Load())
                    ast.copy_location(new, n)
                    for x in new.elts[:-1]:
                        ast.copy_location(x, n)
                    return new

                def visit_Return(self, n):
                    return exits(n) + [n]

                def visit_FunctionDef(self, n):
                    if n is fn:
                        self.generic_visit(n)
                        n.body += exits(n.body[-1])
                    return n

                def visit_Expr(self, n):
                    init = isinstance(n.value, ast.Call) and isinstance(
                        n.value.func, ast.Attribute) \
                        and n.value.func.attr == '__init__'
                    self.generic_visit(n)
                    if not init:
                        return n
                    sets = [ast.Assign(
                        targets=[ast.Name(id='%s_%s' % (me, a),
                                          ctx=ast.Store())],
                        value=ast.Constant(value=None))
                        for a in sorted(cand & by_base)]
                    for x in sets:
                        ast.copy_location(x, n)
                        ast.fix_missing_locations(x)
                    return [n] + sets
            def exits(at):
                new = [ast.Expr(value=ast.Name(id='%s_%s' % (me, a),
                                               ctx=ast.Load()))
                       for a in sorted(late)]
                for x in new:
                    ast.copy_location(x, at)
                    ast.copy_location(x.value, at)
                return new

            fn = T().visit(fn)
            names = {'%s_%s' % (me, a): a for a in cand}
            ctx.count('constructor_attributes', len(cand))
            done = set()

            def rep(x, name_or_fn):
                if x is None or x.id not in names or x.id in done:
                    return
                done.add(x.id)
                self.report('unset-attribute %s:%s.%s'
                           % (c.rel, c.name, names[x.id]), f.where(x),
                           'the attribute %r is read in the constructor of %s'
                           ' (or is left unset for other methods) before it is'
                           ' assigned' % (names[x.id], c.name))
            unbound.analyse(fn, rep)

    def read_later(self, c, f, stores):
        """Attributes that only constructors of the class family set and that
        other methods read."""
        fam = family(self.prog, c)
        out = set()
        others = set()
        for k in fam:
            for name, g in k.methods.items():
                if not g.params:
                    continue
                me = g.params[0]
                free = self.unconditional(g.node)
                refs = sorted((n for n in ast.walk(g.node)
                               if isinstance(n, ast.Attribute)
                               and isinstance(n.value, ast.Name)
                               and n.value.id == me),
                              key=lambda n: (n.lineno, n.col_offset))
                first = {}
                for n in refs:
                    first.setdefault(n.attr, n)
                for n in refs:
                    if isinstance(n.ctx, ast.Store):
                        # where it is read first, it is expected to be set
                        if g is not f and not isinstance(
                                first[n.attr].ctx, ast.Load):
                            others.add(n.attr)
                    elif g is not f and not self.guarded(g, n) \
                            and id(n) in free:
                        out.add(n.attr)
        return (out & stores) - others

    @staticmethod
    def unconditional(fn):
        """Nodes evaluated in every call of a function."""
        out = set()
        for st in fn.body:
            if isinstance(st, (ast.If, ast.While)):
                parts = [st.test]
            elif isinstance(st, (ast.For, ast.AsyncFor)):
                parts = [st.iter]
            elif isinstance(st, ast.With):
                parts = [i.context_expr for i in st.items]
            elif isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                 ast.Return, ast.AnnAssign)):
                parts = [st]
            else:
                parts = []
            stack = list(parts)
            while stack:
                n = stack.pop()
                if isinstance(n, ast.BoolOp):
                    stack.append(n.values[0])
                    continue
                if isinstance(n, ast.IfExp):
                    stack.append(n.test)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                                  ast.DictComp, ast.SetComp)):
                    continue
                out.add(id(n))
                stack.extend(ast.iter_child_nodes(n))
            if not isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) \
                    and any(isinstance(n, (ast.Return, ast.Raise))
                            for n in ast.walk(st)):
                break
        return out

    @staticmethod
    def escapes(f):
        """The object is given to a function, that may set anything."""
        me = f.params[0]
        for n in pyfe.own_nodes(f.node):
            if isinstance(n, ast.Call):
                init = isinstance(n.func, ast.Attribute) \
                    and n.func.attr == '__init__'
                for i, a in enumerate(n.args + [k.value for k in n.keywords]):
                    if isinstance(a, ast.Name) and a.id == me \
                            and not (init and i == 0):
                        return True
        return False

    def sets(self, c, f):
        """Attributes that a method and the methods it calls may set."""
        out, todo, seen = set(), [f], set()
        while todo:
            g = todo.pop()
            if g is None or g in seen or not g.params:
                continue
            seen.add(g)
            me = g.params[0]
            if g is not f or f.name != '__init__':
                if self.escapes(g):
                    out |= stored_names(self.prog)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    else:
                        for k in self.prog.subclasses(c):
                            h = k.find(n.attr)
                            if h is not None:
                                todo.append(h)
                elif isinstance(n, ast.Call) and pyfe.call_name(n) in (
                        'setattr', 'set_default', 'update'):
                    out |= {pyfe.const_str(x) for x in n.args}
                    out |= {x.arg for x in n.keywords}
                elif isinstance(n, ast.Attribute) and n.attr == '__init__':
                    for k in (g.cls.mro()[1:] if g.cls else ()):
                        todo.append(k.methods.get('__init__'))
        return out

    @staticmethod
    def definite_reads(g):
        """Attributes that a method reads whenever it is called, before it
        may set them."""
        if not g.params:
            return set()
        me, out, done = g.params[0], set(), set()
        for st in g.node.body:
            if not isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                   ast.Return)):
                if isinstance(st, (ast.If, ast.For, ast.While)):
                    part = [st.test] if not isinstance(st, ast.For) \
                        else [st.iter]
                else:
                    break
            else:
                part = [st]
            late = set()
            for p in part:
                stack = [p]
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.Lambda, ast.IfExp, ast.BoolOp,
                                      ast.ListComp, ast.GeneratorExp,
                                      ast.DictComp, ast.SetComp)):
                        continue
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.value, ast.Name) and n.value.id == me:
                        if isinstance(n.ctx, ast.Load):
                            if n.attr not in done:
                                out.add(n.attr)
                        else:
                            late.add(n.attr)
                    stack.extend(ast.iter_child_nodes(n))
            done |= late
            if part != [st]:
                done |= {n.attr for n in ast.walk(st)
                         if isinstance(n, ast.Attribute)
                         and isinstance(n.ctx, ast.Store)}
                if any(isinstance(n, (ast.Return, ast.Raise))
                       for n in ast.walk(st)):
                    break
            # a call may set any attribute
            if any(isinstance(n, ast.Call) and any(
                    isinstance(x, ast.Name) and x.id == me
                    for x in ast.walk(n)) for n in ast.walk(st)):
                break
        return out

    # -- solver options
    def parameters(self, c):
        """Declared option names of a solver class, or None."""
        def ev(m, e):
            if isinstance(e, (ast.List, ast.Tuple)):
                r = set()
                for x in e.elts:
                    if isinstance(x, ast.Starred):
                        y = ev(m, x.value)
                        if y is None:
                            return None
                        r |= y
                        continue
                    if not (isinstance(x, ast.Tuple) and x.elts):
                        return None
                    s = pyfe.const_str(x.elts[0])
                    if s is None:
                        return None
                    r.add(s)
                return r
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                a, b = ev(m, e.left), ev(m, e.right)
                return None if a is None or b is None else a | b
            if isinstance(e, ast.Attribute):
                k = self.prog.resolve_expr(m, e.value)
                if isinstance(k, pyfe.Class):
                    kk, v = k.find_attr(e.attr)
                    if kk is not None and isinstance(v, ast.AST):
                        return ev(kk.module, v)
            if isinstance(e, ast.Name) and len(m.assigns.get(e.id, ())) == 1:
                return ev(m, m.assigns[e.id][0])
            return None
        k, v = c.find_attr('_parameters')
        return ev(k.module, v) if k is not None else None

    def solver_options(self):
        ctx, prog = self.ctx, self.prog
        base = prog.cls('sfepy.solvers.solvers.Solver')
        if base is None:
            raise AnalysisBroken('no Solver class')
        common = self.parameters(base)
        struct = prog.cls('sfepy.base.base.Struct')
        if common is None or struct is None:
            raise AnalysisBroken('no parameters of Solver')
        allow = set(struct.methods) | BUILTIN | {'get', 'name', 'kind'}
        for c in prog.subclasses(base, strict=True):
            decl = self.parameters(c)
            if 'name' not in c.attrs or decl is None:
                continue
            ctx.count('solver_classes')
            decl = declared = decl | common
            for k in c.mro():
                for f in k.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store) and self.is_conf(
                                    f, n.value, 0):
                            decl = decl | {n.attr}
            for f in self.methods_of(c):
                raw = 0
                if 'conf' in f.params and f.name == '__init__':
                    # processed by the base class
                    raw = min([n.lineno for n in ast.walk(f.node)
                               if isinstance(n, ast.Assign)
                               and any(isinstance(t, ast.Name)
                                       and t.id == 'conf'
                                       for t in n.targets)
                               and self.is_conf(f, n.value, 10**9)]
                              + [10**9])
                for n in ast.walk(f.node):
                    got = None
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Load) \
                            and self.is_conf(f, n.value, raw):
                        got = n.attr
                    elif isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and n.func.attr == 'get' \
                            and self.is_conf(f, n.func.value, raw) \
                            and len(n.args) + len(n.keywords) == 2 \
                            and not (isinstance(n.args[-1], ast.Constant)
                                     and n.args[-1].value is None):
                        got = pyfe.const_str(n.args[0])
                    if isinstance(n, ast.Call):
                        for name, where, must in self.passed(f, n, raw):
                            if name in allow:
                                continue
                            ctx.count('solver_option_reads')
                            if name not in (declared if must else decl):
                                self.report(
                                    'undeclared-option %s:%s:%s'
                                    % (c.rel, c.name, name), where,
                                    'the option %r is read here for %s, but it'
                                    ' is not among its declared parameters'
                                    % (name, c.name))
                    if got is None or got in allow:
                        continue
                    if isinstance(n, ast.Attribute) and self.guarded(f, n):
                        continue
                    if got in f.all_params() and f.cls is not c \
                            and c.find(f.name) is not f:
                        # given by the method of the subclass
                        continue
                    ctx.count('solver_option_reads')
                    if got not in decl:
                        self.report('undeclared-option %s:%s:%s'
                                   % (c.rel, c.name, got), f.where(n),
                                   'the option %r is read by %s, but it is not'
                                   ' among its declared parameters'
                                   % (got, c.name))

    def passed(self, f, call, raw):
        """Options read by a function that is given the configuration."""
        if not any(self.is_conf(f, a, raw) for a in call.args):
            return
        t = self.prog.resolve_expr(f.module, call.func) \
            if pyfe.dotted(call.func) else None
        if not isinstance(t, pyfe.Func) or t.cls is not None:
            return
        defaults = dict(zip(t.params[len(t.params) - t.n_default:],
                            t.node.args.defaults))
        given = set(t.params[:len(call.args)]) | {k.arg for k in
                                                  call.keywords}
        for a, p in zip(call.args, t.params):
            if not self.is_conf(f, a, raw):
                continue
            if any(isinstance(n, ast.Name) and n.id == p
                   and isinstance(n.ctx, ast.Store)
                   for n in ast.walk(t.node)):
                continue
            for n in ast.walk(t.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                        and n.value.id == p and not self.guarded(t, n):
                    yield n.attr, t.where(n), False
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'get' \
                        and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == p and n.args:
                    # an option whose name is chosen by the caller; the
                    # other ones are optional by the given default
                    k = n.args[0]
                    if not isinstance(k, ast.Name):
                        continue
                    if k.id in defaults and k.id not in given:
                        k = defaults[k.id]
                    elif k.id in t.params:
                        i = t.params.index(k.id)
                        ks = [x.value for x in call.keywords
                              if x.arg == k.id]
                        k = call.args[i] if i < len(call.args) \
                            else (ks or [None])[0]
                    if k is not None and pyfe.const_str(k) is not None:
                        yield k.value, f.where(call), True

    @staticmethod
    def is_conf(f, e, raw):
        if isinstance(e, ast.Name):
            return e.id == 'conf' and e.lineno > raw
        return isinstance(e, ast.Attribute) and e.attr == 'conf' \
            and isinstance(e.value, ast.Name) and f.params \
            and e.value.id == f.params[0]

    def methods_of(self, c):
        """Methods that run for instances of a class: those callable from
        outside and what they call through self or a base class."""
        todo, seen = [], set()
        for name in sorted({n for k in c.mro() for n in k.methods}):
            f = c.find(name)
            if f is not None and (f.cls is c or not name.startswith('_')
                                  or name in ('__init__', '__call__')):
                todo.append(f)
        while todo:
            f = todo.pop()
            if f in seen or f.is_static or f.is_classmethod:
                continue
            seen.add(f)
            if not f.params:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == f.params[0]:
                    g = c.find(n.attr)
                    if g is not None:
                        todo.append(g)
                elif isinstance(n, ast.Attribute):
                    k = self.prog.resolve_expr(f.module, n.value) \
                        if pyfe.dotted(n.value) else None
                    if isinstance(n.value, ast.Call) and pyfe.call_name(
                            n.value) == 'super':
                        for k in f.cls.mro()[1:]:
                            if n.attr in k.methods:
                                todo.append(k.methods[n.attr])
                                break
                    elif isinstance(k, pyfe.Class) and k in c.mro():
                        g = k.find(n.attr)
                        if g is not None:
                            todo.append(g)
        return sorted(seen, key=lambda f: (f.rel, f.node.lineno))

    # -- application options
    def app_options(self):
        ctx, prog = self.ctx, self.prog
        keys = {}
        for c in prog.all_classes():
            for name, f in c.methods.items():
                if not name.startswith('process_options'):
                    continue
                ks = set()
                ok = False
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and pyfe.call_name(n) \
                            == 'Struct':
                        ok = True
                        for k in n.keywords:
                            if k.arg is None:
                                ok = False
                            ks.add(k.arg)
                    elif isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store):
                        ks.add(n.attr)
                    elif isinstance(n, ast.Return) and n.value is not None \
                            and isinstance(n.value, ast.BinOp):
                        for x in ast.walk(n.value):
                            if isinstance(x, ast.Call) and pyfe.call_name(
                                    x) == name:
                                pass
                keys.setdefault(c, {})[name] = ks
        struct = prog.cls('sfepy.base.base.Struct')
        allow = set(struct.methods) | BUILTIN
        for c in sorted(prog.all_classes(), key=lambda x: (x.rel, x.name)):
            mine = [k for k in c.mro() if k in keys]
            if not mine:
                continue
            known = set()
            for k in list(c.mro()) + prog.subclasses(c):
                for ks in keys.get(k, {}).values():
                    known |= ks
            if not known:
                continue
            ctx.count('classes_with_options')
            for f in c.methods.values():
                al = {}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                            and isinstance(n.targets[0], ast.Name):
                        v = n.value
                        al.setdefault(n.targets[0].id, []).append(
                            self.is_app(v, f))
                al = {k for k, v in al.items() if all(v)} - set(f.all_params())
                wr = {n.attr for n in ast.walk(f.node)
                      if isinstance(n, ast.Attribute)
                      and isinstance(n.ctx, ast.Store)}
                for n in ast.walk(f.node):
                    if not (isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Load)):
                        continue
                    if not (self.is_app(n.value, f) or isinstance(
                            n.value, ast.Name) and n.value.id in al):
                        continue
                    if n.attr in allow or self.guarded(f, n):
                        continue
                    ctx.count('application_option_reads')
                    if n.attr not in known and n.attr not in wr:
                        self.report('undeclared-option %s:%s:%s'
                                   % (c.rel, c.name, n.attr), f.where(n),
                                   'the application option %r is read by %s,'
                                   ' but its process_options() does not set it'
                                   % (n.attr, c.name))

    @staticmethod
    def is_app(v, f):
        if isinstance(v, ast.Attribute) and v.attr == 'app_options' \
                and isinstance(v.value, ast.Name) and f.params \
                and v.value.id == f.params[0]:
            return True
        return isinstance(v, ast.Call) and (pyfe.call_name(v) or ''
                                            ).startswith('process_options')

    # -- command line options
    def script_options(self):
        ctx, prog = self.ctx, self.prog
        n_scripts = 0
        for rel, tree in self.scripts():
            res, dests, broken = set(), set(), False
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, ast.Call) \
                        and pyfe.call_name(n.value) == 'parse_args':
                    res.add(n.targets[0].id)
                elif isinstance(n, ast.Call) and pyfe.call_name(n) \
                        == 'add_argument':
                    d = [k.value for k in n.keywords if k.arg == 'dest']
                    if d:
                        s = pyfe.const_str(d[0])
                        broken |= s is None
                        dests.add(s)
                    else:
                        al = [pyfe.const_str(a) for a in n.args]
                        if None in al or any(isinstance(a, ast.Starred)
                                             for a in n.args):
                            broken = True
                            continue
                        lg = [a for a in al if a.startswith('--')] or al
                        dests.add(lg[0].lstrip('-').replace('-', '_'))
                elif isinstance(n, ast.Call) and pyfe.call_name(n) in (
                        'set_defaults',):
                    dests |= {k.arg for k in n.keywords}
            if len(res) != 1 or not dests or broken:
                continue
            name = res.pop()
            n_scripts += 1
            wr = {n.attr for n in ast.walk(tree) if isinstance(
                n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            # functions where the name is something else
            for n, shadow in self.name_uses(tree, name):
                if shadow or n.attr in wr or n.attr.startswith('__'):
                    continue
                ctx.count('script_option_reads')
                if n.attr not in dests:
                    self.report('undeclared-option %s:%s' % (rel, n.attr),
                               '%s:%d' % (rel, n.lineno),
                               'the command line option %r is read, but no'
                               ' argument of the parser defines it' % n.attr)
        ctx.count('scripts', n_scripts)

    @staticmethod
    def name_uses(tree, name):
        def visit(n, shadow):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id == name \
                            and isinstance(x.ctx, ast.Store):
                        par = [y for y in ast.walk(n) if isinstance(
                            y, ast.Assign) and any(t is x
                                                   for t in y.targets)]
                        if not (par and isinstance(par[0].value, ast.Call)
                                and pyfe.call_name(par[0].value)
                                == 'parse_args'):
                            shadow = True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) \
                    and isinstance(n.value, ast.Name) and n.value.id == name:
                yield n, shadow
            for x in ast.iter_child_nodes(n):
                yield from visit(x, shadow)
        yield from visit(tree, False)

    def scripts(self):
        repo = self.prog.repo
        for d, dirs, files in os.walk(os.path.join(repo, 'sfepy')):
            dirs[:] = sorted(x for x in dirs if x not in ('tests',
                                                          '__pycache__'))
            for fn in sorted(files):
                if fn.endswith('.py'):
                    path = os.path.join(d, fn)
                    with open(path, encoding='utf-8') as fd:
                        text = fd.read()
                    if 'parse_args' not in text:
                        continue
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        yield os.path.relpath(path, repo), ast.parse(text)


    # -- names defined nowhere
    def foreign_reads(self):
        """Attributes of any object, whose name nothing defines."""
        ctx, prog = self.ctx, self.prog
        known = self.all_names()
        suspects = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load):
                    ctx.count('attribute_names')
                    if n.attr not in known and not self.of_module(m, n):
                        suspects.setdefault(n.attr, []).append((m, n))
        if not suspects:
            return
        found = library_words(set(suspects))
        for attr, l in sorted(suspects.items()):
            if attr in found:
                continue
            for m, n in l:
                f = self.enclosing(m, n)
                if f is not None and self.guarded(f, n):
                    continue
                if isinstance(n.value, ast.Name) and f is not None:
                    me, top = self_name(f)
                    if n.value.id == me:
                        continue        # judged with its class
                self.report('undefined-attribute %s:%s' % (m.rel, attr),
                            f.where(n) if f is not None
                            else '%s:%d' % (m.rel, n.lineno),
                            'the attribute %r is read here, but neither this'
                            ' package nor a library it uses defines it'
                            % attr)

    def of_module(self, m, n):
        b = n
        while isinstance(b, ast.Attribute):
            b = b.value
        if not (isinstance(b, ast.Name) and b.id in m.imports):
            return False
        r = self.prog.resolve_expr(m, n.value)
        return isinstance(r, (str, pyfe.Module))

    def enclosing(self, m, n):
        best = None
        for f in m.funcs:
            if f.node.lineno <= n.lineno <= f.node.end_lineno:
                if best is None or f.node.lineno >= best.node.lineno:
                    best = f
        return best

    def all_names(self):
        prog = self.prog
        out = set(BUILTIN) | set(stored_names(prog))
        for d in facts(prog)[0].values():
            out |= d
        for f in prog.all_funcs():
            out.add(f.name)
        for m in prog.modules.values():
            out |= set(m.defs) | set(m.classes) | set(m.assigns) \
                | set(m.imports) | {x.split('.')[-1] for x in m.imports}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                        and len(n.value) < 80 and n.value.isidentifier():
                    out.add(n.value)
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
        for d, dirs, files in os.walk(os.path.join(prog.repo, 'sfepy')):
            for fn in files:
                path = os.path.join(d, fn)
                if fn.endswith(('.pyx', '.pxd')):
                    with open(path, encoding='utf-8') as fd:
                        out |= set(re.findall(r'\w+', fd.read()))
        with open(os.path.join(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))), 'data',
                'external_attrs.txt')) as fd:
            out |= set(fd.read().split())
        return out

    # -- attributes of the libraries
    def library_reads(self):
        ctx, prog = self.ctx, self.prog
        want = {}
        for m in prog.modules.values():
            safe = self.version_guarded(m)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    d = pyfe.dotted(n)
                    if d is None or d.split('.')[0] not in m.imports \
                            or id(n) in safe:
                        continue
                    f = self.enclosing(m, n)
                    if f is not None and d.split('.')[0] in self.locals(f):
                        continue
                    full = prog.absolute(m, n)
                    if full and not full.startswith('sfepy'):
                        want.setdefault(full, []).append((m, n))
                elif isinstance(n, ast.ImportFrom) and not n.level \
                        and n.module and id(n) not in safe \
                        and not n.module.startswith('sfepy'):
                    for a in n.names:
                        if a.name != '*':
                            want.setdefault(n.module + '.' + a.name,
                                            []).append((m, n))
        res = ask_libraries(sorted(want))
        if res is None:
            ctx.note('no interpreter with the libraries: their names are not'
                     ' judged')
            return
        ctx.count('library_names', len(want))
        for d in res:
            for m, n in want[d]:
                f = self.enclosing(m, n)
                if f is not None and isinstance(n, ast.Attribute) \
                        and self.guarded(f, n):
                    continue
                self.report('no-library-name %s:%s' % (m.rel, d),
                            f.where(n) if f is not None
                            else '%s:%d' % (m.rel, n.lineno),
                            '%s is used here, but the installed library does'
                            ' not have it' % d)

    @staticmethod
    def locals(f):
        if not hasattr(f, '_attr_locals'):
            out = set()
            g = f
            while g is not None:
                out |= set(g.all_params())
                out |= {n.id for n in ast.walk(g.node)
                        if isinstance(n, ast.Name)
                        and isinstance(n.ctx, ast.Store)}
                g = g.outer
            f._attr_locals = out
        return f._attr_locals

    @staticmethod
    def version_guarded(m):
        out = set()

        def add(body):
            for b in body:
                out.update(id(x) for x in ast.walk(b))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.handlers:
                if any(h.type is None or any(
                        e in ast.unparse(h.type) for e in (
                            'AttributeError', 'Exception', 'ImportError'))
                       for h in n.handlers):
                    add(n.body)
                    # the alternatives of a failed attempt
                    for h in n.handlers:
                        if h.type is not None and any(
                                e in ast.unparse(h.type) for e in (
                                    'AttributeError', 'ImportError')):
                            add(h.body)
            elif isinstance(n, (ast.If, ast.IfExp)) and any(
                    w in ast.unparse(n.test) for w in (
                        'version', 'hasattr', 'platform')):
                add(n.body if isinstance(n, ast.If) else [n.body])
                add(n.orelse if isinstance(n, ast.If) else [n.orelse])
        return out


LIB_CODE = """
import sys, json, importlib, warnings
warnings.simplefilter("ignore")
out = []
for d in json.load(sys.stdin):
    parts = d.split(".")
    if parts[0] not in sys.stdlib_module_names \
       and parts[0] not in ("numpy", "scipy", "sympy"):
        continue
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        continue
    name = parts[0]
    for q in parts[1:]:
        if not isinstance(o, (type(sys), type)):
            break
        if not hasattr(o, q):
            try:
                importlib.import_module(name + "." + q)
            except Exception:
                out.append(d)
                break
        o = getattr(o, q)
        name += "." + q
print(json.dumps(out))
"""


def interpreter():
    for p in ('/opt/venv/bin/python', shutil.which('python3')):
        if p and os.path.exists(p):
            return p
    return None


def ask_libraries(names):
    """Those of the dotted names that the installed library does not have."""
    py = interpreter()
    if py is None:
        return None
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    r = subprocess.run([py, '-I', '-c', LIB_CODE], input=json.dumps(names),
                       capture_output=True, text=True, cwd='/', env=env)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None


def library_words(names):
    """Those of the names that occur in an installed library."""
    py = interpreter()
    if py is None:
        return set(names)
    r = subprocess.run([py, '-I', '-c', 'import sysconfig as s;'
                        'print(s.get_path("stdlib"));'
                        'print(s.get_path("purelib"))'],
                       capture_output=True, text=True, cwd='/')
    dirs = [d for d in r.stdout.split() if os.path.isdir(d)]
    if not dirs:
        return set(names)
    pat = r'\b(def|class)\s+(%s)\b|\.(%s)\b' % (('|'.join(sorted(names)),)
                                                  * 2)
    r = subprocess.run(['grep', '-rhoEI', '--include=*.py', '--include=*.pyi',
                        '--exclude-dir=sfepy*', pat] + dirs,
                       capture_output=True, text=True)
    return {w for l in r.stdout.splitlines() for w in re.findall(r'\w+', l)
            if w in names}


EXPLANATION = (
    'Every read of an attribute is resolved to its definitions: attributes of'
    ' self and of new instances through the whole class family (class bodies,'
    ' assignments in any method, keywords of the constructors, set_default(),'
    ' setattr()), attributes of other objects through all names defined in'
    ' the package and the names of the libraries, attributes of library'
    ' modules in the installed library. Attributes that only the constructor'
    ' sets are followed by the path-sensitive definite assignment analysis.'
    ' The options that solver classes, applications and scripts read are'
    ' compared with those they declare.')
RULE = ('one obligation per attribute read, constructor attribute, option read'
        ' and library name')
ASSUMPTIONS = [
    'classes with unknown bases or computed attribute names are not judged',
    'an attribute defined by some method of the class family is set before it'
    ' is read, except within a constructor',
    'names under a hasattr(), a version test or an attempt are optional']


def run(ctx):
    prog = pyfe.load(ctx.repo)
    a = Attrs(ctx, prog)
    a.self_reads()
    a.instance_reads()
    a.constructor_order()
    a.solver_options()
    a.app_options()
    a.script_options()
    a.foreign_reads()
    a.library_reads()
    ctx.floor('self_attribute_reads', 3000)
    ctx.floor('attribute_names', 20000)
    ctx.floor('solver_option_reads', 150)
    ctx.floor('application_option_reads', 40)
    ctx.floor('script_option_reads', 60)
    ctx.floor('constructors', 100)
