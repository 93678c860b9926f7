"""
N04: native objects keep the arrays they point into; views of native memory
are renewed when that memory is released.
"""
import os

from ..cfe import Program, calls as ccalls, assigned, base_var
from ..pyxfe import PyxFunc, X, decl_name, type_name, xtext
from ..pyfe import PyProgram
from .pyxmem import program as pyx_program
import ast

EXPLANATION = (
    'Cython parser trees and the clang AST of the native sources. C summary:'
    ' which pointer parameters a routine stores into memory reachable from'
    ' another parameter, and which structure members it releases. Structured'
    ' forward analysis of every Cython function over (identity of the array'
    ' behind each variable, identities held by the attributes of each'
    ' extension object, identities whose addresses were put into the native'
    ' data of an object); at each exit every stored address must belong to an'
    ' array held by an attribute of the same object. Attributes holding such'
    ' arrays must not be replaced without updating the address. Arrays'
    ' wrapping native memory must be renewed or dropped by each method that'
    ' lets the memory be released.')
RULE = ('one obligation per address of Python-owned memory stored in native'
        ' data of an extension object, and per (method releasing native'
        ' memory, view of it)')
ASSUMPTIONS = [
    'memoryviews keep the memory alive only as long as the local variable',
    'an extension object and the arrays held by its attributes live equally'
    ' long',
    'views are not used after the mesh they belong to is gone',
]

KEEP = {'asarray', 'tuple', 'list', 'asanyarray'}


# ---------------------------------------------------------------- C side
def is_ptr(t):
    return bool(t) and ('*' in t or '[' in t)


class Escapes:
    """fn -> {(dst index, src index)}: src address put under dst."""
    def __init__(self, prog):
        self.fns = {}
        for rel in prog.by_file:
            for f in prog.by_file[rel].values():
                self.fns[f.name] = f
        self.ptr_members = set()
        for rel in prog.globals:
            for _, g in prog.globals[rel]:
                for x in g.walk():
                    if x.k == 'FieldDecl' and '*' in x.type:
                        self.ptr_members.add(x.name)
        for rel in prog.by_file:
            for f in prog.by_file[rel].values():
                for x in (f.body.walk() if f.body is not None else ()):
                    if x.k == 'MemberExpr' and '*' in (x.type or ''):
                        self.ptr_members.add(x.name)
        self.S = {n: set() for n in self.fns}
        self.R = {n: set() for n in self.fns}    # released members
        ch = True
        while ch:
            ch = False
            for f in self.fns.values():
                s, r = self.analyse(f)
                if not s <= self.S[f.name] or not r <= self.R[f.name]:
                    self.S[f.name] |= s
                    self.R[f.name] |= r
                    ch = True

    def roots(self, n, env):
        k = n.k
        if k == 'DeclRefExpr':
            return env.get(n.name, frozenset())
        if k in ('MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator',
                 'ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            return self.roots(n.c[-1] if k == 'CStyleCastExpr' else n.c[0],
                              env) if n.c else frozenset()
        if k in ('BinaryOperator', 'ConditionalOperator'):
            if k == 'BinaryOperator' and n.op == '=':
                return self.roots(n.c[1], env)
            out = frozenset()
            for c in (n.c if k == 'BinaryOperator' else n.c[1:]):
                if is_ptr(c.type):
                    out |= self.roots(c, env)
            return out
        return frozenset()

    def analyse(self, f):
        idx = {p[0]: i for i, p in enumerate(f.params)}
        env = {p[0]: frozenset([p[0]]) for p in f.params if is_ptr(p[1])}
        out, rel = set(), set()
        if f.body is None:
            return out, rel
        for _ in range(3):
            for x in f.body.walk():
                if x.k == 'VarDecl' and x.has_init and is_ptr(x.type) and x.c:
                    if x.c[-1] is not None:
                        env[x.name] = env.get(x.name, frozenset()) \
                            | self.roots(x.c[-1], env)
            for l, r, x in assigned(f.body):
                if r is None or not is_ptr(l.type):
                    continue
                rr = self.roots(r, env)
                if l.k == 'DeclRefExpr':
                    env[l.name] = env.get(l.name, frozenset()) | rr
                    continue
                b = base_var(l)
                if b is None:
                    continue
                for d in env.get(b.name, ()):
                    for s in rr:
                        if s != d and d in idx and s in idx:
                            out.add((idx[d], idx[s]))
        for nm, x in ccalls(f.body):
            if nm in ('free_mem', 'mem_free_mem', 'free'):
                for a in x.c[1:]:
                    if a is None:
                        continue
                    for y in a.walk():
                        if y.k == 'MemberExpr':
                            rel.add(y.name)
                            break
            if nm in self.S:
                rel |= self.R[nm]
                for d, s in self.S[nm]:
                    if max(d, s) + 1 >= len(x.c):
                        continue
                    for dd in self.roots(x.c[d + 1], env):
                        for ss in self.roots(x.c[s + 1], env):
                            if dd != ss and dd in idx and ss in idx:
                                out.add((idx[dd], idx[ss]))
        return out, rel


# --------------------------------------------------------------- pyx side
def strip(n):
    while isinstance(n, X) and n.t == 'TypecastNode':
        n = n.operand
    return n


class Cls:
    def __init__(self, name):
        self.name = name
        self.native = set()
        self.objs = {}       # attr -> visibility
        self.types = {}


def classes(px):
    out = {}
    for rel, tree in px.trees.items():
        for n in tree.walk():
            if n.t != 'CClassDefNode' or n.body is None:
                continue
            c = out.setdefault(n.class_name, Cls(n.class_name))
            for s in (n.body.stats or []) if n.body.t == 'StatListNode' \
                    else [n.body]:
                if s.t != 'CVarDefNode':
                    continue
                base = type_name(s.base_type)
                for d in s.declarators or []:
                    name, ptr, arr, _, fn = decl_name(d)
                    if fn is not None or name is None:
                        continue
                    if ptr or arr or base and base.rstrip().endswith('*') \
                            or s.base_type.t == 'CComplexBaseTypeNode' \
                            or s.base_type.t == 'TemplatedTypeNode' \
                            and 'ndarray' not in (base or ''):
                        c.native.add(name)
                    else:
                        c.objs[name] = s.visibility
                        c.types[name] = base
    return out


SCAL = {'int', 'int32', 'uint32', 'float64', 'double', 'float', 'bint',
        'complex128', 'size_t', 'Py_ssize_t', 'long', 'char'}


class Esc:
    """Summary of one Cython function over its own parameters."""


class Walk:
    def __init__(self, an, rel, fn):
        self.an = an
        self.rel = rel
        self.fn = fn
        self.n = 0
        self.viol = []
        self.stores = 0
        self.pairs = set()       # parameter pairs stored (for helpers)
        self.pidx = {a.name: i for i, a in enumerate(fn.args)}
        self.keepers = {}        # attr -> list of nodes

    # state: dict with
    #   v: name -> frozenset of identities (Python-owned memory)
    #   p: local pointer -> frozenset of identities
    #   a: local alias of native data -> owner name
    #   k: (owner, attr) -> frozenset of identities
    #   s: frozenset of (owner, identity, line)
    #   w: frozenset of (owner, attr) assigned here
    def run(self):
        st = {'v': {}, 'p': {}, 'a': {}, 'k': {}, 's': frozenset(),
              'w': frozenset()}
        for a in self.fn.args:
            if a.ptr or a.arr or a.base in SCAL:
                if a.ptr or a.arr:
                    st['p'][a.name] = frozenset([('cparam', a.name)])
                continue
            st['v'][a.name] = frozenset([('param', a.name)])
        out = self.block(self.fn.node.body, st)
        if out is not None:
            self.exit(out)

    def fresh(self, n):
        self.n += 1
        return frozenset([('new', n.line, self.n)])

    # -- joins
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        o = {}
        for key in ('v', 'p'):
            o[key] = {}
            for n in set(a[key]) | set(b[key]):
                o[key][n] = a[key].get(n, frozenset()) \
                    | b[key].get(n, frozenset())
        o['a'] = dict(a['a'])
        o['a'].update(b['a'])
        o['k'] = {}
        for n in set(a['k']) | set(b['k']):
            if n in a['k'] and n in b['k']:
                o['k'][n] = a['k'][n] | b['k'][n]
            else:
                o['k'][n] = a['k'].get(n) or b['k'].get(n)
        o['s'] = a['s'] | b['s']
        o['w'] = a['w'] | b['w']
        return o

    @staticmethod
    def copy(s):
        return {'v': dict(s['v']), 'p': dict(s['p']), 'a': dict(s['a']),
                'k': dict(s['k']), 's': s['s'], 'w': s['w']}

    def exit(self, st):
        for owner, ident, line, what in st['s']:
            held = set()
            for (o, attr), ids in st['k'].items():
                if o == owner:
                    held |= ids
            if ident not in held and not (ident[0] == 'attr'
                                          and ident[1] == owner
                                          and (owner, ident[2])
                                          not in st['w']):
                self.viol.append((owner, ident, line, what))
            else:
                for (o, attr), ids in st['k'].items():
                    if o == owner and ident in ids:
                        self.keepers.setdefault(attr, line)
                if ident[0] == 'attr' and ident[1] == owner:
                    self.keepers.setdefault(ident[2], line)
        self.final = getattr(self, 'final', []) + [st]

    # -- statements
    def block(self, n, st):
        if n is None or st is None:
            return st
        t = n.t
        if t == 'StatListNode':
            for s in n.stats or []:
                st = self.block(s, st)
                if st is None:
                    return None
            return st
        if t == 'IfStatNode':
            out = None
            for cl in n.if_clauses or []:
                self.expr(cl.condition, st)
                out = self.join(out, self.block(cl.body, self.copy(st)))
            els = self.block(n.else_clause, self.copy(st)) \
                if n.else_clause is not None else st
            return self.join(out, els)
        if t in ('ForInStatNode', 'ForFromStatNode', 'WhileStatNode'):
            if n.target is not None:
                self.assign(n.target, None, n, st)
            s2 = self.block(n.body, self.copy(st))
            return self.join(s2, st)
        if t == 'ReturnStatNode':
            if isinstance(n.value, X):
                self.expr(n.value, st)
            self.exit(st)
            return None
        if t == 'RaiseStatNode':
            return None
        if t in ('TryFinallyStatNode',):
            st = self.block(n.body, st)
            return self.block(n.finally_clause, st)
        if t == 'TryExceptStatNode':
            s2 = self.block(n.body, self.copy(st))
            out = s2
            for cl in n.except_clauses or []:
                out = self.join(out, self.block(cl.body,
                                                self.copy(self.join(st, s2)
                                                          )))
            return out
        if t == 'CVarDefNode':
            for d in n.declarators or []:
                dd = d
                while dd is not None and dd.t != 'CNameDeclaratorNode':
                    dd = dd.base
                if dd is not None and isinstance(dd.default, X):
                    self.expr(dd.default, st)
                    self.bind(dd.name, dd.default, n, st)
            return st
        if t == 'SingleAssignmentNode':
            self.expr(n.rhs, st)
            self.assign(n.lhs, n.rhs, n, st)
            return st
        if t == 'CascadedAssignmentNode':
            self.expr(n.rhs, st)
            ids = self.ids(n.rhs, st)
            if ids is None:
                ids = self.fresh(n)
            for l in n.lhs_list or []:
                self.assign(l, n.rhs, n, st, ids)
            return st
        if t in ('CFuncDefNode', 'DefNode', 'FuncDefNode'):
            return st
        if t == 'ExprStatNode':
            self.expr(n.expr, st)
            return st
        for k in n.kids:
            if k.t.endswith('StatNode') or k.t == 'StatListNode':
                st = self.block(k, st)
            else:
                self.expr(k, st)
        return st

    def owner_of(self, n, st):
        """Owner of native data that the lvalue/pointer `n` lies in."""
        n = strip(n)
        while isinstance(n, X):
            if n.t == 'AttributeNode':
                o = strip(n.obj)
                if isinstance(o, X) and o.t == 'NameNode' \
                   and n.attribute in self.an.native \
                   and o.name not in st['a'] \
                   and self.is_obj(o.name, n.attribute):
                    return o.name
                n = o
            elif n.t == 'NameNode':
                return st['a'].get(n.name)
            elif n.t == 'AmpersandNode':
                n = strip(n.operand)
            elif n.t == 'IndexNode':
                n = strip(n.base)
            elif n.operand1 is not None:
                n = strip(n.operand1)
            else:
                return None
        return None

    def is_obj(self, name, attr):
        ty = self.an.vartype(self.fn, name)
        if ty is None:
            return True
        c = self.an.classes.get(ty.split('.')[-1])
        return c is not None and attr in c.native

    def ids(self, n, st):
        """Identities of Python-owned memory behind an object expression."""
        n = strip(n)
        if not isinstance(n, X):
            return None
        if n.t == 'NameNode':
            return st['v'].get(n.name)
        if n.t == 'AttributeNode':
            o = strip(n.obj)
            if isinstance(o, X) and o.t == 'NameNode':
                if n.attribute in self.an.objattrs:
                    k = st['k'].get((o.name, n.attribute))
                    if k is not None:
                        return k
                    return frozenset([('attr', o.name, n.attribute)])
            return None
        if n.t == 'IndexNode':
            return self.ids(n.base, st)
        if n.t == 'SimpleCallNode':
            f = xtext(n.function).split('.')[-1]
            if f in KEEP and n.args:
                out = frozenset()
                for a in n.args:
                    out |= self.ids(a, st) or frozenset()
                return out or None
            return None
        if n.t in ('TupleNode', 'ListNode'):
            out = frozenset()
            for a in n.args or []:
                out |= self.ids(a, st) or frozenset()
            return out or None
        return None

    def mem(self, n, st):
        """Identities whose address the pointer/array expression carries."""
        n = strip(n)
        if not isinstance(n, X):
            return frozenset()
        if n.t == 'AmpersandNode':
            o = strip(n.operand)
            if isinstance(o, X) and o.t == 'IndexNode':
                b = strip(o.base)
                if isinstance(b, X) and b.t == 'NameNode' \
                   and b.name in st['p']:
                    return st['p'][b.name]
                return self.ids(o.base, st) or frozenset()
            return frozenset()
        if n.t == 'NameNode':
            if n.name in st['p']:
                return st['p'][n.name]
            if n.name in st['a']:
                o = st['a'][n.name]
                return frozenset([('object', o)]) | st['v'].get(o,
                                                                frozenset())
            return st['v'].get(n.name, frozenset())
        if n.t == 'AttributeNode':
            # native data of another object
            o = self.owner_of(n, st)
            if o is not None:
                return frozenset([('object', o)]) | st['v'].get(o,
                                                                frozenset())
            return self.ids(n, st) or frozenset()
        if n.t == 'IndexNode':
            return self.ids(n, st) or frozenset()
        if n.operator and n.operand1 is not None:
            return self.mem(n.operand1, st)
        if n.t == 'SimpleCallNode':
            f = xtext(n.function).split('.')[-1]
            if f in self.an.externs or f in self.an.helpers:
                return frozenset()
            # temporary array passed on directly
            return self.ids(n, st) or self.fresh(n)
        return frozenset()

    def bind(self, name, rhs, n, st, ids=None):
        ty = self.an.vartype(self.fn, name)
        ptr = ty is not None and ty.endswith('*')
        if ty in SCAL:
            return
        if ptr:
            st['a'].pop(name, None)
            st['p'].pop(name, None)
            if rhs is None:
                return
            own = self.owner_of(rhs, st)
            if own is not None:
                st['a'][name] = own
                return
            st['p'][name] = self.mem(rhs, st) if ids is None else ids
            return
        if ids is None:
            ids = self.ids(rhs, st) if rhs is not None else None
            if ids is None and isinstance(rhs, X):
                ids = self.fresh(n)
        st['v'][name] = ids or frozenset()
        st['a'].pop(name, None)
        st['k'] = {k: v for k, v in st['k'].items() if k[0] != name}

    def assign(self, l, rhs, n, st, ids=None):
        if l.t in ('TupleNode', 'ListNode'):
            for a in l.args or []:
                self.assign(a, None, n, st)
            return
        if l.t == 'NameNode':
            if n.t == 'CascadedAssignmentNode':
                for o in n.lhs_list or []:
                    own = self.owner_of(o, st) if o.t != 'NameNode' else None
                    ty = self.an.vartype(self.fn, l.name)
                    if own is not None and ty and ty.endswith('*'):
                        st['a'][l.name] = own
                        return
            self.bind(l.name, rhs, n, st, ids)
            return
        own = self.owner_of(l, st)
        if own is not None:
            if rhs is not None and self.an.pointer_member(l):
                self.store(own, self.mem(rhs, st), n, st, xtext(l))
            return
        if l.t == 'AttributeNode':
            o = strip(l.obj)
            if isinstance(o, X) and o.t == 'NameNode' \
               and l.attribute in self.an.objattrs:
                if ids is None:
                    ids = self.ids(rhs, st) if rhs is not None else None
                    if ids is None:
                        ids = self.fresh(n)
                src = strip(rhs) if rhs is not None else None
                if src is not None and src.t == 'NameNode':
                    ids = ids | frozenset([('object', src.name)])
                st['k'][(o.name, l.attribute)] = ids
                st['w'] = st['w'] | {(o.name, l.attribute)}
            return
        if l.t == 'IndexNode' and rhs is not None:
            # out[0] = &arr[..] through a pointer parameter
            b = strip(l.base)
            if isinstance(b, X) and b.t == 'NameNode' \
               and b.name in self.pidx:
                for i in self.mem(rhs, st):
                    if i[0] in ('param', 'cparam') and i[1] in self.pidx:
                        self.pairs.add((self.pidx[b.name],
                                        self.pidx[i[1]]))

    def store(self, own, ids, n, st, what):
        for i in ids:
            if i in (('object', own), ('param', own)):
                continue
            if i[0] == 'cparam':
                continue
            self.stores += 1
            st['s'] = st['s'] | {(own, i, n.line, what)}

    def expr(self, n, st):
        if n is None or not isinstance(n, X):
            return
        for x in n.walk():
            if x.t != 'SimpleCallNode':
                continue
            name = xtext(x.function)
            short = name.split('.')[-1]
            args = x.args or []
            self.method_call(x, st)
            # owner.attr.append(v)
            if isinstance(x.function, X) and x.function.t == 'AttributeNode' \
               and short in ('append', 'extend', 'add') and args:
                o = strip(x.function.obj)
                if isinstance(o, X) and o.t == 'AttributeNode':
                    oo = strip(o.obj)
                    if isinstance(oo, X) and oo.t == 'NameNode':
                        k = (oo.name, o.attribute)
                        st['k'][k] = st['k'].get(k, frozenset()) | (
                            self.ids(args[0], st) or frozenset())
            for d, s in self.an.pairs_of(self.rel, name):
                if d >= len(args) or s >= len(args):
                    continue
                ids = self.mem(args[s], st)
                own = self.owner_of(args[d], st)
                if own is not None:
                    self.store(own, ids, x, st, xtext(args[d]))
                    continue
                b = strip(args[d])
                while isinstance(b, X) and b.t in ('AmpersandNode',
                                                   'IndexNode'):
                    b = strip(b.operand if b.t == 'AmpersandNode' else b.base)
                if isinstance(b, X) and b.t == 'NameNode':
                    if b.name in self.pidx:
                        for i in ids:
                            if i[0] in ('param', 'cparam') \
                               and i[1] in self.pidx:
                                self.pairs.add((self.pidx[b.name],
                                                self.pidx[i[1]]))
                    elif x.args[d].t == 'AmpersandNode':
                        # local pointer receives the address
                        st['p'][b.name] = ids


    def method_call(self, x, st):
        """Effects of calling a method or a helper taking the object."""
        f = strip(x.function)
        args = list(x.args or [])
        if f.t == 'AttributeNode' and strip(f.obj).t == 'NameNode':
            args = [strip(f.obj)] + args
            name = f.attribute
        elif f.t == 'NameNode':
            name = f.name
        else:
            return
        sm = self.an.msum.get((self.rel, name))
        if sm is None:
            return
        keeps, stores = sm
        for (oi, attr), (pi, done) in sorted(keeps.items()):
            if max(oi, pi) < len(args) and args[oi].t == 'NameNode':
                own = args[oi].name
                ids = self.ids(args[pi], st) or self.mem(args[pi], st)
                st['k'][(own, attr)] = ids
                if not done:
                    st['w'] = st['w'] | {(own, attr)}
        for oi, pi, what in sorted(stores):
            if max(oi, pi) < len(args) and args[oi].t == 'NameNode':
                self.store(args[oi].name, self.mem(args[pi], st), x, st,
                           what)


class Analysis:
    def __init__(self, px, esc):
        self.msum = {}
        self.px = px
        self.esc = esc
        self.classes = classes(px)
        self.native = set()
        self.objattrs = set()
        for c in self.classes.values():
            self.native |= c.native
            self.objattrs |= {a for a in c.objs if c.types[a] not in SCAL}
        self.externs = set()
        for ex in px.externs.values():
            self.externs |= set(ex)
        self.helpers = {}
        self._types = {}
        self.funcs = []
        for rel, tree in px.trees.items():
            if not rel.endswith('.pyx'):
                continue
            self.collect(rel, tree.body, None)
        # helpers first
        for _ in range(2):
            for rel, fn in self.funcs:
                if fn.kind != 'cdef' or fn.cls is not None:
                    continue
                w = Walk(self, rel, fn)
                w.run()
                self.helpers[fn.name] = w.pairs
        called = {}
        for rel, fn in self.funcs:
            for x in fn.node.walk():
                if x.t == 'SimpleCallNode':
                    n = xtext(x.function).split('.')[-1]
                    called.setdefault((rel, n), set()).add(fn.qual)
        self.deferred = set()
        for _ in range(3):
            for rel, fn in self.funcs:
                if fn.name.startswith('__') or fn.name in self.helpers \
                   and self.helpers[fn.name]:
                    continue
                w = Walk(self, rel, fn)
                w.run()
                keeps, stores = {}, set()
                for st in getattr(w, 'final', ()):
                    for (o, attr), ids in st['k'].items():
                        for i in ids:
                            if i[0] == 'param' and i[1] in w.pidx \
                               and o in w.pidx:
                                done = any(so == o and si == i for
                                           so, si, _, _ in st['s'])
                                keeps[(w.pidx[o], attr)] = (
                                    w.pidx[i[1]], done)
                private = fn.kind == 'cdef' or fn.name.startswith('_')
                for owner, i, line, what in w.viol:
                    if i[0] == 'param' and i[1] in w.pidx \
                       and owner in w.pidx and private \
                       and called.get((rel, fn.name), set()) - {fn.qual}:
                        stores.add((w.pidx[owner], w.pidx[i[1]], what))
                        self.deferred.add((rel, fn.qual, i[1]))
                if keeps or stores:
                    self.msum[(rel, fn.name)] = (keeps, stores)

    def collect(self, rel, n, cls):
        if n is None:
            return
        if n.t == 'StatListNode':
            for s in n.stats or []:
                self.collect(rel, s, cls)
        elif n.t == 'DefNode':
            self.funcs.append((rel, PyxFunc(rel, n, cls, 'def')))
        elif n.t == 'CFuncDefNode':
            self.funcs.append((rel, PyxFunc(rel, n, cls, 'cdef')))
        elif n.t in ('CClassDefNode', 'PyClassDefNode'):
            self.collect(rel, n.body, n.class_name or n.name)
        elif n.t in ('CompilerDirectivesNode', 'PropertyNode'):
            self.collect(rel, n.body, cls)

    def vartype(self, fn, name):
        """Declared type: 'T *' pointers, scalar or class names, None."""
        key = id(fn)
        if key not in self._types:
            ty = {}
            for a in fn.args:
                if a.base is not None:
                    ty[a.name] = a.base + (' *' if a.ptr or a.arr else '')
            if fn.cls:
                ty['self'] = fn.cls
            for x in fn.node.walk():
                if x.t != 'CVarDefNode':
                    continue
                base = type_name(x.base_type) or ''
                for d in x.declarators or []:
                    n, ptr, arr, _, f = decl_name(d)
                    if n is None:
                        continue
                    star = ptr or arr or base.rstrip().endswith('*')
                    ty[n] = base.split(' ')[0] + (' *' if star else '')
            # local objects created by an extension class
            for x in fn.node.walk():
                if x.t == 'SingleAssignmentNode' and x.lhs.t == 'NameNode' \
                   and isinstance(x.rhs, X) \
                   and x.rhs.t == 'SimpleCallNode' \
                   and xtext(x.rhs.function) in self.classes:
                    ty.setdefault(x.lhs.name, xtext(x.rhs.function))
            self._types[key] = ty
        return self._types[key].get(name)

    def pointer_member(self, n):
        n = strip(n)
        if isinstance(n, X) and n.t == 'IndexNode':
            return False
        if not isinstance(n, X) or n.t != 'AttributeNode':
            return True
        return n.attribute in self.esc.ptr_members \
            or n.attribute in self.native

    def pairs_of(self, rel, name):
        short = name.split('.')[-1]
        if short in self.helpers:
            return self.helpers[short]
        e = self.px.extern_of(rel, name)
        if e is not None and e.cname in self.esc.S:
            return self.esc.S[e.cname]
        return ()


# ------------------------------------------------------------------ views
def view_rules(ctx, an):
    """Views of native members vs. releases of these members."""
    by_cls = {}
    for rel, fn in an.funcs:
        if fn.cls:
            by_cls.setdefault((rel, fn.cls), {})[fn.name] = fn
    n_views = 0
    for (rel, cls), meths in sorted(by_cls.items()):
        # members wrapped: view attr -> set of native member names
        ret_members = {}
        for name, fn in meths.items():
            mem = set()
            for x in fn.node.walk():
                if x.t == 'SimpleCallNode' and xtext(x.function).endswith(
                        'PyArray_SimpleNewFromData') and len(x.args) > 3:
                    mem |= members(fn, x.args[3])
            ret_members[name] = mem
        views = {}
        for name, fn in meths.items():
            for x in fn.node.walk():
                if x.t != 'SingleAssignmentNode' or x.lhs.t != 'AttributeNode':
                    continue
                if xtext(x.lhs.obj) != 'self' or not isinstance(x.rhs, X):
                    continue
                r = strip(x.rhs)
                if r.t != 'SimpleCallNode':
                    continue
                f = xtext(r.function)
                if f.endswith('PyArray_SimpleNewFromData'):
                    views.setdefault(x.lhs.attribute, set()).update(
                        members(fn, r.args[3]))
                elif f.startswith('self.') and ret_members.get(f[5:]):
                    views.setdefault(x.lhs.attribute, set()).update(
                        ret_members[f[5:]])
        # wrapper objects stored in a container attribute (conns)
        conts = {}
        for name, fn in meths.items():
            wrapvars = {}
            for x in fn.node.walk():
                if x.t == 'SingleAssignmentNode' and x.lhs.t == 'NameNode' \
                   and isinstance(x.rhs, X) and x.rhs.t == 'SimpleCallNode':
                    f = xtext(x.rhs.function)
                    if f == '_create_cconn' or f == 'CConnectivity':
                        wrapvars[x.lhs.name] = f
                if x.t == 'SingleAssignmentNode' and x.lhs.t == 'IndexNode' \
                   and isinstance(x.rhs, X) and x.rhs.t == 'NameNode' \
                   and x.rhs.name in wrapvars:
                    t = xtext(x.lhs.base)
                    if t.startswith('self.'):
                        conts[t[5:]] = True
        if not views and not conts:
            continue
        # transitive sets of renewed views per method
        renew = {n: set() for n in meths}
        ch = True
        while ch:
            ch = False
            for name, fn in meths.items():
                s = set(renew[name])
                for x in fn.node.walk():
                    if x.t == 'SingleAssignmentNode':
                        l = x.lhs
                        if l.t == 'AttributeNode' and xtext(l.obj) == 'self':
                            s.add(l.attribute)
                        if l.t == 'IndexNode' \
                           and xtext(l.base).startswith('self.') \
                           and isinstance(x.rhs, X) \
                           and x.rhs.t == 'NoneNode':
                            s.add(xtext(l.base)[5:] + '[]')
                    if x.t == 'SimpleCallNode' \
                       and xtext(x.function).startswith('self.') \
                       and xtext(x.function)[5:] in meths:
                        s |= {v for v in renew[xtext(x.function)[5:]]
                              if not v.endswith('[]')}
                if s != renew[name]:
                    renew[name] = s
                    ch = True
        for name, fn in sorted(meths.items()):
            if name in ('__dealloc__', '__cinit__'):
                continue
            for x in fn.node.walk():
                if x.t != 'SimpleCallNode':
                    continue
                e = an.px.extern_of(rel, xtext(x.function))
                if e is None or not e.cname.startswith('mesh_'):
                    continue
                freed = an.esc.R.get(e.cname, set())
                for v, mem in sorted(views.items()):
                    if not mem & freed:
                        continue
                    ctx.count('views of native memory checked')
                    n_views += 1
                    if v not in renew[name]:
                        ctx.violation(
                            'view:%s.%s:%s:%s' % (cls, name, e.cname, v),
                            '%s() can release the memory that %s.%s wraps,'
                            ' but %s() does not renew it: the array is left'
                            ' pointing to released memory'
                            % (e.cname, cls, v, name), fn.where(x))
                if {'indices', 'offsets'} & freed:
                    for c in conts:
                        ctx.count('views of native memory checked')
                        n_views += 1
                        if c + '[]' not in renew[name]:
                            ctx.violation(
                                'view:%s.%s:%s:%s' % (cls, name, e.cname, c),
                                '%s() can release a connectivity wrapped by'
                                ' an item of %s.%s, but %s() does not drop'
                                ' the item' % (e.cname, cls, c, name),
                                fn.where(x))
    return n_views


def members(fn, n):
    """Member names a pointer expression may come from (via locals)."""
    n = strip(n)
    out = set()
    if not isinstance(n, X):
        return out
    if n.t == 'AttributeNode':
        return {n.attribute}
    if n.t == 'NameNode':
        for x in fn.node.walk():
            if x.t == 'SingleAssignmentNode' and x.lhs.t == 'NameNode' \
               and x.lhs.name == n.name and isinstance(x.rhs, X):
                r = strip(x.rhs)
                if r.t == 'AttributeNode':
                    out.add(r.attribute)
    return out


# ------------------------------------------------- borrowing constructors
def borrowed_calls(ctx, borrowing):
    """
    Classes that borrow constructor arguments: whoever creates them keeps
    the arguments.
    """
    prog = PyProgram(ctx.repo)
    n = 0
    for rel, mod in sorted(prog.modules.items()):
        if '.tests.' in rel or '.examples.' in rel:
            continue
        src_tree = mod.tree
        for fn in [x for x in ast.walk(src_tree)
                   if isinstance(x, ast.FunctionDef)]:
            for a in ast.walk(fn):
                if not (isinstance(a, ast.Assign)
                        and isinstance(a.value, ast.Call)):
                    continue
                f = a.value.func
                cname = f.id if isinstance(f, ast.Name) else \
                    f.attr if isinstance(f, ast.Attribute) else None
                if cname not in borrowing:
                    continue
                t = a.targets[0]
                if not (isinstance(t, ast.Attribute)
                        and isinstance(t.value, ast.Name)):
                    continue
                obj = t.value.id
                by_attr = {}
                for b in sorted((x for x in ast.walk(fn)
                                 if isinstance(x, ast.Assign)),
                                key=lambda x: (x.lineno, x.col_offset)):
                    for tt in b.targets:
                        prs = [(tt, b.value)]
                        if isinstance(tt, (ast.Tuple, ast.List)):
                            prs = list(zip(tt.elts, b.value.elts)) \
                                if isinstance(b.value, (ast.Tuple, ast.List)
                                              ) else []
                        for el, v in prs:
                            if isinstance(el, ast.Attribute) \
                               and isinstance(el.value, ast.Name) \
                               and el.value.id == obj and b is not a:
                                by_attr[el.attr] = {ast.dump(y)
                                                    for y in held(v)}
                                if b.lineno < a.lineno:
                                    by_attr[el.attr].add(
                                        ast.dump(ast.Attribute(
                                            el.value, el.attr, ast.Load())))
                kept = set()
                for v in by_attr.values():
                    kept |= v
                params, pos = borrowing[cname]
                for i, v in enumerate(a.value.args):
                    if i >= len(pos) or pos[i] not in params:
                        continue
                    if isinstance(v, ast.Constant):
                        continue
                    n += 1
                    ctx.count('arguments of borrowing constructors')
                    if ast.dump(v) not in kept:
                        ctx.violation(
                            'borrow:%s:%s.%s:%s' % (rel, fn.name, cname,
                                                    pos[i]),
                            '%s() points into its argument %s, which the'
                            ' object holding the result does not keep: %s'
                            % (cname, pos[i], ast.unparse(v)),
                            '%s:%d (%s)' % (rel, a.lineno, fn.name))
    return n


def held(n):
    """Objects that the value of an expression keeps alive."""
    if isinstance(n, (ast.Name, ast.Attribute)):
        return [n]
    if isinstance(n, (ast.Tuple, ast.List)):
        return [y for e in n.elts for y in held(e)]
    if isinstance(n, ast.Dict):
        return [y for e in n.values for y in held(e)]
    if isinstance(n, ast.IfExp):
        return held(n.body) + held(n.orelse)
    if isinstance(n, ast.Call):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else \
            f.attr if isinstance(f, ast.Attribute) else None
        if name in KEEP | {'ascontiguousarray', 'dict', 'Struct'}:
            return [y for e in list(n.args) + [k.value for k in n.keywords]
                    for y in held(e)]
    return []


def run(ctx):
    px = pyx_program(ctx.repo)
    prog = Program(ctx.repo)
    esc = Escapes(prog)
    an = Analysis(px, esc)
    ctx.count('C routines summarized', len(esc.fns))
    ctx.count('helpers storing addresses',
              sum(1 for p in an.helpers.values() if p))
    keepers = {}
    viols = {}
    owners = {}
    for rel, fn in an.funcs:
        w = Walk(an, rel, fn)
        w.run()
        ctx.count('Cython functions analysed')
        if not w.stores:
            w_stores = False
        ctx.count('addresses stored in native data', w.stores)
        for attr, line in w.keepers.items():
            keepers.setdefault(attr, []).append((rel, fn, line))
        for owner, ident, line, what in w.viol:
            viols.setdefault((rel, fn), []).append((owner, ident, line, what))
        owners[(rel, fn)] = w
    borrowing = {}
    for (rel, fn), items in viols.items():
        for owner, ident, line, what in sorted(set(items), key=str):
            if (rel, fn.qual, ident[1]) in an.deferred \
               and ident[0] == 'param':
                continue
            if fn.name == '__cinit__' and owner == 'self' \
               and ident[0] == 'param' and ident[1] in fn_params(fn) \
               and not has_keepers(an, fn.cls):
                b = borrowing.setdefault(fn.cls, (set(), fn_params(fn)))
                b[0].add(ident[1])
                continue
            name = ident[1] if ident[0] in ('param', 'object') else \
                '%s.%s' % ident[1:] if ident[0] == 'attr' else \
                'an array created here'
            ctx.violation(
                'keep:%s:%s:%s' % (rel, fn.qual, what.replace(' ', '')),
                '%s of %s is given an address within %s, which is not held by'
                ' any attribute of %s on leaving %s(): the memory can be'
                ' released while in use' % (what, owner, name, owner, fn.name),
                '%s:%d (%s)' % (rel, line, fn.qual))
    # attributes holding the arrays must not change without the address
    for (rel, fn), w in owners.items():
        for st in getattr(w, 'final', ()):
            stored = {(o, i) for o, i, _, _ in st['s']}
            for (o, attr) in st['w']:
                if attr not in keepers:
                    continue
                cls = an.vartype(fn, o)
                if cls is not None and cls not in {
                        f.cls if f.cls else an.vartype(f, oo)
                        for _, f, _ in keepers[attr]
                        for oo in ('self', 'cmesh')}:
                    continue
                ids = st['k'].get((o, attr), frozenset())
                ctx.count('assignments of held arrays')
                if not any((o, i) in stored for i in ids):
                    ctx.violation(
                        'stale:%s:%s:%s' % (rel, fn.qual, attr),
                        '%s.%s holds an array that native data point into,'
                        ' it is replaced in %s() without updating the'
                        ' address' % (o, attr, fn.name), fn.where())
    for c in an.classes.values():
        for attr, vis in c.objs.items():
            if attr in keepers and vis == 'public' \
               and c.name != 'CConnectivity':
                ctx.violation('public:%s.%s' % (c.name, attr),
                              '%s.%s holds an array that native data point'
                              ' into, but can be replaced from Python'
                              % (c.name, attr), c.name)
    view_rules(ctx, an)
    borrowed_calls(ctx, borrowing)
    ctx.note('attributes holding arrays: %s' % ', '.join(sorted(keepers)))
    ctx.note('classes borrowing arguments: %s' % ', '.join(
        '%s(%s)' % (c, ', '.join(sorted(b[0])))
        for c, b in sorted(borrowing.items())))
    ctx.floor('addresses stored in native data', 20)
    ctx.floor('Cython functions analysed', 100)
    ctx.floor('views of native memory checked', 3)
    ctx.floor('helpers storing addresses', 4)


def fn_params(fn):
    return [a.name for a in fn.args if a.name != 'self']


def has_keepers(an, cls):
    c = an.classes.get(cls)
    return c is not None and any(t not in SCAL for t in c.types.values())
