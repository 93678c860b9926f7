"""
C front end: clang's AST (JSON) reduced to a small tree, and per-function CFGs.
"""
import json
import os
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

from .core import AnalysisBroken

INC = ['sfepy/discrete/common/extmods', 'sfepy/terms/extmods',
       'sfepy/discrete/fem/extmods', 'sfepy/discrete/iga/extmods',
       'sfepy/mechanics/extmods']
SKIP = {'lobatto1d_template.c'}  # included elsewhere / template
HERE = os.path.dirname(os.path.abspath(__file__))

_cfg = {}


def py_includes():
    if 'inc' not in _cfg:
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = 'python3'
        out = subprocess.run(
            [py, '-c', 'import sysconfig, os, importlib.util as u;'
             'print(sysconfig.get_paths()["include"]);'
             's=u.find_spec("numpy");p=os.path.dirname(s.origin);'
             'c=[os.path.join(p,q,"include") for q in ("_core","core")];'
             'print([q for q in c if os.path.isdir(q)][0])'],
            capture_output=True, text=True)
        if out.returncode != 0:
            raise AnalysisBroken('no Python/numpy headers: ' + out.stderr)
        _cfg['inc'] = out.stdout.split()
    return _cfg['inc']


class N:
    """Reduced AST node."""
    __slots__ = ('k', 'c', 'name', 'op', 'type', 'val', 'ref', 'refkind',
                 'line', 'post', 'id', 'label', 'has_init', 'has_else',
                 'slots', 'storage', 'arrow', 'target')

    def __init__(self, k):
        self.k = k
        self.c = []
        self.name = self.op = self.type = self.val = None
        self.ref = self.refkind = None
        self.line = 0
        self.post = False
        self.id = None
        self.label = None
        self.has_init = self.has_else = False
        self.slots = None
        self.storage = None
        self.arrow = False
        self.target = None

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed([x for x in n.c if x is not None]))

    def text(self):
        return render(self)

    def __repr__(self):
        return '<%s %s>' % (self.k, self.text())


STRIP = {'ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr',
         'ExprWithCleanups', 'CStyleCastExpr', 'AttributedStmt'}


def render(n):
    if n is None:
        return ''
    k = n.k
    c = n.c
    if k == 'DeclRefExpr':
        return n.name
    if k in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral',
             'CharacterLiteral'):
        return str(n.val)
    if k == 'MemberExpr':
        return '%s%s%s' % (render(c[0]), '->' if n.arrow else '.', n.name)
    if k == 'ArraySubscriptExpr':
        return '%s[%s]' % (render(c[0]), render(c[1]))
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        return '(%s %s %s)' % (render(c[0]), n.op, render(c[1]))
    if k == 'UnaryOperator':
        if n.post:
            return '(%s%s)' % (render(c[0]), n.op)
        return '(%s%s)' % (n.op, render(c[0]))
    if k == 'CallExpr':
        return '%s(%s)' % (render(c[0]), ', '.join(render(x) for x in c[1:]))
    if k == 'ConditionalOperator':
        return '(%s ? %s : %s)' % tuple(render(x) for x in c)
    if k == 'UnaryExprOrTypeTraitExpr':
        return 'sizeof(%s)' % (n.val or ''.join(render(x) for x in c))
    if k == 'VarDecl':
        return '%s %s%s' % (n.type, n.name,
                            ' = ' + render(c[0]) if c else '')
    if k == 'ReturnStmt':
        return 'return %s' % (render(c[0]) if c else '')
    return '%s(%s)' % (k, ', '.join(render(x) for x in c))


def _reduce(j, st, line):
    """`st` carries the last seen line (clang omits repeated locations)."""
    k = j.get('kind')
    rng = j.get('range', {}).get('begin', {})
    ln = None
    for key in ('expansionLoc', None):
        d = rng.get(key, rng) if key else rng
        if isinstance(d, dict) and 'line' in d:
            ln = d['line']
            break
    if k is None:
        return None
    inner = j.get('inner', [])
    if k in STRIP:
        kids = [x for x in inner if x.get('kind')
                and not x['kind'].endswith('Attr')]
        if len(kids) == 1:
            return _reduce(kids[0], st, line)
    n = N(k)
    n.line = j.get('_line', line)
    n.id = j.get('id')
    n.name = j.get('name')
    n.op = j.get('opcode')
    n.post = bool(j.get('isPostfix'))
    n.type = (j.get('type') or {}).get('qualType')
    n.val = j.get('value')
    n.storage = j.get('storageClass')
    n.arrow = bool(j.get('isArrow'))
    if k == 'UnaryExprOrTypeTraitExpr':
        n.val = (j.get('argType') or {}).get('qualType')
    if k == 'DeclRefExpr':
        rd = j.get('referencedDecl', {})
        n.name = rd.get('name')
        n.ref = rd.get('id')
        n.refkind = rd.get('kind')
    if k == 'GotoStmt':
        n.target = j.get('targetLabelDeclId')
    if k == 'LabelStmt':
        n.label = j.get('declId')
    if k == 'VarDecl':
        n.has_init = 'init' in j
    if k == 'IfStmt':
        n.has_else = bool(j.get('hasElse'))
    kids = []
    for x in inner:
        if not x or 'kind' not in x:
            kids.append(None)   # empty slot of a ForStmt
            continue
        if x['kind'].endswith(('Comment', 'Attr')):
            continue
        kids.append(_reduce(x, st, n.line))
    n.c = kids
    return n


def _annotate_lines(j, st):
    """Propagate line numbers: clang prints `line` only when it changes."""
    # The printer walks: loc, range.begin, range.end, then inner.
    def see(loc):
        if not isinstance(loc, dict):
            return None
        if 'spellingLoc' in loc or 'expansionLoc' in loc:
            # order of printing: spellingLoc then expansionLoc
            s = loc.get('spellingLoc', {})
            if 'file' in s:
                st['file'] = s['file']
            if 'line' in s:
                st['line'] = s['line']
            e = loc.get('expansionLoc', {})
            if 'file' in e:
                st['file'] = e['file']
            if 'line' in e:
                st['line'] = e['line']
            return st['line'] if e else None
        if 'offset' not in loc and 'line' not in loc:
            return None
        if 'file' in loc:
            st['file'] = loc['file']
        if 'line' in loc:
            st['line'] = loc['line']
        return st['line']

    see(j.get('loc'))
    r = j.get('range', {})
    ln = see(r.get('begin'))
    j['_line'] = ln if ln is not None else st['line']
    j['_file'] = st['file']
    see(r.get('end'))
    for x in j.get('inner', ()):
        if x:
            _annotate_lines(x, st)


class Func:
    def __init__(self, name, file, node, params, body, rtype, static):
        self.name = name
        self.file = file
        self.node = node
        self.params = params   # [(name, type, id)]
        self.body = body
        self.rtype = rtype
        self.static = static
        self.line = node.line

    def where(self, n=None):
        return '%s:%d (%s)' % (self.file, (n or self.node).line, self.name)


def parse_file(args):
    repo, rel, extra = args
    sys.setrecursionlimit(20000)
    cmd = ['clang', '-fsyntax-only', '-Xclang', '-ast-dump=json',
           '-Wno-everything', '-D__SDIR__="x"', '-std=gnu11']
    for d in extra['defs']:
        cmd.append('-D' + d)
    for d in INC:
        cmd += ['-I', os.path.join(repo, d)]
    for d in extra['inc']:
        cmd += ['-isystem', d]
    cmd += ['-idirafter', os.path.join(HERE, 'cstubs')]
    cmd.append(os.path.join(repo, rel))
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        return rel, None, None, p.stderr.decode()[-2000:]
    tu = json.loads(p.stdout)
    st = {'line': 0, 'file': ''}
    funcs = {}
    protos = {}
    repo_abs = os.path.realpath(repo) + '/'
    globs = []
    for d in tu.get('inner', ()):
        _annotate_lines(d, st)
        f = d['_file']
        fr = os.path.realpath(f) if f else ''
        if not fr.startswith(repo_abs):
            continue
        frel = fr[len(repo_abs):]
        if d['kind'] == 'FunctionDecl':
            n = _reduce(d, None, d['_line'])
            params = [(x.name, x.type, x.id) for x in n.c
                      if x is not None and x.k == 'ParmVarDecl']
            body = [x for x in n.c if x is not None and x.k == 'CompoundStmt']
            rtype = n.type.split('(')[0].strip()
            fn = Func(n.name, frel, n, params, body[0] if body else None,
                      rtype, n.storage == 'static')
            if body:
                funcs[n.name] = fn
            else:
                protos[n.name] = fn
        elif d['kind'] in ('VarDecl', 'RecordDecl', 'TypedefDecl'):
            n = _reduce(d, None, d['_line'])
            globs.append((frel, n))
    return rel, funcs, (protos, globs), None


def c_files(repo):
    out = []
    for d in INC:
        full = os.path.join(repo, d)
        if not os.path.isdir(full):
            continue
        for f in sorted(os.listdir(full)):
            if f.endswith('.c') and f not in SKIP:
                # Cython-generated files are not sources.
                if os.path.exists(os.path.join(full, f[:-2] + '.pyx')):
                    continue
                out.append(os.path.join(d, f))
    return out


class Program:
    def __init__(self, repo, files=None, defs=()):
        self.repo = repo
        files = files or c_files(repo)
        if not files:
            raise AnalysisBroken('no C sources found')
        extra = {'defs': list(defs), 'inc': py_includes()}
        self.funcs = {}
        self.by_file = {}
        self.protos = {}
        self.globals = {}
        with ProcessPoolExecutor(8) as ex:
            for rel, funcs, rest, err in ex.map(
                    parse_file, [(repo, f, extra) for f in files]):
                if funcs is None:
                    raise AnalysisBroken('clang cannot parse %s:\n%s'
                                         % (rel, err))
                protos, globs = rest
                self.by_file[rel] = funcs
                self.globals[rel] = globs
                self.protos.update(protos)
                for name, fn in funcs.items():
                    if name in self.funcs and not fn.static:
                        # header inline functions repeat: same file is fine.
                        pass
                    self.funcs[name] = fn

    def func(self, name, file=None):
        if file and name in self.by_file.get(file, {}):
            return self.by_file[file][name]
        return self.funcs.get(name)


# --------------------------------------------------------------------------
# CFG

class Blk:
    """CFG node: one simple statement or one condition."""
    __slots__ = ('i', 'kind', 'node', 'succ', 'ast')

    def __init__(self, i, kind, node):
        self.i = i
        self.kind = kind      # 'stmt' 'cond' 'entry' 'exit' 'return' 'switch'
        self.node = node
        self.succ = []        # [(label, target)]


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.blks = []
        self.labels = {}
        self.gotos = []
        self.exit = self._new('exit', None)
        self.entry = self._new('entry', None)
        outs = self._stmt(fn.body, [(self.entry, None)], None, None)
        for b, lab in outs:
            b.succ.append((lab, self.exit))
        for b, target in self.gotos:
            if target not in self.labels:
                raise AnalysisBroken('goto to unknown label in %s' % fn.name)
            b.succ.append((None, self.labels[target]))
        self.preds = {}
        for b in self.blks:
            for lab, t in b.succ:
                self.preds.setdefault(t.i, []).append((lab, b))

    def _new(self, kind, node):
        b = Blk(len(self.blks), kind, node)
        self.blks.append(b)
        return b

    @staticmethod
    def _link(ins, b):
        for p, lab in ins:
            p.succ.append((lab, b))

    def _cond(self, n, ins):
        """Short-circuit evaluation; returns (true outs, false outs)."""
        if n is not None and n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            t1, f1 = self._cond(n.c[0], ins)
            if n.op == '&&':
                t2, f2 = self._cond(n.c[1], t1)
                return t2, f1 + f2
            t2, f2 = self._cond(n.c[1], f1)
            return t1 + t2, f2
        if n is not None and n.k == 'UnaryOperator' and n.op == '!':
            t, f = self._cond(n.c[0], ins)
            return f, t
        if n is None:
            return ins, []
        if n.k == 'IntegerLiteral':
            if str(n.val) == '0':
                return [], ins
            return ins, []
        b = self._new('cond', n)
        self._link(ins, b)
        return [(b, True)], [(b, False)]

    def _stmt(self, n, ins, brk, cont):
        """`brk`/`cont`: lists collecting break/continue edges."""
        if n is None:
            return ins
        k = n.k
        if k == 'CompoundStmt':
            for x in n.c:
                ins = self._stmt(x, ins, brk, cont)
            return ins
        if k == 'IfStmt':
            cond, then = n.c[0], n.c[1]
            els = n.c[2] if len(n.c) > 2 else None
            t, f = self._cond(cond, ins)
            o1 = self._stmt(then, t, brk, cont)
            o2 = self._stmt(els, f, brk, cont) if els is not None else f
            return o1 + o2
        if k == 'ForStmt':
            init, _, cond, inc, body = n.c
            ins = self._stmt(init, ins, brk, cont)
            head = self._new('loop', n)
            self._link(ins, head)
            t, f = self._cond(cond, [(head, None)])
            b2, c2 = [], []
            o = self._stmt(body, t, b2, c2)
            o = self._stmt(inc, o + c2, b2, c2)
            self._link(o, head)
            return f + b2
        if k == 'WhileStmt':
            cond, body = n.c[-2], n.c[-1]
            head = self._new('loop', n)
            self._link(ins, head)
            t, f = self._cond(cond, [(head, None)])
            b2, c2 = [], []
            o = self._stmt(body, t, b2, c2)
            self._link(o + c2, head)
            return f + b2
        if k == 'DoStmt':
            body, cond = n.c
            b2, c2 = [], []
            const0 = cond.k == 'IntegerLiteral' and str(cond.val) == '0'
            if const0:
                o = self._stmt(body, ins, b2, c2)
                return o + c2 + b2
            head = self._new('loop', n)
            self._link(ins, head)
            o = self._stmt(body, [(head, None)], b2, c2)
            t, f = self._cond(cond, o + c2)
            self._link(t, head)
            return f + b2
        if k == 'SwitchStmt':
            cond, body = n.c[-2], n.c[-1]
            sw = self._new('switch', cond)
            self._link(ins, sw)
            b2 = []
            cases = []
            has_default = [False]

            def flat(x, cur):
                # returns fallthrough outs
                if x is not None and x.k in ('CaseStmt', 'DefaultStmt'):
                    if x.k == 'CaseStmt':
                        lab = ('case', render(x.c[0]))
                        sub = x.c[-1]
                    else:
                        lab = ('default',)
                        has_default[0] = True
                        sub = x.c[-1] if x.c else None
                    cases.append(lab)
                    return flat(sub, cur + [(sw, lab)])
                return self._stmt(x, cur, b2, cont)

            cur = []
            for x in (body.c if body.k == 'CompoundStmt' else [body]):
                cur = flat(x, cur)
            outs = cur + b2
            if not has_default[0]:
                outs = outs + [(sw, ('nocase',))]
            return outs
        if k == 'LabelStmt':
            b = self._new('stmt', None)
            self._link(ins, b)
            self.labels[n.label] = b
            return self._stmt(n.c[0] if n.c else None, [(b, None)], brk, cont)
        if k == 'GotoStmt':
            b = self._new('goto', n)
            self._link(ins, b)
            self.gotos.append((b, n.target))
            return []
        if k == 'BreakStmt':
            brk.extend(ins)
            return []
        if k == 'ContinueStmt':
            cont.extend(ins)
            return []
        if k == 'ReturnStmt':
            b = self._new('return', n)
            self._link(ins, b)
            b.succ.append((None, self.exit))
            return []
        if k == 'NullStmt':
            return ins
        if k == 'DeclStmt':
            for x in n.c:
                b = self._new('stmt', x)
                self._link(ins, b)
                ins = [(b, None)]
            return ins
        # expression statement; lift ?: and && into plain evaluation
        b = self._new('stmt', n)
        self._link(ins, b)
        return [(b, None)]


def calls(n):
    for x in n.walk():
        if x.k == 'CallExpr' and x.c and x.c[0].k == 'DeclRefExpr':
            yield x.c[0].name, x


def base_var(n):
    """(root DeclRefExpr, access path text) of an lvalue-like expression."""
    while n is not None:
        if n.k == 'DeclRefExpr':
            return n
        if n.k in ('MemberExpr', 'ArraySubscriptExpr'):
            n = n.c[0]
        elif n.k == 'UnaryOperator' and n.op in ('*', '&'):
            n = n.c[0]
        else:
            return None
    return None


def assigned(n):
    """Yield (lvalue, rhs or None) for every assignment/inc in the tree."""
    for x in n.walk():
        if x.k == 'BinaryOperator' and x.op == '=':
            yield x.c[0], x.c[1], x
        elif x.k == 'CompoundAssignOperator':
            yield x.c[0], None, x
        elif x.k == 'UnaryOperator' and x.op in ('++', '--'):
            yield x.c[0], None, x
        elif x.k == 'VarDecl' and x.c:
            pass
