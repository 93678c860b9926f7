"""Cython front end: parsed .pyx/.pxd trees, extern declarations, functions."""
import json
import os
import subprocess

from .core import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
META = ('t', 'line')


class X:
    """Tree node."""
    def __init__(self, d):
        self.t = d['t']
        self.line = d['line']
        self.d = {}
        self.kids = []
        for k, v in d.items():
            if k in META:
                continue
            if isinstance(v, dict) and 't' in v:
                v = X(v)
                self.kids.append(v)
            elif isinstance(v, list):
                v = [X(x) if isinstance(x, dict) and 't' in x else x
                     for x in v]
                self.kids.extend(x for x in v if isinstance(x, X))
            self.d[k] = v

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self.d.get(name)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def text(self):
        return xtext(self)


def xtext(n):
    if n is None:
        return ''
    if not isinstance(n, X):
        return str(n)
    t = n.t
    if t == 'NameNode':
        return n.name
    if t == 'AttributeNode':
        return '%s.%s' % (xtext(n.obj), n.attribute)
    if t in ('IntNode', 'FloatNode', 'UnicodeNode', 'StringNode', 'BytesNode',
             'BoolNode'):
        return str(n.value if n.value is not None else n.unicode_value)
    if t == 'NullNode':
        return 'NULL'
    if t == 'NoneNode':
        return 'None'
    if t == 'AmpersandNode':
        return '&' + xtext(n.operand)
    if t == 'IndexNode':
        return '%s[%s]' % (xtext(n.base), xtext(n.index))
    if t == 'SimpleCallNode':
        return '%s(%s)' % (xtext(n.function),
                           ', '.join(xtext(a) for a in n.args or []))
    if t == 'GeneralCallNode':
        return '%s(...)' % xtext(n.function)
    if t == 'TypecastNode':
        return xtext(n.operand)
    if n.operator and n.operand1 is not None:
        return '(%s %s %s)' % (xtext(n.operand1), n.operator,
                               xtext(n.operand2))
    if n.operator and n.operand is not None:
        return '%s%s' % (n.operator, xtext(n.operand))
    return '%s(%s)' % (t, ', '.join(xtext(k) for k in n.kids))


def decl_name(d):
    """(name, pointer depth, array dims, cname, func declarator or None)."""
    ptr = 0
    arr = 0
    fn = None
    while d is not None and d.t != 'CNameDeclaratorNode':
        if d.t == 'CPtrDeclaratorNode':
            ptr += 1
        elif d.t == 'CArrayDeclaratorNode':
            arr += 1
        elif d.t == 'CFuncDeclaratorNode':
            if fn is None:
                fn = d
        d = d.base
    if d is None:
        return None, ptr, arr, None, fn
    return d.name, ptr, arr, d.cname, fn


def type_name(b):
    """Textual base type."""
    if b is None:
        return None
    if b.t == 'CSimpleBaseTypeNode':
        return b.name
    if b.t == 'CComplexBaseTypeNode':
        _, ptr, arr, _, _ = decl_name(b.declarator)
        return type_name(b.base_type) + ' ' + '*' * (ptr + arr)
    if b.t == 'TemplatedTypeNode':
        base = type_name(b.base_type_node)
        pos = [xtext(x) if x.t != 'CSimpleBaseTypeNode' else x.name
               for x in b.positional_args or []]
        return '%s<%s>' % (base, ','.join(pos))
    if b.t == 'MemoryViewSliceTypeNode':
        return 'memview<%s,%d>' % (type_name(b.base_type_node),
                                   len(b.axes or []))
    if b.t == 'CConstTypeNode' or b.t == 'CConstOrVolatileTypeNode':
        return type_name(b.base_type)
    return b.t


class Extern:
    def __init__(self, alias, cname, rtype, args, line, header):
        self.alias = alias
        self.cname = cname
        self.rtype = rtype
        self.args = args      # [(name, type text)]
        self.line = line
        self.header = header


class PyxArg:
    def __init__(self, node):
        name, ptr, arr, _, _ = decl_name(node.declarator)
        base = type_name(node.base_type)
        if not name:
            # untyped argument: parser puts the name into the base type
            name, base = base, None
        self.name = name
        self.ptr = ptr
        self.arr = arr
        self.base = base
        self.bnode = node.base_type
        self.not_none = bool(node.not_none)
        self.default = node.default

    @property
    def typed(self):
        return self.base is not None


class PyxFunc:
    def __init__(self, rel, node, cls, kind):
        self.file = rel
        self.node = node
        self.cls = cls
        self.kind = kind          # 'def', 'cdef', 'cpdef'
        if kind == 'def':
            self.name = node.name
            args = node.args or []
            self.exc = None
        else:
            name, _, _, _, fn = decl_name(node.declarator)
            self.name = name
            args = (fn.args or []) if fn is not None else []
            self.exc = fn
        self.args = [PyxArg(a) for a in args]
        self.line = node.line

    @property
    def qual(self):
        return '%s.%s' % (self.cls, self.name) if self.cls else self.name

    def where(self, n=None):
        return '%s:%d (%s)' % (self.file, (n or self).line, self.qual)


class PyxProgram:
    def __init__(self, repo):
        self.repo = repo
        files = []
        for base, dirs, fs in os.walk(os.path.join(repo, 'sfepy')):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(('.pyx', '.pxd')):
                    files.append(os.path.join(base, f))
        if not files:
            raise AnalysisBroken('no Cython sources')
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = 'python3'
        p = subprocess.run([py, os.path.join(HERE, 'pyxdump.py')] + files,
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise AnalysisBroken('Cython parser failed: ' + p.stderr[-1500:])
        data = json.loads(p.stdout)
        self.trees = {}
        self.externs = {}      # file -> {alias: Extern}
        self.funcs = {}        # file -> [PyxFunc]
        self.cimports = {}
        for path, d in data.items():
            rel = os.path.relpath(path, repo)
            if 'error' in d:
                raise AnalysisBroken('cannot parse %s: %s' % (rel, d['error']))
            t = X(d)
            self.trees[rel] = t
            self.externs[rel] = {}
            self.funcs[rel] = []
            self.cimports[rel] = []
            self._collect(rel, t.body, None)

    def _collect(self, rel, n, cls):
        if n is None:
            return
        if n.t == 'StatListNode':
            for s in n.stats or []:
                self._collect(rel, s, cls)
        elif n.t == 'CDefExternNode':
            self._extern(rel, n.body, n.include_file)
        elif n.t in ('FromCImportStatNode', 'CImportStatNode'):
            self.cimports[rel].append(n)
        elif n.t == 'DefNode':
            self.funcs[rel].append(PyxFunc(rel, n, cls, 'def'))
        elif n.t == 'CFuncDefNode':
            self.funcs[rel].append(PyxFunc(rel, n, cls, 'cdef'))
        elif n.t in ('CClassDefNode', 'PyClassDefNode'):
            self._collect(rel, n.body, n.class_name or n.name)
        elif n.t == 'CompilerDirectivesNode':
            self._collect(rel, n.body, cls)
        elif n.t in ('IfStatNode',):
            pass

    def _extern(self, rel, n, header):
        if n is None:
            return
        if n.t == 'StatListNode':
            for s in n.stats or []:
                self._extern(rel, s, header)
        elif n.t == 'CVarDefNode':
            for d in n.declarators or []:
                name, ptr, arr, cname, fn = decl_name(d)
                if fn is None:
                    continue
                args = []
                for a in fn.args or []:
                    pa = PyxArg(a)
                    ty = pa.base or pa.name
                    args.append((pa.name,
                                 ty + (' ' + '*' * (pa.ptr + pa.arr)
                                       if pa.ptr + pa.arr else '')))
                rt = type_name(n.base_type)
                self.externs[rel][name] = Extern(name, cname or name, rt,
                                                 args, d.line, header)

    def extern_of(self, rel, name):
        """Resolve a called name in `rel` to an Extern (own or cimported)."""
        short = name.split('.')[-1]
        e = self.externs[rel].get(short)
        if e is not None:
            return e
        for f, ex in self.externs.items():
            if f.endswith('.pxd') and short in ex:
                return ex[short]
        return None


def stmts(n):
    """All nodes that are statements/expressions within a function body."""
    return n.walk()


def calls(n):
    for x in n.walk():
        if x.t in ('SimpleCallNode',):
            yield xtext(x.function), x
