"""
Python front end: modules, imports, classes with linearised bases, functions,
name resolution.  Parses only; nothing of the repository is imported.
"""
import ast
import warnings
import os

from .core import AnalysisBroken

SKIP_DIRS = {'tests', 'examples', '__pycache__', 'doc'}
_cache = {}


class Module:
    def __init__(self, name, rel, tree, text, is_pkg):
        self.name = name
        self.rel = rel
        self.tree = tree
        self.text = text
        self.is_pkg = is_pkg
        self.imports = {}      # local name -> dotted target
        self.stars = []        # dotted modules
        self.defs = {}         # name -> Func
        self.classes = {}      # name -> Class
        self.assigns = {}      # name -> [value node]
        self.funcs = []        # all functions, nested too

    def __repr__(self):
        return '<mod %s>' % self.name


class Func:
    def __init__(self, module, node, cls, outer):
        self.module = module
        self.node = node
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        parts = []
        if outer is not None:
            parts.append(outer.qual)
        elif cls is not None:
            parts.append(cls.name)
        parts.append(self.name)
        self.qual = '.'.join(parts)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.n_default = len(a.defaults)
        self.deco = [ast.unparse(d) for d in
                     getattr(node, 'decorator_list', [])]

    @property
    def rel(self):
        return self.module.rel

    def _wrapped(self, how):
        """`name = staticmethod(name)` in the class body."""
        if self.cls is None or self.outer is not None:
            return False
        v = self.cls.attrs.get(self.name)
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
            and v.func.id == how

    @property
    def is_static(self):
        return 'staticmethod' in self.deco or self._wrapped('staticmethod')

    @property
    def is_classmethod(self):
        return 'classmethod' in self.deco or self._wrapped('classmethod')

    @property
    def body(self):
        return self.node.body

    def all_params(self):
        out = self.params + self.kwonly
        if self.vararg:
            out.append(self.vararg)
        if self.kwarg:
            out.append(self.kwarg)
        return out

    def where(self, n=None):
        return '%s:%d (%s)' % (self.rel, (n or self.node).lineno, self.qual)

    def __repr__(self):
        return '<func %s:%s>' % (self.rel, self.qual)


class Class:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}        # class-level name -> value node (last)
        self.attr_nodes = []
        self.bases = []        # Class or dotted string
        self._mro = None

    @property
    def rel(self):
        return self.module.rel

    def where(self, n=None):
        return '%s:%d (class %s)' % (self.rel, (n or self.node).lineno,
                                     self.name)

    def mro(self):
        if self._mro is None:
            self._mro = [self]   # guard against cycles
            seqs = [list(b.mro()) for b in self.bases
                    if isinstance(b, Class)]
            seqs.append([b for b in self.bases if isinstance(b, Class)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def find(self, name):
        """Method by MRO."""
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return None
        return None

    def find_attr(self, name):
        """(class, value node) of a class attribute by MRO."""
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def external_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, Class)]
        return out

    def __repr__(self):
        return '<class %s.%s>' % (self.module.name, self.name)


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None


class PyProgram:
    def __init__(self, repo, root='sfepy', skip=SKIP_DIRS):
        self.repo = repo
        self.modules = {}
        base = os.path.join(repo, root)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                with open(path, encoding='utf-8') as fd:
                    text = fd.read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(text, rel)
                except SyntaxError as exc:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, exc))
                name = rel[:-3].replace(os.sep, '.')
                pkg = False
                if name.endswith('.__init__'):
                    name = name[:-9]
                    pkg = True
                self.modules[name] = Module(name, rel, tree, text, pkg)
        if len(self.modules) < 80:
            raise AnalysisBroken('only %d Python modules' % len(self.modules))
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    t = self.resolve_expr(m, b)
                    if isinstance(t, Class) and t is not c:
                        c.bases.append(t)
                    else:
                        c.bases.append(dotted(b) or ast.unparse(b))
        self.subs = {}
        for c in self.all_classes():
            for k in c.mro()[1:]:
                self.subs.setdefault(k, []).append(c)

    # -- collection ------------------------------------------------------
    def _collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports.setdefault(a.name.split('.')[0],
                                             a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    up = n.level - (1 if m.is_pkg else 0)
                    parts = parts[:len(parts) - up] if up else parts
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(mod)
                    else:
                        m.imports[a.asname or a.name] = mod + '.' + a.name
        self._scope(m, m.tree.body, None, None)

    def _scope(self, m, body, cls, outer):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, n, cls, outer)
                m.funcs.append(f)
                if outer is None:
                    if cls is None:
                        m.defs[f.name] = f
                    else:
                        cls.methods[f.name] = f
                self._scope(m, n.body, None, f)
            elif isinstance(n, ast.ClassDef):
                if outer is None and cls is None:
                    c = Class(m, n)
                    m.classes[n.name] = c
                    self._scope(m, n.body, c, None)
                else:
                    c = Class(m, n)
                    c.name = ('%s.' % (outer.qual if outer else cls.name)
                              + n.name)
                    m.classes.setdefault(c.name, c)
                    self._scope(m, n.body, c, None)
            else:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) \
                   and outer is None and n.value is not None:
                    ts = n.targets if isinstance(n, ast.Assign) \
                        else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Name):
                            if cls is None:
                                m.assigns.setdefault(t.id, []).append(n.value)
                            else:
                                cls.attrs[t.id] = n.value
                                cls.attr_nodes.append((t.id, n))
                for sub in ('body', 'orelse', 'finalbody'):
                    v = getattr(n, sub, None)
                    if isinstance(v, list):
                        self._scope(m, v, cls, outer)
                for h in getattr(n, 'handlers', []):
                    self._scope(m, h.body, cls, outer)

    # -- queries -----------------------------------------------------------
    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs

    def cls(self, name):
        """Class by bare name (must be unique) or dotted name."""
        if '.' in name:
            t = self.resolve_dotted(name)
            return t if isinstance(t, Class) else None
        hits = [c for c in self.all_classes() if c.name == name]
        return hits[0] if hits else None

    def subclasses(self, c, strict=False):
        out = list(self.subs.get(c, []))
        return out if strict else [c] + out

    def resolve_dotted(self, name, depth=0):
        """Dotted absolute name -> Module/Class/Func/str."""
        if depth > 8:
            return name
        if name in self.modules:
            return self.modules[name]
        head, _, tail = name.rpartition('.')
        if not head:
            return name
        if head in self.modules:
            return self.resolve_name(self.modules[head], tail, depth + 1,
                                     default=name)
        t = self.resolve_dotted(head, depth + 1)
        if isinstance(t, Class):
            f = t.find(tail)
            return f if f is not None else name
        if isinstance(t, Module):
            return self.resolve_name(t, tail, depth + 1, default=name)
        return name

    def resolve_name(self, m, name, depth=0, default=None):
        if name in m.classes:
            return m.classes[name]
        if name in m.defs:
            return m.defs[name]
        if name in m.imports:
            tgt = m.imports[name]
            if tgt == m.name + '.' + name:
                return tgt
            return self.resolve_dotted(tgt, depth + 1)
        for s in m.stars:
            if s in self.modules and depth < 8:
                r = self.resolve_name(self.modules[s], name, depth + 1)
                if r is not None:
                    return r
        sub = m.name + '.' + name
        if sub in self.modules:
            return self.modules[sub]
        return default

    def resolve_expr(self, m, n):
        d = dotted(n)
        if d is None:
            return None
        head, *rest = d.split('.')
        t = self.resolve_name(m, head)
        for r in rest:
            if isinstance(t, Module):
                t = self.resolve_name(t, r, default=t.name + '.' + r)
            elif isinstance(t, Class):
                f = t.find(r)
                t = f if f is not None else '%s.%s' % (t.name, r)
            elif isinstance(t, str):
                t = t + '.' + r
            else:
                return None
        return t

    def absolute(self, m, n):
        """Absolute dotted name of a Name/Attribute chain, or None."""
        d = n if isinstance(n, str) else dotted(n)
        if d is None:
            return None
        head, *rest = d.split('.')
        t = self.resolve_name(m, head)
        if isinstance(t, Module):
            base = t.name
        elif isinstance(t, (Class, Func)):
            base = '%s.%s' % (t.module.name, t.name)
        elif isinstance(t, str):
            base = t
        else:
            return None
        return '.'.join([base] + rest)


def load(repo, **kw):
    key = (repo, tuple(sorted(kw.items())))
    if key not in _cache:
        _cache[key] = PyProgram(repo, **kw)
    return _cache[key]


def own_nodes(fn):
    """Nodes of a function (or statement list) without nested scopes."""
    body = fn if isinstance(fn, list) else \
        (fn.body if isinstance(fn.body, list) else [fn.body])
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def call_name(c):
    """Last component of the called name."""
    if isinstance(c.func, ast.Attribute):
        return c.func.attr
    if isinstance(c.func, ast.Name):
        return c.func.id
    return None


def const_str(n):
    return n.value if isinstance(n, ast.Constant) \
        and isinstance(n.value, str) else None
