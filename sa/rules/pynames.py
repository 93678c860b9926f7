"""P01, P02: names, imports, internal calls and message formats."""
import ast
import string

from .. import pyfe, unbound
from ..pyfe import Class, Func, Module
from ..unbound import BUILTINS, COMPS, scope_nodes, target_names
from .pyxmem import program as pyx_program

P01_EXPLANATION = (
    'Every name used by every Python function is resolved through its scopes'
    ' (locals, enclosing functions, module, builtins); names of no scope are'
    ' violations. Local names are followed by a path-sensitive definite'
    ' assignment analysis: structured control flow with exceptions, facts'
    ' about repeated tests, constant flags and zero-based counters; a path on'
    ' which a name is used before it is assigned, or after it is deleted, is'
    ' a violation.')
P01_RULE = ('one obligation per function (undefined names) and per local name'
            ' whose assignment is not trivially dominating its uses')
P01_ASSUMPTIONS = [
    '`for` loops over data run at least once',
    'a selector has one of the values that its function compares it with',
    'an assignment executed by exec() or globals() is not seen']

P02_EXPLANATION = (
    'Every import of an internal name, every attribute of an internal module,'
    ' every call of an internal function, class or method that can be resolved'
    ' statically, and every format string with literal arguments is compared'
    ' with the definition: the name has to exist, and the call has to bind to'
    ' the signature (number of arguments, keywords, missing arguments). A'
    ' method called through self is compared with all its implementations.')
P02_RULE = ('one obligation per import, module attribute, resolved call and'
            ' format expression')
P02_ASSUMPTIONS = ['calls with * or ** arguments are checked for the explicit'
                   ' part only', 'functions behind unknown decorators are not'
                   ' judged']

# (file, name): infeasible paths, with the reason
EXEMPT = {
    ('sfepy/base/ioutils.py', 'line'):
        'ii > n_item only after an iteration',
    ('sfepy/discrete/fem/fields_base.py', 'cmesh'):
        'a cache with cmesh has kdtree too: both are set here',
    ('sfepy/discrete/fem/fields_base.py', 'qp'):
        'used only if out is not None',
    ('sfepy/discrete/fem/mappings.py', 'det0'):
        'no facet gradients in 1D: ebf_g comes with se_conn or not at all',
    ('sfepy/discrete/fem/meshio.py', 'n_el'):
        'the header section precedes the groups in a valid NEU file',
    ('sfepy/discrete/fem/poly_spaces.py', 'V'):
        'the first iteration runs: error starts as infinity',
    ('sfepy/homogenization/coefs_phononic.py', 'kind'):
        'gap kinds 0, 1, 2 are covered',
    ('sfepy/homogenization/engine.py', 'save_name'):
        'only requirements have store_idxs',
    ('sfepy/homogenization/engine.py', 'tasks'):
        'the first pass has dependencies to process',
    ('sfepy/homogenization/engine.py', 'coefs'):
        'workers always return dependencies',
    ('sfepy/parallel/parallel.py', 'part_graph'):
        'guarded by use_metis',
    ('sfepy/terms/terms.py', 'name'):
        'the grammar yields d, tr kinds only',
    ('sfepy/terms/terms.py', 'step'):
        'the grammar yields d, tr kinds only',
    ('sfepy/terms/terms_multilinear.py', 'force'):
        'traction shapes are checked by arg_shapes',
}
SKIP_FILES = ('sfepy/version.py',)


def module_names(pp, m, seen=None):
    """Names bound at module level, or None when a star import is external."""
    out = set(m.defs) | set(m.imports_top) | {c for c in m.classes
                                             if '.' not in c}
    for n in scope_nodes(m.tree.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    return out


def top_imports(m):
    out = set()
    for n in scope_nodes(m.tree.body):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
    return out


class Names:
    def __init__(self, ctx, pp):
        self.ctx, self.pp = ctx, pp
        for m in pp.modules.values():
            m.imports_top = top_imports(m)
            m.top_names = module_names(pp, m)
            m.has_ext_star = any(s not in pp.modules for s in m.stars)
        for m in pp.modules.values():
            for s in m.stars:
                if s in pp.modules:
                    m.top_names |= pp.modules[s].top_names

    def undefined(self):
        # a NameError that is handled
        self.guarded = set()
        for m in self.pp.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Try) and any(
                        h.type is not None and 'NameError'
                        in ast.unparse(h.type) for h in n.handlers):
                    for b in n.body:
                        self.guarded |= {id(x) for x in ast.walk(b)}
        for m in self.pp.modules.values():
            if m.rel in SKIP_FILES or m.has_ext_star:
                continue
            self.scope(m, m.tree.body, [m.top_names], '<module>')

    def scope(self, m, body, scopes, qual, extra=frozenset()):
        """Check names of one scope, then of nested ones."""
        nested = []
        uses = set()
        seen = set()
        for n in scope_nodes(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if any(n.id in s for s in scopes) or n.id in BUILTINS \
                   or n.id in extra or id(n) in self.guarded:
                    continue
                k = n.id
                if k not in seen:
                    seen.add(k)
                    self.ctx.violation(
                        'P01:undefined:%s:%s:%s' % (m.rel, qual, k),
                        'name %s is not defined in any scope' % k,
                        '%s:%d (%s)' % (m.rel, n.lineno, qual))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
                nested.append(n)
        # lambdas in comprehensions see the comprehension's names
        lam = {}
        for n in body:
            for c in ast.walk(n):
                if isinstance(c, COMPS):
                    b = set()
                    for g in c.generators:
                        b |= set(target_names(g.target))
                    for x in ast.walk(c):
                        if isinstance(x, ast.Lambda):
                            lam.setdefault(id(x), set()).update(b)
                            if x not in nested and \
                               self.direct(body, x):
                                nested.append(x)
        for n in nested:
            q = getattr(n, 'name', '<lambda>')
            q = q if qual == '<module>' else qual + '.' + q
            if isinstance(n, ast.ClassDef):
                names = set()
                for x in scope_nodes(n.body):
                    if isinstance(x, ast.Name) and isinstance(x.ctx,
                                                              ast.Store):
                        names.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        names.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        names |= {(a.asname or a.name).split('.')[0]
                                  for a in x.names}
                self.scope(m, n.body, scopes, q, names)
                continue
            loc, _, _ = unbound.local_names(n)
            self.ctx.count('functions')
            b = n.body if isinstance(n.body, list) else [n.body]
            self.scope(m, b, scopes + [loc | lam.get(id(n), set())], q)

    @staticmethod
    def direct(body, lam):
        """Is the lambda in this scope, not in a nested function?"""
        stack = list(body)
        while stack:
            n = stack.pop()
            if n is lam:
                return True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    def makers(self):
        """Names of functions whose results are values of exempt names: parts
        extracted from the exempt functions."""
        out = set()
        for m in self.pp.modules.values():
            names = {n for rel, n in EXEMPT if rel == m.rel}
            if not names:
                continue
            for n in ast.walk(m.tree):
                if (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                    and any(isinstance(x, ast.Name) and x.id in names
                            for t in n.targets for x in ast.walk(t))):
                    fn = n.value.func
                    if isinstance(fn, ast.Name):
                        out.add((m.rel, fn.id))
                    elif isinstance(fn, ast.Attribute) and isinstance(
                            fn.value, ast.Name) and fn.value.id in ('self',
                                                                    'cls'):
                        out.add((m.rel, fn.attr))
        return out

    def unbound(self):
        makers = self.makers()
        for f in self.pp.all_funcs():
            if f.rel in SKIP_FILES:
                continue
            made = (f.rel, f.qual.rsplit('.', 1)[-1]) in makers

            def rep(x, facts, f=f, made=made):
                if x is None:
                    self.ctx.count('undecided_names')
                    return
                if (f.rel, x.id) in EXEMPT or made:
                    self.ctx.count('exempted')
                    return
                path = ', '.join(sorted('%s%s' % (k, self.fact(v))
                                        for k, v in facts)[:4])
                self.ctx.violation(
                    'P01:unbound:%s:%s:%s' % (f.rel, f.qual, x.id),
                    'local name %s may be used before assignment%s'
                    % (x.id, ' on a path with ' + path if path else ''),
                    f.where(x))

            n = unbound.analyse(f.node, rep)
            self.ctx.count('locals_with_paths', n)
            self.ctx.count('assignment_analyses')

    @staticmethod
    def fact(v):
        if v[0] in ('T', 'F'):
            return ' ' + {'T': 'true', 'F': 'false'}[v[0]]
        return ' %s %s' % ({'in': '==', 'out': '!='}[v[0]],
                           '/'.join(sorted(str(c[1]) for c in v[1])))


# -- P02 ---------------------------------------------------------------------

PYX_IMPLICIT = {'np', 'cython'}


class Calls:
    def __init__(self, ctx, pp, px):
        self.ctx, self.pp, self.px = ctx, pp, px
        self.pyx = {}
        for rel, fns in px.funcs.items():
            if not rel.endswith('.pyx'):
                continue
            mod = rel[:-4].replace('/', '.')
            d = self.pyx.setdefault(mod, {'funcs': {}, 'names': set(),
                                          'opaque': False})
            for f in fns:
                if f.cls:
                    d['names'].add(f.cls)
                elif f.kind == 'def' or f.node.overridable:
                    d['funcs'][f.name] = f
                    d['names'].add(f.name)
        self.defs_all = {}
        for f in pp.all_funcs():
            if f.outer is None and f.cls is None:
                self.defs_all.setdefault((f.module.name, f.name),
                                         []).append(f)
        self.methods_all = {}
        for f in pp.all_funcs():
            if f.outer is None and f.cls is not None:
                self.methods_all.setdefault((f.cls, f.name), []).append(f)
        self.by_method = {}
        for (k, name), fs in self.methods_all.items():
            self.by_method.setdefault(name, []).extend(
                (x, 0 if x.is_static else 1) for x in fs)
        for fns in px.funcs.values():
            for x in fns:
                if x.cls:
                    self.by_method.setdefault(x.name, []).append((x, 1))
        # attribute names stored anywhere (dynamic attributes)
        self.stored = set()
        for m in pp.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx,
                                                               ast.Store):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.keyword) and n.arg:
                    self.stored.add(n.arg)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    if n.value.isidentifier():
                        self.stored.add(n.value)
        self.in_func = {}

    # imports
    def imports(self):
        for m in self.pp.modules.values():
            if m.rel in SKIP_FILES:
                continue
            guarded = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Try):
                    for h in n.handlers:
                        t = ast.unparse(h.type) if h.type else ''
                        if not h.type or 'Import' in t or 'Module' in t \
                           or t == 'Exception':
                            for b in n.body:
                                guarded |= {id(x) for x in ast.walk(b)}
            for n in ast.walk(m.tree):
                if id(n) in guarded:
                    continue
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split('.')[0] == 'sfepy':
                            self.one_import(m, n, a.name, None)
                elif isinstance(n, ast.ImportFrom):
                    mod = n.module or ''
                    if n.level:
                        parts = m.name.split('.')
                        up = n.level - (1 if m.is_pkg else 0)
                        parts = parts[:len(parts) - up] if up else parts
                        mod = '.'.join(parts + ([mod] if mod else []))
                    if mod.split('.')[0] != 'sfepy':
                        continue
                    for a in n.names:
                        self.one_import(m, n, mod, a.name)

    def one_import(self, m, n, mod, name):
        self.ctx.count('internal_imports')
        where = '%s:%d' % (m.rel, n.lineno)
        if mod.startswith('sfepy.tests') or mod.startswith('sfepy.examples'):
            return
        if name == '*' or name is None:
            if mod not in self.pp.modules and mod not in self.pyx \
               and not self.is_pkg(mod):
                self.ctx.violation('P02:import:%s:%s' % (m.rel, mod),
                                   'module %s does not exist' % mod, where)
            return
        if self.has(mod, name):
            return
        self.ctx.violation('P02:import:%s:%s.%s' % (m.rel, mod, name),
                           'module %s defines no %s' % (mod, name), where)

    def is_pkg(self, mod):
        p = mod + '.'
        return any(x.startswith(p) for x in self.pp.modules) \
            or any(x.startswith(p) for x in self.pyx)

    def has(self, mod, name):
        full = mod + '.' + name
        if full in self.pp.modules or full in self.pyx or self.is_pkg(full):
            return True
        if full in ('sfepy.tests', 'sfepy.examples'):
            return True
        if mod in self.pyx:
            return name in self.pyx[mod]['names'] \
                or name in self.px_module_names(mod)
        if mod in self.pp.modules:
            mm = self.pp.modules[mod]
            return name in mm.top_names or mm.has_ext_star \
                or '__getattr__' in mm.defs \
                or name in ('__file__', '__name__', '__doc__') \
                or any('globals()' in ast.unparse(x) or 'locals()'
                       in ast.unparse(x) for x in mm.tree.body
                       if isinstance(x, (ast.Expr, ast.For)))
        if self.is_pkg(mod):
            return False
        return False

    def px_module_names(self, mod):
        return self.px.module_names.get(mod.replace('.', '/') + '.pyx',
                                        set()) \
            if hasattr(self.px, 'module_names') else set()

    # signature binding
    @staticmethod
    def fits(params, n_default, vararg, kwonly, kwonly_req, kwarg, call,
             drop):
        """None when the call may bind, else a message."""
        ps = params[drop:]
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
        if npos > len(ps) and not vararg:
            return 'takes at most %d positional arguments, %d given' \
                % (len(ps), npos)
        given = set(ps[:npos])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given and not star:
                return 'multiple values for argument %s' % k.arg
            if k.arg not in ps and k.arg not in kwonly and not kwarg:
                return 'has no argument %s' % k.arg
            given.add(k.arg)
        if not star and not dstar:
            req = params[:len(params) - n_default][drop:]
            miss = [p for p in req if p not in given]
            miss += [p for p in kwonly_req if p not in given]
            if miss:
                return 'misses the argument %s' % ', '.join(miss)
        return None

    def fits_func(self, f, call, drop):
        a = f.node.args
        kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is None]
        return self.fits(f.params, f.n_default, f.vararg, f.kwonly, kreq,
                         f.kwarg, call, drop)

    OKDECO = {'staticmethod', 'classmethod', 'abstractmethod',
              'abc.abstractmethod'}

    def judged(self, f):
        if not isinstance(f, Func):
            return False
        return all(d in self.OKDECO for d in f.deco)

    def local_scope(self, f):
        """Names local to f or its outer functions, and local imports."""
        loc, imps = set(), {}
        g = f
        while g is not None:
            l, _, _ = unbound.local_names(g.node)
            for n in scope_nodes(g.body if isinstance(g.body, list)
                                 else [g.body]):
                if isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        imps.setdefault(a.asname or a.name,
                                        '%s.%s' % (n.module, a.name))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            imps.setdefault(a.asname, a.name)
            for n in scope_nodes(g.body if isinstance(g.body, list)
                                 else [g.body]):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    imps.pop(n.id, None)    # rebound
            loc |= l
            g = g.outer
        return loc - set(imps), imps

    def resolve(self, m, d, loc, imps):
        head, *rest = d.split('.')
        if head in loc:
            return None
        if head in imps:
            t = self.pp.resolve_dotted(imps[head])
            if isinstance(t, str) and imps[head] in self.pyx:
                t = imps[head]
        else:
            if head not in m.top_names:
                return None
            # rebound at module level: ambiguous
            if head in m.assigns and (head in m.imports or head in m.defs):
                return None
            t = self.pp.resolve_name(m, head)
        for r in rest:
            if isinstance(t, Module):
                t2 = self.pp.resolve_name(t, r, default=t.name + '.' + r)
                t = t2
            elif isinstance(t, Class):
                f = t.find(r)
                if f is None:
                    return None
                t = ('unbound', t, f)
            elif isinstance(t, str):
                t = t + '.' + r
            else:
                return None
        return t

    def run(self):
        for m in self.pp.modules.values():
            if m.rel in SKIP_FILES:
                continue
            scopes = [(None, m.tree.body)]
            for f in m.funcs:
                scopes.append((f, f.node.body))
            for f, body in scopes:
                loc, imps = self.local_scope(f) if f else (set(), {})
                for n in pyfe.own_nodes(body):
                    if isinstance(n, ast.Call):
                        self.call(m, f, n, loc, imps)
                    elif isinstance(n, ast.Attribute) \
                            and isinstance(n.ctx, ast.Load):
                        self.attribute(m, f, n, loc, imps)
                    elif isinstance(n, ast.BinOp) \
                            and isinstance(n.op, ast.Mod):
                        self.fmt(m, f, n)

    # methods of external objects with the same names
    EXT = set()
    for _t in (str, bytes, list, dict, set, frozenset, tuple, int, float,
               complex, type(iter([])), type(lambda: 0)):
        EXT |= set(dir(_t))
    EXT |= {'open', 'close', 'read', 'write', 'flush', 'start', 'stop',
            'run', 'join', 'put', 'seek', 'solve', 'plot', 'save', 'show',
            'set', 'get_array', 'setup', 'view', 'reshape', 'transpose',
            'max', 'min', 'sum', 'mean', 'dot', 'any', 'all', 'getrow',
            'elevate', 'refine', 'create', 'assemble', 'update'}

    def by_name(self, m, f, c, where):
        """A method called on an object of unknown class."""
        name = c.func.attr
        cands = self.by_method.get(name)
        if not cands or name in self.EXT or name in self.stored \
           or name.startswith('__'):
            return
        if not all(self.judged(x) for x, _ in cands):
            return
        self.ctx.count('calls_by_name')
        msgs = [self.fits_func(x, c, drop) for x, drop in cands]
        if all(msgs):
            q = f.qual if f else '<module>'
            self.ctx.violation(
                'P02:call:%s:%s:.%s' % (m.rel, q, name),
                'the call of method %s fits no definition of it: %s %s'
                % (name, cands[0][0].qual, msgs[0]), where)

    def attribute(self, m, f, n, loc, imps):
        d = pyfe.dotted(n.value)
        if d is None:
            return
        t = self.resolve(m, d, loc, imps)
        mod = None
        if isinstance(t, Module):
            mod = t.name
        elif isinstance(t, str) and t in self.pyx:
            mod = t
        if mod is None or mod == 'sfepy' and n.attr in ('__version__',):
            return
        self.ctx.count('module_attributes')
        if not self.has(mod, n.attr):
            q = f.qual if f else '<module>'
            self.ctx.violation('P02:attr:%s:%s:%s.%s' % (m.rel, q, mod,
                                                        n.attr),
                               'module %s has no %s' % (mod, n.attr),
                               '%s:%d (%s)' % (m.rel, n.lineno, q))

    def owner(self, f):
        g = f
        while g is not None:
            if g.cls is not None:
                return g.cls
            g = g.outer
        return None

    def call(self, m, f, c, loc, imps):
        q = f.qual if f else '<module>'
        where = '%s:%d (%s)' % (m.rel, c.lineno, q)
        fn = c.func
        cands = None    # list of (Func, drop)
        name = None
        cls = self.owner(f) if f else None
        selfname = None
        g = f
        while g is not None and g.outer is not None:
            g = g.outer
        if g is not None and g.cls is not None and g.params \
           and not g.is_static:
            selfname = g.params[0]
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) \
           and selfname == fn.value.id and cls is not None:
            name = 'self.' + fn.attr
            cands = self.method_cands(cls, fn.attr, g.is_classmethod)
            if cands is None:
                return
            if cands == 'missing':
                self.ctx.violation(
                    'P02:method:%s:%s:%s' % (m.rel, q, fn.attr),
                    'class %s has no method or attribute %s'
                    % (cls.name, fn.attr), where)
                return
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) \
                and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == 'super' and cls is not None:
            for k in cls.mro()[1:]:
                if fn.attr in k.methods:
                    cands = [(x, 0 if x.is_static else 1)
                             for x in self.methods_all[(k, fn.attr)]]
                    break
                if k.external_bases():
                    pass
            name = 'super().' + fn.attr
        else:
            d = pyfe.dotted(fn)
            if d is None:
                if isinstance(fn, ast.Attribute):
                    self.by_name(m, f, c, where)
                return
            t = self.resolve(m, d, loc, imps)
            name = d
            if t is None and isinstance(fn, ast.Attribute):
                head = d.split('.')[0]
                if head in loc or head == selfname:
                    self.by_name(m, f, c, where)
                return
            if isinstance(t, Func):
                cands = [(x, 0) for x in
                         self.defs_all.get((t.module.name, t.name), [t])]
                if t.cls is not None:
                    cands = [(t, 1 if t.is_classmethod else 0)]
            elif isinstance(t, tuple):
                _, k, x = t
                own = [h for h in x.cls and self.methods_all.get(
                    (x.cls, x.name), [x]) or [x]]
                cands = [(h, 1 if h.is_classmethod else 0) for h in own]
            elif isinstance(t, Class):
                cands = self.ctor(t)
            elif isinstance(t, str):
                mod, _, nm = t.rpartition('.')
                if mod in self.pyx and nm in self.pyx[mod]['funcs']:
                    self.pyx_call(m, q, c, self.pyx[mod]['funcs'][nm], where)
                return
        if not cands:
            return
        if not all(self.judged(x) for x, _ in cands):
            return
        self.ctx.count('resolved_calls')
        msgs = [self.fits_func(x, c, drop) for x, drop in cands]
        if all(msgs):
            self.ctx.violation(
                'P02:call:%s:%s:%s' % (m.rel, q, name),
                'the call of %s does not fit: %s %s'
                % (name, cands[0][0].qual, msgs[0]), where)

    def ctor(self, t):
        if any(t.node.decorator_list for t in [t]):
            return None
        for k in t.mro():
            if '__new__' in k.methods or k.node.keywords:
                return None
            if '__init__' in k.methods:
                return [(x, 1) for x in self.methods_all[(k, '__init__')]]
            if any(not isinstance(b, Class) and b != 'object'
                   for b in k.bases):
                return None
        return None

    def method_cands(self, cls, name, is_cm):
        """Implementations of self.<name>, 'missing', or None (unknown)."""
        out = []
        for k in [cls] + self.pp.subclasses(cls, strict=True):
            hit = None
            for c in k.mro():
                if name in c.methods:
                    hit = c
                    break
                if name in c.attrs:
                    return None
            if hit is None:
                if any(b != 'object' for b in k.external_bases()):
                    return None
                continue
            out += [(x, 0 if x.is_static else 1)
                    for x in self.methods_all[(hit, name)]]
        if name in self.stored:
            # also a dynamic attribute: not decided
            return None
        if not out:
            if name.startswith('__') or any(
                    '__getattr__' in c.methods for c in cls.mro()):
                return None
            if any(b != 'object' for b in cls.external_bases()):
                return None
            return 'missing'
        uniq = []
        for x in out:
            if x not in uniq:
                uniq.append(x)
        return uniq

    def pyx_call(self, m, q, c, f, where):
        ps = [a.name for a in f.args]
        nd = sum(1 for a in f.args if a.default is not None)
        if getattr(f, 'vararg', None) or getattr(f, 'kwarg', None):
            return
        self.ctx.count('native_calls')
        msg = self.fits(ps, nd, None, [], [], None, c, 0)
        if msg:
            self.ctx.violation('P02:call:%s:%s:%s' % (m.rel, q, f.name),
                               'the call of %s does not fit: %s'
                               % (f.qual, msg), where)

    # formats
    def fmt(self, m, f, n):
        if not (isinstance(n.left, ast.Constant)
                and isinstance(n.left.value, str)):
            return
        s = n.left.value
        specs = parse_percent(s)
        if specs is None:
            return
        q = f.qual if f else '<module>'
        where = '%s:%d (%s)' % (m.rel, n.lineno, q)
        named = [x for x in specs if x[0] is not None]
        r = n.right
        if named:
            return
        self.ctx.count('formats')
        need = sum(1 + x[2] for x in specs)
        if isinstance(r, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in r.elts):
                return
            if len(r.elts) != need:
                self.ctx.violation(
                    'P02:format:%s:%s:%s' % (m.rel, q, s[:40]),
                    'format %r needs %d values, %d given'
                    % (s[:60], need, len(r.elts)), where)
                return
            if all(x[2] == 0 for x in specs):
                for e, x in zip(r.elts, specs):
                    self.fmt_type(m, q, s, x[1], e, where)
        else:
            scalar = isinstance(r, (ast.Constant, ast.JoinedStr, ast.List))
            if scalar and need != 1 or need == 0:
                self.ctx.violation(
                    'P02:format:%s:%s:%s' % (m.rel, q, s[:40]),
                    'format %r needs %d values, 1 given' % (s[:60], need),
                    where)
            elif need == 1 and specs:
                self.fmt_type(m, q, s, specs[0][1], r, where)

    def fmt_type(self, m, q, s, conv, e, where):
        if conv in 'srac%':
            return
        if isinstance(e, ast.Constant) and (e.value is None
                                            or isinstance(e.value, str)):
            self.ctx.violation(
                'P02:format:%s:%s:%s' % (m.rel, q, s[:40]),
                'format %%%s of %r' % (conv, e.value), where)


def parse_percent(s):
    """[(name, conversion, number of *)] or None when malformed."""
    out, i = [], 0
    while True:
        i = s.find('%', i)
        if i < 0:
            return out
        i += 1
        name = None
        if i < len(s) and s[i] == '(':
            j = s.find(')', i)
            if j < 0:
                return None
            name = s[i + 1:j]
            i = j + 1
        stars = 0
        while i < len(s) and s[i] in '#0- +':
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in '.*'):
            stars += s[i] == '*'
            i += 1
        while i < len(s) and s[i] in 'hlL':
            i += 1
        if i >= len(s):
            return None
        if s[i] != '%':
            out.append((name, s[i], stars))
        i += 1


def run(ctx):
    global EXPLANATION, RULE, ASSUMPTIONS
    pp = pyfe.load(ctx.repo)
    nm = Names(ctx, pp)
    if ctx.prop == 'P01':
        EXPLANATION, RULE, ASSUMPTIONS = (P01_EXPLANATION, P01_RULE,
                                          P01_ASSUMPTIONS)
        nm.undefined()
        nm.unbound()
        ctx.floor('functions', 2000)
        ctx.floor('assignment_analyses', 2000)
    else:
        EXPLANATION, RULE, ASSUMPTIONS = (P02_EXPLANATION, P02_RULE,
                                          P02_ASSUMPTIONS)
        px = pyx_program(ctx.repo)
        c = Calls(ctx, pp, px)
        c.imports()
        c.run()
        ctx.floor('internal_imports', 700)
        ctx.floor('resolved_calls', 2000)


EXPLANATION, RULE, ASSUMPTIONS = P01_EXPLANATION, P01_RULE, P01_ASSUMPTIONS
