"""F01: what a reader of HDF5 files takes, the writer has stored."""
import ast

from .. import pyfe
from ..core import AnalysisBroken

EXPLANATION = (
    'The functions that write HDF5 files are interpreted over paths of nodes'
    ' (groups and datasets with formatted names as patterns, helpers followed'
    ' with their arguments); all their paths give the sets of nodes created'
    ' together. Every node taken by the matching readers has to be created on'
    ' all paths that create its group, or on some path if the reader handles'
    ' its absence or asks for the kind of the data. Counts read from a file'
    ' and used to enumerate nodes are the numbers of nodes written, values are'
    ' stored and read under their own names, the type marks written are'
    ' handled by the reader. States of time steppers have the same keys in'
    ' get_state() and set_state(); data restored are not cleared by a later'
    ' initialization, locked variables are unlocked before they are set and'
    ' locked again.')
RULE = ('one obligation per node read, per type mark, per key of a stepper'
        ' state and per call setting restored data')
ASSUMPTIONS = [
    'loops over data are executed at least once',
    'nodes are accessed by the pytables idioms (attributes, _f_get_child(),'
    ' get_node(), iteration)',
    'the content of values stored by write_to_hdf5() is matched by type marks'
    ' only',
]

# name: ([(writer, base)], [(reader, base)])
PAIRS = {
    'output file': (
        ['sfepy.discrete.fem.meshio.HDF5MeshIO.write'],
        ['sfepy.discrete.fem.meshio.HDF5MeshIO.' + m for m in
         ('read', 'read_dimension', 'read_bounding_box', 'write_xdmf_file',
          'read_last_step', 'read_time_stepper', 'read_times', 'read_data',
          'read_data_header', 'read_time_history',
          'read_variables_time_history')]),
    'restart file': (
        ['sfepy.discrete.problem.Problem.save_restart'],
        ['sfepy.discrete.problem.Problem.load_restart']),
    'IGA domain': (
        ['sfepy.discrete.iga.io.write_iga_data'],
        ['sfepy.discrete.iga.io.read_iga_data']),
    'sparse matrix': (
        ['sfepy.base.ioutils.write_sparse_matrix_hdf5'],
        ['sfepy.base.ioutils.read_sparse_matrix_hdf5']),
}
# Kinds of data that the current writer does not produce (older files).
OLD = {('sparse matrix', '/data/rows'), ('sparse matrix', '/data/cols')}

LEAF = {'read', 'shape', 'dtype', 'title', 'item', 'size', 'ndim', 'nrows'}
NEW = '%new'     # the file was created
CREATE_LEAF = {'create_array', 'create_carray', 'create_earray',
               'create_table', 'create_vlarray', 'create_soft_link'}


class Node:
    """A group or a dataset: path with patterns."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Node(%s)' % self.path


class File(Node):
    def __init__(self):
        Node.__init__(self, '')


def join(p, name):
    if name.startswith('/'):
        name = name[1:]
    return (p.rstrip('/') + '/' + name) if name else p


class Interp:
    """Walks a function over all its branch outcomes, loops once."""
    LIMIT = 4000

    def __init__(self, pp, fn, owner, base=None, depth=0):
        self.pp, self.fn, self.owner = pp, fn, owner
        self.depth = depth
        self.reads = []       # (path, guarded, node, name stored to)
        self.created = []     # (path, node, value expression, loop bound)
        self.rets = []
        self.titles_w, self.titles_r = [], []
        self.done = []        # created sets at normal exits
        self.exits = []       # the same with decisions
        self.values = {}      # local name -> path it was read from
        self.ranges = []      # (pattern path, range call, node)
        self.loops = []
        self.guard = []       # reasons: True (unknown), (path, value, truth)
        self.env0 = {}

    def run(self, env):
        st = self.block(self.fn.node.body, [(frozenset(), frozenset(),
                                             dict(env))])
        self.done += [s[0] for s in st]
        self.exits += [s[:2] for s in st]
        return self

    # -- statements: states are (created, decisions, env) -----------------
    def block(self, stmts, states):
        for n in stmts:
            nxt = []
            seen = set()
            for s in states:
                for r in self.stmt(n, s):
                    k = (r[0], r[1], tuple(sorted(
                        (a, repr(b)) for a, b in r[2].items()
                        if a != '%why')))
                    if k not in seen:
                        seen.add(k)
                        nxt.append(r)
            if len(nxt) > self.LIMIT:
                raise AnalysisBroken('too many paths in %s' % self.fn.qual)
            states = nxt
            if not states:
                break
        return states

    def stmt(self, n, s):
        cr, dec, env = s
        if '%jump' in env:
            return [s]
        if isinstance(n, ast.If):
            return self.branch(n, s)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return self.loop(n, s)
        if isinstance(n, ast.While):
            cr, env = self.expr_effects(n.test, cr, env)
            return self.unjump(self.block(n.body, [(cr, dec, env)]))
        if isinstance(n, ast.With):
            for i in n.items:
                cr, env = self.expr_effects(i.context_expr, cr, env)
                env = dict(env)
                if isinstance(i.optional_vars, ast.Name):
                    v = self.value(i.context_expr, env)
                    if v is None and isinstance(i.context_expr, ast.Call) \
                       and 'HDF5ContextManager' in (pyfe.call_name(
                           i.context_expr) or ''):
                        v = File()
                    env[i.optional_vars.id] = v
            return self.block(n.body, [(cr, dec, env)])
        if isinstance(n, ast.Try):
            handles = bool(n.handlers)
            self.guard += [True] * handles
            out = self.block(n.body, [s])
            if handles:
                self.guard.pop()
            out = self.block(n.orelse, out)
            # The handlers, from the start (reads failed).
            alt = []
            for h in n.handlers:
                if not (h.body and isinstance(h.body[-1], ast.Raise)):
                    self.guard.append(True)
                    alt += self.block(h.body, [(cr, dec, dict(env))])
                    self.guard.pop()
            if not n.handlers:
                alt = []
            return self.block(n.finalbody, out + alt)
        if isinstance(n, ast.Return):
            if n.value is not None:
                cr, env = self.expr_effects(n.value, cr, env)
                self.rets.append((n, self.value(n.value, env), dict(env)))
            self.done.append(cr)
            self.exits.append((cr, dec))
            return []
        if isinstance(n, ast.Raise):
            return []
        if isinstance(n, (ast.Continue, ast.Break)):
            env = dict(env)
            env['%jump'] = True
            return [(cr, dec, env)]
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Pass, ast.Global)):
            if isinstance(n, ast.FunctionDef):
                env = dict(env)
                env[n.name] = n
            return [(cr, dec, env)]
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return [s]
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            store = [t.id for t in ts if isinstance(t, ast.Name)]
            cr, env = self.expr_effects(n.value, cr, env,
                                        store[0] if store else None)
            env = dict(env)
            v = self.value(n.value, env)
            for t in ts:
                if isinstance(t, ast.Name):
                    env[t.id] = v
                    dec = frozenset(d for d in dec if t.id not in d[2])
                elif isinstance(t, (ast.Tuple, ast.List)):
                    vs = v if isinstance(v, (list, tuple)) \
                        and len(v) == len(t.elts) else [None] * len(t.elts)
                    for e, x in zip(t.elts, vs):
                        if isinstance(e, ast.Name):
                            env[e.id] = x
                            dec = frozenset(d for d in dec
                                            if e.id not in d[2])
                elif isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Attribute) \
                        and t.value.attr == '_v_attrs':
                    b = self.value(t.value.value, env)
                    if isinstance(b, Node):
                        p = join(b.path, '@' + t.attr)
                        self.created.append((p, n, n.value, None))
                        cr = cr | {p}
                else:
                    self.expr_effects(t, cr, env)
            return [(cr, dec, env)]
        for e in ast.iter_child_nodes(n):
            if isinstance(e, ast.expr):
                cr, env = self.expr_effects(e, cr, env)
        return [(cr, dec, env)]

    def branch(self, n, s):
        cr, dec, env = s
        before = len(self.reads)
        cr, env = self.expr_effects(n.test, cr, env)
        txt = ast.unparse(n.test)
        names = frozenset(x.id for x in ast.walk(n.test)
                          if isinstance(x, ast.Name))
        known = {d[0]: d[1] for d in dec}
        # Present in the file?
        probe = any(isinstance(x, ast.Compare) and isinstance(
            x.ops[0], (ast.In, ast.NotIn)) for x in ast.walk(n.test)) \
            or any(isinstance(x, ast.Call)
                   and pyfe.call_name(x) == 'hasattr'
                   for x in ast.walk(n.test))
        # Decided by data of the file?
        data = any(x in self.values for x in names) \
            or len(self.reads) > before
        out = []
        for val, body in ((True, n.body), (False, n.orelse)):
            if known.get(txt, val) != val:
                continue
            t = self.const_test(n.test, env)
            if t is not None and t != val:
                continue
            st = (cr, dec | {(txt, val, names)}, dict(env))
            if probe or data:
                self.guard.append(self.fact(n.test, val)
                                  if data and not probe else True)
            r = self.block(body, [st])
            if probe or data:
                self.guard.pop()
            if data and self.leaves(n.orelse if val else n.body):
                # What follows depends on the data, too.
                f = self.fact(n.test, val)
                r = [(c, d, dict(e, **{'%cond': self.both(
                    e.get('%cond'), f)})) for c, d, e in r]
            out += r
        return out

    def fact(self, test, val):
        """(path, value, truth) of a test of data read, True if unknown."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
           and isinstance(test.ops[0], (ast.Eq, ast.NotEq)) \
           and isinstance(test.left, ast.Name) \
           and test.left.id in self.values \
           and isinstance(test.comparators[0], ast.Constant):
            return ((self.values[test.left.id], test.comparators[0].value,
                     isinstance(test.ops[0], ast.Eq) == val),)
        return True

    @staticmethod
    def both(a, b):
        if a is True or b is True:
            return True
        return tuple(a or ()) + tuple(b or ())

    @staticmethod
    def leaves(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise,
                                                    ast.Continue, ast.Break))

    def const_test(self, t, env):
        """A test of a parameter with a known argument."""
        if isinstance(t, ast.Name) and t.id in env \
           and isinstance(env[t.id], bool):
            return env[t.id]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name) and isinstance(
                    t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None:
            v = env.get(t.left.id)
            if v is not None and v != 'None':
                return isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
            if v == 'None':
                return isinstance(t.ops[0], (ast.Is, ast.Eq))
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.const_test(t.operand, env)
            return None if v is None else not v
        if isinstance(t, ast.Call) and pyfe.call_name(t) == 'isinstance' \
           and isinstance(t.args[0], ast.Name) \
           and isinstance(env.get(t.args[0].id), Node) \
           and not isinstance(env.get(t.args[0].id), File) \
           and 'Group' in ast.unparse(t.args[1]):
            return True
        return None

    def loop(self, n, s):
        cr, dec, env = s
        cr, env = self.expr_effects(n.iter, cr, env)
        env = dict(env)
        it = n.iter
        names = []
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                names.append(x.id)
                env[x.id] = None
        child = None
        v = self.value(it, env)
        if isinstance(v, Node):
            child = Node(join(v.path, '*'))
        elif isinstance(it, ast.Call):
            nm = pyfe.call_name(it)
            if nm in ('filter', 'enumerate', 'sorted', 'list') and it.args:
                w = self.value(it.args[-1], env)
                if isinstance(w, Node):
                    child = Node(join(w.path, '*'))
            if nm in ('iter_nodes', 'list_nodes', 'walk_nodes', '_f_walknodes',
                      '_f_iter_nodes', '_f_list_nodes'):
                b = it.args[0] if it.args else (
                    it.func.value if isinstance(it.func, ast.Attribute)
                    else None)
                w = self.value(b, env) if b is not None else None
                if isinstance(w, Node):
                    child = Node(join(w.path, '*'))
            if nm == 'items' and isinstance(it.func, ast.Attribute) \
               and isinstance(it.func.value, ast.Attribute) \
               and it.func.value.attr in ('_v_groups', '_v_leaves',
                                          '_v_children'):
                w = self.value(it.func.value.value, env)
                if isinstance(w, Node):
                    child = Node(join(w.path, '*'))
        if child is None and isinstance(it, ast.Name):
            # groups collected in a list comprehension before
            w = env.get(it.id)
            if isinstance(w, tuple) and len(w) == 2 and w[0] == '%children':
                child = Node(w[1])
        if child is not None:
            t = n.target
            if isinstance(t, ast.Tuple):
                t = t.elts[-1]
            if isinstance(t, ast.Name):
                env[t.id] = child
        self.loops.append((n, names))
        dec = frozenset(d for d in dec if not (set(names) & d[2]))
        cond = env.get('%cond')
        out = self.block(n.body, [(cr, dec, env)])
        self.loops.pop()
        out = self.unjump(out)
        out = [(c, d, self.cond(e, cond)) for c, d, e in out]
        return out or [s]

    @staticmethod
    def cond(e, was):
        e = dict(e)
        if was:
            e['%cond'] = was
        else:
            e.pop('%cond', None)
        return e

    @staticmethod
    def unjump(states):
        out = []
        for c, d, e in states:
            if '%jump' in e:
                e = dict(e)
                e.pop('%jump')
            out.append((c, d, e))
        return out

    # -- expressions --------------------------------------------------------
    def text(self, n, env):
        """Name pattern of a string expression."""
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, int)):
            return str(n.value)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) \
           and isinstance(n.left, ast.Constant):
            import re
            return re.sub(r'%[-0-9.]*[a-z]', '*', re.sub(
                r'%[-0-9.]*d', '#', str(n.left.value)))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.text(n.left, env) + self.text(n.right, env)
        if isinstance(n, ast.JoinedStr):
            return ''.join(str(v.value) if isinstance(v, ast.Constant)
                           else '*' for v in n.values)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
           and n.func.attr == 'format' and isinstance(
               n.func.value, ast.Constant):
            import re
            return re.sub(r'\{[^}]*\}', '*', str(n.func.value.value))
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            if isinstance(v, str) and v != 'None':
                return v
        return '*'

    def value(self, n, env):
        """Node, list of values, or a string pattern."""
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            return v
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return n.value
            if n.value is None:
                return 'None'
            return n.value if isinstance(n.value, str) else None
        if isinstance(n, (ast.Tuple, ast.List)):
            return [self.value(e, env) for e in n.elts]
        if isinstance(n, ast.Attribute):
            if n.attr in ('_v_groups', '_v_leaves', '_v_attrs',
                          '_v_children'):
                return None
            b = self.value(n.value, env)
            if isinstance(b, File) and n.attr == 'root':
                return Node('')
            if isinstance(b, Node) and not isinstance(b, File) \
               and not n.attr.startswith('_'):
                if n.attr in LEAF:
                    return None
                return Node(join(b.path, n.attr))
            return None
        if isinstance(n, ast.Call):
            f = n.func
            nm = pyfe.call_name(n)
            if nm in ('open_file', 'HDF5ContextManager'):
                return File()
            if nm in ('create_group',) and len(n.args) >= 2:
                b = self.where(n.args[0], env)
                return Node(join(b, self.text(n.args[1], env))) \
                    if b is not None else None
            if nm in ('get_node', 'get_or_create_hdf5_group') and n.args:
                a = list(n.args)
                if nm == 'get_or_create_hdf5_group':
                    a = a[1:]
                b = self.where(a[0], env)
                if b is None:
                    return None
                for x in a[1:]:
                    b = join(b, self.text(x, env))
                return Node(b)
            if nm == '_f_get_child' and n.args and isinstance(
                    f, ast.Attribute):
                b = self.value(f.value, env)
                if isinstance(b, Node):
                    return Node(join(b.path, self.text(n.args[0], env)))
                return None
            if nm == 'getattr' and len(n.args) >= 2:
                b = self.value(n.args[0], env)
                if isinstance(b, Node):
                    return Node(join(b.path, self.text(n.args[1], env)))
                return None
            if nm == 'get_default' and n.args:
                return self.value(n.args[0], env)
            if nm in ('str', 'dec', 'enc') and n.args:
                return None
            r = self.called(n, env)
            if r is not None:
                vals = [v for _, v, _ in r.rets
                        if isinstance(v, Node) or (isinstance(v, list)
                                                   and any(isinstance(x, Node)
                                                           for x in v))]
                if vals:
                    return vals[0]
            return None
        if isinstance(n, ast.BinOp) or isinstance(n, ast.JoinedStr):
            t = self.text(n, env)
            return t if t != '*' else None
        if isinstance(n, ast.ListComp) and len(n.generators) == 1:
            w = self.value(n.generators[0].iter, env)
            if isinstance(w, Node) and isinstance(n.elt, ast.Name):
                pat = '*'
                for i in n.generators[0].ifs:
                    for x in ast.walk(i):
                        if isinstance(x, ast.Call) and pyfe.call_name(
                                x) == 'startswith' and x.args:
                            pat = (pyfe.const_str(x.args[0]) or '') + '*'
                return ('%children', join(w.path, pat))
        if isinstance(n, ast.Subscript):
            return None
        return None

    def where(self, n, env):
        """Path of a 'where' argument: '/', '/mesh', a node, a file."""
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value.rstrip('/')
        v = self.value(n, env)
        if isinstance(v, Node):
            return v.path
        if isinstance(v, str) and v != 'None':
            return v.rstrip('/')
        return None

    def resolve(self, n, env):
        f = n.func
        if isinstance(f, ast.Name):
            if isinstance(env.get(f.id), ast.FunctionDef):
                for g in self.fn.module.funcs:
                    if g.node is env[f.id]:
                        return g, False
            t = self.pp.resolve_name(self.fn.module, f.id)
            return (t, False) if isinstance(t, pyfe.Func) else (None, False)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
           and f.value.id in ('self', 'cls') and self.owner is not None:
            t = self.owner.find(f.attr)
            if t is not None:
                return t, not t.is_static
        if isinstance(f, ast.Attribute):
            t = self.pp.resolve_expr(self.fn.module, f)
            if isinstance(t, pyfe.Func):
                return t, False
        return None, False

    cache = {}

    def called(self, n, env, create=None):
        if self.depth > 4:
            return None
        g, bound = self.resolve(n, env)
        if g is None or g.node is self.fn.node:
            return None
        text = g.module.text
        if not any(x in text for x in ('create_array', '.read()',
                                       'open_file')):
            return None
        ps = g.params[1:] if bound else list(g.params)
        e = {}
        if g.outer is not None:
            e.update({k: v for k, v in env.items() if k[:1] != '%'})
        for p, a in zip(ps, n.args):
            e[p] = self.value(a, env)
        for k in n.keywords:
            if k.arg:
                e[k.arg] = self.value(k.value, env)
        owner = self.owner if bound or g.cls is None else g.cls
        key = (id(g), id(owner), self.depth,
               tuple(sorted((k, repr(v)) for k, v in e.items())))
        if key not in self.cache:
            it = Interp(self.pp, g, owner, depth=self.depth + 1)
            self.cache[key] = it
            it.run(e)
        return self.cache[key]

    def expr_effects(self, n, cr, env, store=None):
        """Creations and reads of an expression, innermost last."""
        if n is None:
            return cr, env
        cond = env.get('%cond') or ()
        for g in self.guard:
            cond = self.both(cond, g)
        for c in self.calls_and_chains(n, env):
            if isinstance(c, ast.Call):
                nm = pyfe.call_name(c)
                if nm in CREATE_LEAF | {'create_group'} and len(c.args) >= 2:
                    b = self.where(c.args[0], env)
                    if b is None:
                        continue
                    p = join(b, self.text(c.args[1], env))
                    val = c.args[2] if nm in CREATE_LEAF \
                        and len(c.args) > 2 else None
                    bound = None
                    if pattern(p.rsplit('/', 1)[1]) and self.loops:
                        bound = self.loops[-1][0].iter
                    self.created.append((p, c, val, bound))
                    cr = cr | {p}
                    continue
                if nm == 'remove_node':
                    continue
                if nm == 'open_file':
                    self.title(c)
                    m = [k.value for k in c.keywords if k.arg == 'mode'] \
                        + c.args[1:2]
                    if m and pyfe.const_str(m[0]) == 'w':
                        cr = cr | {NEW}
                    continue
                if nm == 'write_to_hdf5' and len(c.args) >= 3:
                    b = self.where(c.args[1], env)
                    if b is not None:
                        p = join(b, self.text(c.args[2], env))
                        self.created.append((p, c, None, None))
                        cr = cr | {p}
                    continue
                it = self.called(c, env)
                if it is not None:
                    self.created += it.created
                    self.titles_w += it.titles_w
                    self.titles_r += it.titles_r
                    self.ranges += it.ranges
                    for p, g, node, st in it.reads:
                        self.reads.append((p, self.both(g, cond), node, st))
                    done = it.done or [frozenset()]
                    # All exits of the callee create these; others may.
                    must = frozenset.intersection(*done)
                    cr = cr | must
                    self.may = getattr(self, 'may', set())
                    for d in done:
                        self.may |= d
            else:
                # a read: chain on a node
                node, path = c.chain
                self.reads.append((path, cond, node, store))
                if store is not None:
                    self.values[store] = path
                if self.loops and pattern(path):
                    self.ranges.append((path, self.loops[-1][0].iter,
                                        dict(self.values), node))
        return cr, env

    def title(self, c):
        mode, title = None, None
        for k in c.keywords:
            if k.arg == 'mode':
                mode = pyfe.const_str(k.value)
            if k.arg == 'title':
                title = pyfe.const_str(k.value)
        if len(c.args) > 1:
            mode = pyfe.const_str(c.args[1]) or mode
        if mode == 'w' and title is not None:
            self.titles_w.append((title, c))

    def calls_and_chains(self, n, env):
        """Calls and accesses to nodes in an expression."""
        out = []
        used = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Lambda):
                for y in ast.walk(x):
                    used.add(y)
            if x in used:
                continue
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in LEAF:
                    v = self.value(f.value, env)
                    if isinstance(v, Node) and v.path \
                       and not isinstance(v, File):
                        x.chain = (x, v.path)
                        out.append(Chain(x, v.path))
                        for y in ast.walk(f):
                            used.add(y)
                        continue
                out.append(x)
                if pyfe.call_name(x) in CREATE_LEAF | {'create_group',
                                                       'get_node',
                                                       'open_file',
                                                       'remove_node'}:
                    for a in x.args[:1]:
                        for y in ast.walk(a):
                            used.add(y)
                for a in list(x.args) + [k.value for k in x.keywords]:
                    v = self.value(a, env)
                    if isinstance(v, Node) and isinstance(
                            a, ast.Attribute) and v.path:
                        # Passed on: an access.
                        if not (pyfe.call_name(x) in CREATE_LEAF
                                | {'create_group', 'get_node'}):
                            out.append(Chain(a, v.path))
                        for y in ast.walk(a):
                            used.add(y)
            elif isinstance(x, ast.Subscript):
                v = self.value(x.value, env)
                if isinstance(v, Node) and isinstance(
                        x.value, ast.Attribute) and v.path \
                   and isinstance(x.ctx, ast.Load):
                    out.append(Chain(x, v.path))
                    for y in ast.walk(x.value):
                        used.add(y)
            elif isinstance(x, ast.Attribute):
                if x.attr in LEAF:
                    v = self.value(x.value, env)
                    if isinstance(v, Node) and isinstance(
                            x.value, (ast.Attribute, ast.Call)) and v.path:
                        out.append(Chain(x, v.path))
                        for y in ast.walk(x.value):
                            used.add(y)
                elif isinstance(x.value, ast.Attribute) \
                        and x.value.attr == '_v_attrs' \
                        and isinstance(x.ctx, ast.Load):
                    v = self.value(x.value.value, env)
                    if isinstance(v, Node):
                        out.append(Chain(x, join(v.path, '@' + x.attr)))
                        for y in ast.walk(x.value):
                            used.add(y)
                else:
                    v = self.value(x, env)
                    if isinstance(v, Node) and v.path and x is n:
                        out.append(Chain(x, v.path))
                        for y in ast.walk(x.value):
                            used.add(y)
        return out


class Chain:
    def __init__(self, node, path):
        self.chain = (node, path)


def match(a, b):
    """Do two patterns (path components) overlap?"""
    x, y = a.split('/'), b.split('/')
    return len(x) == len(y) and all(
        overlap(p, q) and p.startswith('@') == q.startswith('@')
        for p, q in zip(x, y))


def pattern(p):
    return '*' in p or '#' in p


def overlap(p, q):
    """Is there a name of both patterns (`*` anything, `#` digits)?"""
    key = (p, q)
    if key not in MEMO:
        MEMO[key] = False     # a cycle adds nothing
        MEMO[key] = overlap_(p, q)
    return MEMO[key]


MEMO = {}


def overlap_(p, q):
    if not p and not q:
        return True
    for a, b in ((p, q), (q, p)):
        if a[:1] == '*':
            if overlap(a[1:], b):
                return True
            if b[:1] == '*':
                if overlap(a, b[1:]):
                    return True
            elif b and overlap(a, b[1:] if b[0] != '#' else b[1:]):
                return True
            return False
    if not p or not q:
        return False
    if p[0] == '#' or q[0] == '#':
        a, b = (p, q) if p[0] == '#' else (q, p)
        n = 0
        if b[0] == '#':
            return overlap(a[1:], b[1:])
        while n < len(b) and b[n].isdigit():
            n += 1
            if overlap(a[1:], b[n:]):
                return True
        return False
    return p[0] == q[0] and overlap(p[1:], q[1:])


def possible(facts, dec, paths):
    """Can a file written with the decisions have the given data?"""
    for p, value, truth in facts or ():
        exprs = {ast.unparse(strip(v)) for q in paths if match(p, q)
                 for _, v, _ in paths[q] if v is not None}
        if len(exprs) != 1:
            continue
        e = exprs.pop()
        for txt, val, _ in dec:
            t = ast.parse(txt, mode='eval').body
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                    and isinstance(t.ops[0], (ast.Eq, ast.NotEq))
                    and ast.unparse(t.left) == e
                    and isinstance(t.comparators[0], ast.Constant)):
                continue
            c = t.comparators[0].value
            is_c = isinstance(t.ops[0], ast.Eq) == val
            if truth and is_c and c != value:
                return False
            if truth != is_c and c == value:
                return False
    return True


def strip(n):
    while isinstance(n, ast.Call) and pyfe.call_name(n) in ('enc', 'dec') \
            and n.args:
        n = n.args[0]
    return n


def parent(p):
    return p.rsplit('/', 1)[0]


def last(n):
    """Terminal identifier of a stored value."""
    while True:
        if isinstance(n, ast.Call) and pyfe.call_name(n) in (
                'enc', 'dec', 'array', 'asarray', 'int', 'float', 'str') \
                and n.args:
            n = n.args[0]
        elif isinstance(n, ast.Subscript):
            n = n.value
        elif isinstance(n, ast.Attribute):
            return n.attr
        elif isinstance(n, ast.Name):
            return n.id
        else:
            return None


def sing(s):
    s = (s or '').strip('_').lower().replace('_', '')
    return s[:-1] if s.endswith('s') else s


def bound_text(it, values):
    """What a loop counts: text, or ('read', path)."""
    if not isinstance(it, ast.Call):
        return None
    nm = pyfe.call_name(it)
    if nm == 'enumerate' and len(it.args) == 1:
        return 'len(%s)' % ast.unparse(it.args[0])
    if nm == 'range':
        if len(it.args) == 1:
            hi = it.args[0]
        elif len(it.args) == 2:
            lo, hi = it.args
            if not (isinstance(lo, ast.Constant) and lo.value == 0):
                return ('from', ast.unparse(lo))
        else:
            return None
        if values is not None and isinstance(hi, ast.Name) \
           and hi.id in values:
            return ('read', values[hi.id])
        if values is not None and isinstance(hi, ast.BinOp):
            for x in ast.walk(hi):
                if isinstance(x, ast.Name) and x.id in values:
                    return ('from', ast.unparse(hi))
        return ast.unparse(hi)
    return None


def func(pp, name):
    f = pp.resolve_dotted(name)
    if not isinstance(f, pyfe.Func):
        raise AnalysisBroken('no function %s' % name)
    return f


def start_env(f):
    """Parameters without a known value; `group` is the root."""
    env = {}
    for p in f.all_params():
        env[p] = None
    if 'group' in env:
        env['group'] = Node('')
    return env


def check_pair(ctx, pp, name, writers, readers):
    created, may, done, wt = [], set(), [], []
    for w in writers:
        f = func(pp, w)
        it = Interp(pp, f, f.cls)
        it.run(start_env(f))
        created += it.created
        may |= getattr(it, 'may', set())
        done += it.exits
        wt += it.titles_w
        for t, c in it.titles_w:
            TITLES.setdefault(t, f)
    paths = {}
    for p, n, val, bound in created:
        paths.setdefault(p, []).append((n, val, bound))
    ctx.count('nodes_written', len(paths))
    if len(paths) < 6:
        raise AnalysisBroken('%s: only %d nodes written' % (name, len(paths)))
    check_values(ctx, name, paths, writers)
    groups = {parent(p) for p in paths}
    # Nodes of the root are kept when a file is appended to.
    opened = any(NEW in d for d, _ in done)
    for r in readers:
        f = func(pp, r)
        it = Interp(pp, f, f.cls)
        it.run(start_env(f))
        seen = set()
        for p, guarded, node, store in it.reads:
            key = (p, guarded, id(node))
            if key in seen:
                continue
            seen.add(key)
            hits = [q for q in paths if match(p, q) and (
                q.rsplit('/', 1)[1] != '*' or p.rsplit('/', 1)[1] == '*'
                or parent(p) == parent(q))]
            if p in paths and not pattern(p):
                hits = [p]
            if not hits and any(match(p, g) for g in groups):
                continue
            if (name, p) in OLD:
                ctx.count('older_files')
                continue
            ctx.count('nodes_read')
            ctx.sample('%s: %s reads %s' % (name, f.qual, p))
            if not hits:
                # An attribute of a node, not a child?
                if any(match(parent(p), q) for q in paths) and not any(
                        match(parent(p), g) for g in groups):
                    continue
                ctx.violation(
                    'missing:%s:%s' % (f.qual, p),
                    '%s() reads %s of %s, which is never written'
                    % (f.qual, p, art(name)), f.where(node))
                continue
            if guarded is True:
                continue
            # On all paths creating the group.
            ok = False
            for q in hits:
                g = parent(q)
                if all(q in d for d, dec in done
                       if (not opened or NEW in d if g == '' else g in d)
                       and possible(guarded, dec, paths)):
                    ok = True
            if not ok:
                ctx.violation(
                    'conditional:%s:%s' % (f.qual, p),
                    '%s() reads %s of %s, which is not always written'
                    % (f.qual, p, art(name)), f.where(node))
        check_roles(ctx, name, paths, it, f)
        check_counts(ctx, name, paths, it, f)
        check_titles(ctx, f)


TITLES = {}


def art(s):
    return ('an ' if s[0] in 'aeioAEIO' else 'a ') + s


def check_titles(ctx, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) \
           and n.left.attr == 'title' and len(n.ops) == 1:
            t = pyfe.const_str(n.comparators[0])
            if t is None:
                continue
            ctx.count('titles')
            TITLE_USES.append((t, f, n))


TITLE_USES = []


def check_values(ctx, name, paths, writers):
    """Nothing is stored under the name of its sibling."""
    sib = {}
    for p in paths:
        sib.setdefault(parent(p), set()).add(p.rsplit('/', 1)[1])
    for p, uses in paths.items():
        k = p.rsplit('/', 1)[1]
        for n, val, bound in uses:
            v = last(val) if val is not None else None
            if v is None or pattern(k):
                continue
            ctx.count('values_stored')
            other = [s for s in sib[parent(p)]
                     if sing(s) == sing(v) and sing(s) != sing(k)]
            if other:
                ctx.violation(
                    'stored:%s:%s' % (name, p),
                    '%s stores %s as %r' % (art(name), ast.unparse(val), k),
                    '%s line %d' % (writers[0], n.lineno))


def check_roles(ctx, name, paths, it, f):
    """Nothing is read into the name of a sibling."""
    sib = {}
    for p in paths:
        sib.setdefault(parent(p), set()).add(p.rsplit('/', 1)[1])
    for p, guarded, node, store in it.reads:
        k = p.rsplit('/', 1)[1]
        if store is None or pattern(k):
            continue
        for g, names in sib.items():
            if not match(g, parent(p)):
                continue
            if sing(k).endswith(sing(store)):
                continue
            if any(sing(s) == sing(store) and sing(s) != sing(k)
                   for s in names):
                ctx.violation(
                    'role:%s:%s' % (f.qual, p),
                    '%s() reads %s into %r' % (f.qual, p, store),
                    f.where(node))


def check_counts(ctx, name, paths, it, f):
    for p, loop, values, node in it.ranges:
        b = bound_text(loop, values)
        if b is None or isinstance(b, str):
            continue
        ws = [q for q in paths if match(q, p) or match(q, parent(p))]
        # The pattern level of the loop.
        for q in ws:
            for n, val, wb in paths[q]:
                if wb is None:
                    continue
                ctx.count('counts')
                if b[0] == 'from':
                    ctx.violation(
                        'count:%s:%s' % (f.qual, q),
                        '%s() does not read all %s of %s' % (f.qual, q,
                                                             art(name)),
                        f.where(node))
                    continue
                wtxt = bound_text(wb, None)
                if isinstance(wtxt, tuple):
                    ctx.violation(
                        'count:%s:%s' % (f.qual, q),
                        'not all %s of %s are written' % (q, art(name)),
                        f.where(node))
                    continue
                for r in [x for x in paths if match(x, b[1])
                          and x.rsplit('/', 1)[1]
                          == b[1].rsplit('/', 1)[1]]:
                    for _, v2, _ in paths[r]:
                        if v2 is None or wtxt is None:
                            continue
                        t2 = ast.unparse(v2)
                        if t2 == wtxt:
                            continue
                        if t2.startswith('len(') and wtxt.startswith('len('):
                            continue
                        ctx.violation(
                            'count:%s:%s' % (f.qual, q),
                            'the number of %s of %s stored in %s is not the'
                            ' number written (%s, %s)' % (q, art(name), r,
                                                          t2, wtxt),
                            f.where(node))


def check_marks(ctx, pp):
    """Type marks of write_to_hdf5() are handled by read_from_hdf5()."""
    m = pp.modules.get('sfepy.base.ioutils')
    w = pp.resolve_dotted('sfepy.base.ioutils.write_to_hdf5')
    r = pp.resolve_dotted('sfepy.base.ioutils.read_from_hdf5')
    if not isinstance(w, pyfe.Func) or not isinstance(r, pyfe.Func):
        raise AnalysisBroken('no write_to_hdf5(), read_from_hdf5()')
    handled = set()
    for n in ast.walk(r.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, bytes):
            handled.add(n.value.decode())
    marks = []
    for n in ast.walk(w.node):
        if isinstance(n, ast.Call) and (pyfe.call_name(n) or '').startswith(
                'save_') and n.args:
            v = pyfe.const_str(n.args[0])
            if v is not None:
                marks.append((v, n))
            elif isinstance(n.args[0], ast.Call):
                for v in ('True', 'False', 'None'):
                    marks.append((v, n))
    for v, n in marks:
        ctx.count('type_marks')
        if v not in handled:
            ctx.violation('mark:%s' % v, 'data of the type %r written by'
                          ' write_to_hdf5() cannot be read' % v, w.where(n))
    if marks:
        ctx.floor('type_marks', 8)


def check_dict(ctx, pp):
    """The prefix added to keys is the one removed."""
    w = pp.resolve_dotted('sfepy.base.ioutils.write_dict_hdf5')
    r = pp.resolve_dotted('sfepy.base.ioutils.read_dict_hdf5')
    if not isinstance(w, pyfe.Func) or not isinstance(r, pyfe.Func):
        raise AnalysisBroken('no write_dict_hdf5(), read_dict_hdf5()')
    pre = set()
    for n in ast.walk(w.node):
        if isinstance(n, ast.Call) and pyfe.call_name(n) in (
                'create_array', 'create_group') and len(n.args) > 1:
            a = n.args[1]
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) \
               and pyfe.const_str(a.left) is not None:
                pre.add(a.left.value)
            elif isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) \
                    and pyfe.const_str(a.left) is not None:
                pre.add(a.left.value.split('%')[0])
            elif isinstance(a, ast.JoinedStr) and a.values and isinstance(
                    a.values[0], ast.Constant):
                pre.add(a.values[0].value)
            elif isinstance(a, (ast.Name, ast.Call)):
                pre.add(None)
    rem = set()
    for n in ast.walk(r.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'replace' and len(n.args) == 3:
                rem.add((pyfe.const_str(n.args[0]), 'one' if isinstance(
                    n.args[2], ast.Constant) and n.args[2].value == 1
                    else 'more'))
            elif n.func.attr == 'replace' and len(n.args) == 2:
                rem.add((pyfe.const_str(n.args[0]), 'more'))
            elif n.func.attr == 'removeprefix' and n.args:
                rem.add((pyfe.const_str(n.args[0]), 'one'))
            elif n.func.attr in ('lstrip', 'strip'):
                rem.add((pyfe.const_str(n.args[0]) if n.args else None,
                         'more'))
    ctx.count('dict_prefixes', len(pre))
    if None in pre or not rem or any(p is None for p, _ in rem):
        ctx.note('prefixes of dictionary keys not decided')
        return
    for p in pre:
        for q, how in rem:
            if p != q or how != 'one':
                ctx.violation('dict:%s' % q, 'keys of dictionaries stored with'
                              ' the prefix %r are not restored as they were'
                              % p, r.where())


def check_formats(ctx, pp):
    """Compressed data are given to the constructor of the stored format."""
    r = pp.resolve_dotted('sfepy.base.ioutils.read_sparse_matrix_from_hdf5')
    if not isinstance(r, pyfe.Func):
        raise AnalysisBroken('no read_sparse_matrix_from_hdf5()')
    defs = {}
    for n in ast.walk(r.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(n.value)

    def of_format(n, seen=()):
        """Does the value depend on the stored format only?"""
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and x.attr == 'format':
                return True
            if isinstance(x, ast.Name) and x.id not in seen:
                for d in defs.get(x.id, ()):
                    if of_format(d, seen + (x.id,)):
                        return True
        return False

    def alts(n, seen=()):
        """Alternative constructors."""
        if isinstance(n, ast.IfExp):
            return alts(n.body, seen) + alts(n.orelse, seen)
        if isinstance(n, ast.Name) and n.id in defs and n.id not in seen:
            return [y for d in defs[n.id]
                    for y in alts(d, seen + (n.id,))]
        return [n]

    def tests(node, body, acc):
        for st in body:
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(st, f, None)
                if isinstance(sub, list):
                    t = acc
                    if isinstance(st, ast.If):
                        t = acc + [st.test]
                    yield from tests(st, sub, t)
            if not isinstance(st, (ast.If, ast.For, ast.With, ast.Try)):
                for c in ast.walk(st):
                    if isinstance(c, ast.Call):
                        yield c, acc

    params = set(r.all_params()) - {'fd', 'group'}
    for c, acc in tests(r.node, r.node.body, []):
        if not c.args or 'indptr' not in ast.unparse(c.args[0]):
            continue
        ctx.count('sparse_constructors')
        if any(of_format(t) and not any(
                isinstance(x, ast.Name) and x.id in params
                for x in ast.walk(t)) and len({
                    x.value for x in ast.walk(t)
                    if isinstance(x, ast.Constant)}) == 1 for t in acc):
            continue
        for a in alts(c.func):
            names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
            if names & params or not of_format(a):
                ctx.violation(
                    'format:%s' % r.name,
                    '%s() interprets the data of a sparse matrix in the'
                    ' format %s, not in the stored one'
                    % (r.qual, ast.unparse(a)), r.where(c))


def check_stepper_states(ctx, pp):
    for c in pp.all_classes():
        g, s = c.methods.get('get_state'), c.methods.get('set_state')
        if g is None or s is None or not c.rel.startswith('sfepy/solvers/'):
            continue
        keys = None
        for n in ast.walk(g.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Dict):
                keys = {pyfe.const_str(k): v for k, v in
                        zip(n.value.keys, n.value.values)}
            elif isinstance(n, ast.Return) and isinstance(n.value, ast.Call) \
                    and pyfe.call_name(n.value) == 'dict' \
                    and not n.value.args:
                keys = {k.arg: k.value for k in n.value.keywords}
        if keys is None or None in keys:
            continue
        ps = [p for p in s.all_params() if p != 'self'
              and p != (s.node.args.kwarg.arg if s.node.args.kwarg else '')]
        for p in ps:
            ctx.count('state_keys')
            if p not in keys:
                ctx.violation('state:%s:%s' % (c.name, p),
                              '%s.set_state() takes %r, which get_state() does'
                              ' not give' % (c.name, p), g.where())
            else:
                v = last(keys[p])
                if v != p and v in ps:
                    ctx.violation('state:%s:%s' % (c.name, p),
                                  '%s.get_state() gives %s as %r'
                                  % (c.name, v, p), g.where())
        for k in keys:
            if k not in ps and not s.node.args.kwarg:
                ctx.violation('state:%s:%s' % (c.name, k),
                              '%s.set_state() does not take %r of get_state()'
                              % (c.name, k), s.where())
        # Each key is used.
        used = {n.id for n in ast.walk(s.node) if isinstance(n, ast.Name)}
        for p in ps:
            if p not in used:
                ctx.violation('state:%s:%s:unused' % (c.name, p),
                              '%s.set_state() ignores %r' % (c.name, p),
                              s.where())
        for n in ast.walk(s.node):
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Attribute) and isinstance(
                        n.value, ast.Name):
                t = n.targets[0].attr
                if t in ps and n.value.id in ps and n.value.id != t:
                    ctx.violation('state:%s:%s:role' % (c.name, t),
                                  '%s.set_state() sets %s to %s'
                                  % (c.name, t, n.value.id), s.where(n))


# -- restored data -----------------------------------------------------------
CLEARS = {'init_state': {'history', 'r_vec', 'vec'},
          'init_history': {'history'},
          'create_state': set()}


def events(ctx, f):
    """All orders of setting and clearing restored data, locks."""
    from ..pyflow import Flow

    out = []

    class Ev(Flow):
        def may_raise(self, n):
            return False

        def stmt(self, n, s):
            s = set(s)
            body = n
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                return {frozenset(s)}
            for c in ast.walk(body):
                if isinstance(c, ast.Assign):
                    for t in c.targets:
                        if isinstance(t, ast.Attribute) \
                           and t.attr == 'locked' \
                           and isinstance(c.value, ast.Constant):
                            b = ast.unparse(t.value)
                            s.discard(('lock', b, not c.value.value))
                            s.add(('lock', b, c.value.value))
                        if isinstance(t, ast.Attribute) \
                           and t.attr == 'r_vec' \
                           and not (isinstance(c.value, ast.Constant)
                                    and c.value.value is None):
                            s.add(('set', 'r_vec', ast.unparse(t.value)))
                elif isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Attribute):
                    m = c.func.attr
                    b = ast.unparse(c.func.value)
                    if m in ('set_data', 'set_constant', 'init_data'):
                        step = [k.value for k in c.keywords
                                if k.arg == 'step']
                        if step and not (isinstance(step[0], ast.Constant)
                                         and step[0].value == 0):
                            s.add(('set', 'history', b))
                    if m in SETTERS:
                        for x in VARS.get(f, ()):
                            if b == x:
                                out.append(('setter', c, b,
                                            ('lock', b, False) in s))
                    if m in CLEARS:
                        for e in list(s):
                            if e[0] == 'set' and e[1] in CLEARS[m]:
                                out.append(('clear', c, m, e))
            return {frozenset(s)}

        def bind_for(self, n, s):
            s = set(s)
            names = {x.id for x in ast.walk(n.target)
                     if isinstance(x, ast.Name)}
            it = ast.unparse(n.iter)
            for e in list(s):
                if e[0] == 'lock' and e[1] in names:
                    s.discard(e)
                    if e[2] is False:
                        s.add(('open', e[1], it, n))
                elif e[0] == 'open' and e[2] == it and e[3] is not n:
                    s.discard(e)
                    for x in names:
                        s.add(('lock', x, False))
            return {frozenset(s)}

        def end_for(self, n, s):
            out = set()
            it = ast.unparse(n.iter)
            names = {x.id for x in ast.walk(n.target)
                     if isinstance(x, ast.Name)}
            for e in s:
                if e[0] == 'open' and e[2] == it and e[3] is not n:
                    # No iteration here, some above.
                    return set()
                if e[0] == 'lock' and e[1] in names:
                    if e[2] is False:
                        out.add(('open', e[1], it, n))
                else:
                    out.add(e)
            return {frozenset(out)}

        def leave(self, how, node, s):
            if how == 'raise':
                return
            for e in s:
                if (e[0] == 'lock' and e[2] is False) or e[0] == 'open':
                    out.append(('unlocked', node or f.node, e[1], None))

    Ev().run(f.node, {frozenset()})
    return out


SETTERS = {'set_data', 'set_constant', 'set_from_mesh_vertices',
           'set_from_other', 'set_from_function'}
VARS = {}


def check_restored(ctx, pp):
    for f in pp.all_funcs():
        if f.rel.startswith(('sfepy/tests', 'sfepy/examples')):
            continue
        src = ast.unparse(f.node) if isinstance(f.node, ast.FunctionDef) \
            else ''
        rel = any(x in src for x in ('.locked', 'init_state(',
                                     'init_history('))
        if not rel:
            continue
        VARS[f] = {n.target.id for n in pyfe.own_nodes(f.node)
                   if isinstance(n, ast.For) and isinstance(
                       n.target, ast.Name)
                   and isinstance(n.iter, ast.Call)
                   and pyfe.call_name(n.iter) == 'iter_state'}
        ctx.count('initializing_functions')
        for e in events(ctx, f):
            if e[0] == 'clear':
                ctx.violation(
                    'cleared:%s:%s' % (f.qual, e[3][1]),
                    '%s() calls %s() that discards the %s set before'
                    % (f.qual, e[2], e[3][1]), f.where(e[1]))
            elif e[0] == 'setter':
                ctx.count('locked_setters')
                if not e[3]:
                    ctx.violation(
                        'locked:%s:%s' % (f.qual, e[2]),
                        '%s() sets the data of the locked variable %s'
                        % (f.qual, e[2]), f.where(e[1]))
            else:
                ctx.violation(
                    'unlocked:%s:%s' % (f.qual, e[2]),
                    '%s() leaves %s unlocked' % (f.qual, e[2]),
                    f.where(e[1]))


def run(ctx):
    pp = pyfe.load(ctx.repo)
    TITLES.clear()
    del TITLE_USES[:]
    VARS.clear()
    MEMO.clear()
    Interp.cache.clear()
    for name, (ws, rs) in PAIRS.items():
        check_pair(ctx, pp, name, ws, rs)
    for t, f, n in TITLE_USES:
        if t not in TITLES:
            ctx.violation('title:%s' % t, '%s() expects files with the title'
                          ' %r, which no writer creates' % (f.qual, t),
                          f.where(n))
    check_marks(ctx, pp)
    check_dict(ctx, pp)
    check_formats(ctx, pp)
    check_stepper_states(ctx, pp)
    check_restored(ctx, pp)
    ctx.floor('nodes_written', 40)
    ctx.floor('nodes_read', 40)
