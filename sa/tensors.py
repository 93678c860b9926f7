"""
Abstract tensors: sums of products of named factors with index variables.

An array is a list of axes (tuples of index variables, an empty tuple is an
axis of size one, more variables form a compound axis in row-major order) and a
list of terms (coefficient, factors); a factor is (name, (index, ...)), an
index is a tuple of variables, with a leading 's' when the pair is stored in
the symmetric storage. The leading cell and quadrature point axes are implied.
Forms are compared up to the names of the summed indices, the order of factors
and of terms.
"""
import itertools
from fractions import Fraction

_ids = itertools.count(1)
SIZE = {}


class Mismatch(Exception):
    pass


class Undecided(Exception):
    pass


def new(size):
    i = next(_ids)
    SIZE[i] = size
    return i


def atoms(idx):
    return [a for a in idx if a != 's']


class Arr:
    def __init__(self, axes, terms, lead=2):
        self.axes = list(axes)
        self.terms = list(terms)
        self.lead = lead

    @classmethod
    def named(cls, name, sizes, lead=2):
        axes = [() if s == 1 else (new(s),) for s in sizes]
        return cls(axes, [(Fraction(1), ((name,
                                          tuple(a for a in axes if a)),))],
                   lead)

    @classmethod
    def const(cls, value):
        return cls([(), ()], [(Fraction(value), ())], 0)

    def size(self, axis):
        n = 1
        for a in axis:
            n *= SIZE[a]
        return n

    @property
    def shape(self):
        return ('c', 'q')[:self.lead] + tuple(self.size(a)
                                              for a in self.axes)

    def fresh(self):
        ids = set()
        for ax in self.axes:
            ids.update(ax)
        for _, fs in self.terms:
            for _, idx in fs:
                for i in idx:
                    ids.update(atoms(i))
        m = {i: (new(SIZE[i]),) for i in ids}
        return self.subst(m)

    def subst(self, m):
        """Replace variables by tuples of variables."""
        def sub(idx):
            out = []
            for a in idx:
                out += list(m.get(a, (a,))) if a != 's' else ['s']
            return tuple(out)
        return Arr([sub(a) for a in self.axes],
                   [(c, tuple((n, tuple(sub(i) for i in idx))
                              for n, idx in fs)) for c, fs in self.terms],
                   self.lead)

    def scale(self, c):
        return Arr(self.axes, [(k * c, fs) for k, fs in self.terms],
                   self.lead)

    def transpose(self, perm):
        return Arr([self.axes[p] for p in perm], self.terms, self.lead)

    def drop(self, pos, comp=0):
        ax = self.axes[pos]
        out = self
        if ax:
            k = new(1)
            SIZE[k] = self.size(ax)
            lit = 'lit%s' % comp
            out = Arr(self.axes, [(c, fs + ((lit, (ax,)),))
                                  for c, fs in self.terms], self.lead)
        axes = list(out.axes)
        del axes[pos]
        return Arr(axes, out.terms, self.lead)

    def insert(self, pos):
        axes = list(self.axes)
        axes.insert(pos, ())
        return Arr(axes, self.terms, self.lead)

    def reshape(self, dims):
        arr = self
        flat = [a for ax in arr.axes for a in ax]
        out = []
        for d in dims:
            ax, n = [], 1
            while n < d:
                if not flat:
                    raise Mismatch('cannot reshape %s to %s'
                                   % (self.shape, dims))
                a = flat.pop(0)
                s = SIZE[a]
                need = d // n
                if d % n:
                    raise Mismatch('cannot reshape %s to %s'
                                   % (self.shape, dims))
                if s <= need:
                    ax.append(a)
                    n *= s
                else:
                    if s % need:
                        raise Mismatch('cannot reshape %s to %s'
                                       % (self.shape, dims))
                    p, r = new(need), new(s // need)
                    arr = arr.subst({a: (p, r)})
                    out = [tuple(y for x in o
                                 for y in ((p, r) if x == a else (x,)))
                           for o in out]
                    ax.append(p)
                    n *= need
                    flat.insert(0, r)
            if n != d:
                raise Mismatch('cannot reshape %s to %s' % (self.shape, dims))
            out.append(tuple(ax))
        if flat:
            raise Mismatch('cannot reshape %s to %s' % (self.shape, dims))
        return Arr(out, arr.terms, arr.lead)

    def split_sym(self, pos, dim):
        """Symmetric storage -> (dim, dim) pair stored row by row."""
        ax = self.axes[pos]
        if len(ax) != 1 or SIZE[ax[0]] != dim * (dim + 1) // 2:
            raise Undecided('not a symmetric storage axis')
        i, j = new(dim), new(dim)
        out = self.subst({ax[0]: ('s', i, j)})
        axes = list(out.axes)
        axes[pos] = (i, j)
        return Arr(axes, out.terms, self.lead)


def unify(a, b, aa, bb):
    """Make axes `aa` of a, `bb` of b the same: (a, b, axis)."""
    if not aa or not bb:
        return a, b, aa or bb
    if a.size(aa) != b.size(bb):
        raise Mismatch('extents %d and %d do not match'
                       % (a.size(aa), b.size(bb)))
    xa, xb = list(aa), list(bb)
    ma, mb, out = {}, {}, []
    while xa and xb:
        p, q = xa.pop(0), xb.pop(0)
        if SIZE[p] == SIZE[q]:
            mb[q] = (p,)
            out.append(p)
        elif SIZE[p] > SIZE[q] and SIZE[p] % SIZE[q] == 0:
            r = new(SIZE[p] // SIZE[q])
            h = new(SIZE[q])
            ma[p] = (h, r)
            mb[q] = (h,)
            out.append(h)
            xa.insert(0, r)
        elif SIZE[q] % SIZE[p] == 0:
            r = new(SIZE[q] // SIZE[p])
            mb[q] = (p, r)
            out.append(p)
            xb.insert(0, r)
        else:
            raise Mismatch('different meaning of an axis')

    # chained splits
    def close(m):
        done = {}

        def full(x):
            return tuple(z for y in m[x] for z in (full(y) if y in m
                                                   and y != x else (y,)))
        for x in m:
            done[x] = full(x)
        return done
    ma, mb = close(ma), close(mb)
    fin = []
    for o in out:
        fin += list(ma.get(o, (o,)))
    a2, b2 = a.subst(ma), b.subst(mb)
    return a2, b2, tuple(fin)


def align(a, b):
    n = max(len(a.axes), len(b.axes))
    while len(a.axes) < n:
        a = a.insert(0)
    while len(b.axes) < n:
        b = b.insert(0)
    axes = [None] * n
    for k in range(n):
        a, b, ax = unify(a, b, a.axes[k], b.axes[k])
        axes[k] = ax
        aa, bb = list(a.axes), list(b.axes)
        a, b = Arr(aa, a.terms, a.lead), Arr(bb, b.terms, b.lead)
    # later unifications may have refined earlier axes: recompute
    axes = [x or y for x, y in zip(a.axes, b.axes)]
    return a, b, axes


def outer(a, b):
    a, b = a.fresh(), b.fresh()
    return Arr(a.axes + b.axes, [(c * d, f + g) for c, f in a.terms
                                 for d, g in b.terms], max(a.lead, b.lead))


def join(arr, p, q):
    """Make axes p and q of one array the same variables."""
    x, y = list(arr.axes[p]), list(arr.axes[q])
    if arr.size(x) != arr.size(y):
        raise Mismatch('extents %d and %d do not match'
                       % (arr.size(x), arr.size(y)))
    while True:
        x, y = list(arr.axes[p]), list(arr.axes[q])
        for u, v in zip(x, y):
            if u != v:
                break
        else:
            return arr
        if SIZE[u] == SIZE[v]:
            arr = arr.subst({v: (u,)})
        elif SIZE[u] > SIZE[v] and SIZE[u] % SIZE[v] == 0:
            arr = arr.subst({u: (new(SIZE[v]), new(SIZE[u] // SIZE[v]))})
        elif SIZE[v] % SIZE[u] == 0:
            arr = arr.subst({v: (new(SIZE[u]), new(SIZE[v] // SIZE[u]))})
        else:
            raise Mismatch('an axis is used with two meanings')


def mul(a, b):
    n, m = len(a.axes), len(b.axes)
    while n < m:
        a, n = a.insert(0), n + 1
    while m < n:
        b, m = b.insert(0), m + 1
    o = outer(a, b)
    for k in range(n):
        if o.axes[k] and o.axes[n + k]:
            o = join(o, k, n + k)
    return Arr([x or y for x, y in zip(o.axes[:n], o.axes[n:])], o.terms,
               o.lead)


def add(a, b, sign=1):
    a, b, axes = align(a.fresh(), b.fresh())
    for ax, x, y in zip(axes, a.axes, b.axes):
        if ax and (not x or not y):
            # a constant along an axis: factor of ones, kept explicit
            t = a if not x else b
            one = tuple((c, f + (('one', (ax,)),)) for c, f in t.terms)
            if t is a:
                a = Arr(a.axes, one, a.lead)
            else:
                b = Arr(b.axes, one, b.lead)
    return Arr(axes, list(a.terms) + [(c * sign, f) for c, f in b.terms],
               max(a.lead, b.lead))


def matmul(a, b):
    if len(a.axes) < 2 or len(b.axes) < 2:
        raise Undecided('matmul of vectors')
    n = len(a.axes)
    o = outer(a, b)
    k = len(o.axes) - 2
    o = join(o, n - 1, k)
    lead = o.axes[:n - 2]
    blead = o.axes[n:k]
    if any(blead) or any(lead):
        if any(x and y for x, y in zip(lead, blead)):
            raise Undecided('stacked matmul')
    return Arr((lead if len(lead) >= len(blead) else blead)
               + [o.axes[n - 2], o.axes[-1]], o.terms, o.lead)


def eye(n, dim):
    ax = [(), ()] if n == 1 else [(new(n),), (new(n),)]
    return Arr(ax, [(Fraction(1), (('I', tuple(ax)),) if n > 1 else ())], 0)


def trace(a, p, q):
    a = a.fresh()
    x, y = a.axes[p], a.axes[q]
    if a.size(x) != a.size(y) or len(x) != len(y):
        raise Undecided('trace')
    a = a.subst({u: (v,) for u, v in zip(x, y)})
    axes = [ax for k, ax in enumerate(a.axes) if k not in (p, q)]
    return Arr(axes, a.terms, a.lead)


def contract(ops, groups):
    """
    ops: arrays, groups: letters (or digits) of their axes.
    Returns the array with axes of the letters that occur once, sorted.
    """
    prod, letters = None, []
    for k, (o, g) in enumerate(zip(ops, groups)):
        if len(o.axes) != len(g):
            raise Mismatch('operand %d has %d axes, indices %r are used'
                           % (k, len(o.axes), ''.join(g)))
        pos = 0
        for ch in g:
            if ch.isdigit():
                o = o.drop(pos, int(ch))
            else:
                letters.append(ch)
                pos += 1
        prod = o.fresh() if prod is None else outer(prod, o)
    first = {}
    for p, ch in enumerate(letters):
        if ch in first:
            try:
                prod = join(prod, first[ch], p)
            except Mismatch as exc:
                raise Mismatch('index %s: %s' % (ch, exc))
        else:
            first[ch] = p
    free = sorted(ch for ch in first if letters.count(ch) == 1)
    return Arr([prod.axes[first[ch]] for ch in free], prod.terms)


# ------------------------------------------------------------ normal form
def elim(fs, free):
    """Remove identities between variables."""
    fs = list(fs)
    # expand compound identities
    out = []
    for n, idx in fs:
        if n == 'I' and len(idx) == 2 and len(idx[0]) == len(idx[1]):
            for a, b in zip(*idx):
                out.append(('I', ((a,), (b,))))
        else:
            out.append((n, idx))
    fs = out
    changed = True
    while changed:
        changed = False
        for k, (n, idx) in enumerate(fs):
            if n != 'I' or len(idx) != 2 or len(idx[0]) != 1 \
               or len(idx[1]) != 1:
                continue
            (a,), (b,) = idx
            if a == b:
                continue
            if a in free and b in free:
                continue
            if b in free:
                a, b = b, a
            rest = fs[:k] + fs[k + 1:]
            if not any(b in i for _, ix in rest for i in ix):
                continue
            fs = [(m, tuple(tuple(a if x == b else x for x in i)
                            for i in ix)) for m, ix in rest]
            changed = True
            break
    return fs


def canon_term(fs, free):
    fs = elim(fs, free)
    groups = {}
    for n, idx in fs:
        groups.setdefault(n, []).append(idx)
    names = sorted(groups)
    best = None
    perms = [list(itertools.permutations(groups[n])) for n in names]
    for combo in itertools.product(*perms):
        # identities are symmetric
        seq = [(n, (('s', idx[0][0], idx[1][0]),) if n == 'I'
                and [len(i) for i in idx] == [1, 1] else idx)
               for n, p in zip(names, combo) for idx in p]
        nsym = sum(1 for _, idx in seq for i in idx if i and i[0] == 's')
        for flips in itertools.product((0, 1), repeat=nsym):
            it = iter(flips)
            num = {f: 'f%d' % k for k, f in enumerate(free)}
            out = []
            for n, idx in seq:
                ii = []
                for i in idx:
                    a = atoms(i)
                    if i and i[0] == 's':
                        if next(it):
                            a = a[::-1]
                        tag = 's'
                    else:
                        tag = ''
                    lab = []
                    for x in a:
                        if x not in num:
                            num[x] = 'x%d' % (len(num) - len(free))
                        lab.append(num[x])
                    ii.append(tag + '.'.join(lab))
                out.append('%s[%s]' % (n, ','.join(ii)))
            s = ' '.join(out)
            if best is None or s < best:
                best = s
    return best or '1'


def canon(arr):
    """Dictionary canonical product -> coefficient."""
    free = [a for ax in arr.axes for a in ax]
    out = {}
    for c, fs in arr.terms:
        s = canon_term(fs, free)
        out[s] = out.get(s, 0) + c
    return {s: c for s, c in out.items() if c}


def show(form):
    if not form:
        return '0'
    return ' '.join('%s%s' % ('+ ' if c == 1 else '- ' if c == -1
                              else '%s ' % c, s)
                    for s, c in sorted(form.items()))
