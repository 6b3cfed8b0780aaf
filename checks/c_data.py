"""Reading tensor files (dataproc/reader.py) and generating synthetic data (demo/DataGenerator.py)."""
import contextlib
import itertools
import os
import shutil
import tempfile
from ctypes import ArgumentError

from vlib.boot import np, tf1, z3
from vlib import core, npsym, spec as S, tfsem
from vlib.core import R, bz, lift, obj
from vlib.harness import Case
from checks.common import REAL, registry, sh

from tensorD.dataproc import reader
from tensorD.demo import DataGenerator

PROPS, prop = registry()


# ---------------------------------------------------------------- texts that stand for any number
class Texts:
    """While symbolic, a cell of the file holds a name and parsing it gives the symbolic number; the real file holds digits."""

    def __init__(self, H):
        self.H, self.table = H, {}

    def cell(self, v, integer, pad=''):
        if self.H.mode == 'real':
            return pad + (repr(int(v.c)) if integer else repr(float(v.c))) + pad
        n = 'cell_%d_' % len(self.table)
        self.table[n] = v
        return pad + n + pad

    def get(self, x):
        return self.table.get(str.strip(x)) if isinstance(x, str) else None


class Cell(str):
    """The text of a symbolic number: equal texts are equal numbers (digits are written in one way only)."""
    table = None

    def __eq__(self, o):
        if not isinstance(o, Cell):
            return str.__eq__(self, o) if not isinstance(o, str) or not number_like(o) else \
                self.unknown('comparison with a number\'s text')
        a, b = lift(self.table[self.strip_()]), lift(self.table[o.strip_()])
        if a.e is None and b.e is None:
            return a.c == b.c
        if str.__eq__(self, o):
            return True
        if str(self) != self.strip_() or str(o) != o.strip_():
            self.unknown('comparison of padded texts')
        return bool(a == b)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 1

    def strip_(self):
        return str.strip(self)

    def unknown(self, *a):
        raise core.Unsupported('text of a symbolic number: %s' % (a[:1],))

    def keep(self, *a):
        r = Cell(str.strip(self))
        r.table = self.table
        return r

    strip = lstrip = rstrip = keep
    replace = lower = upper = title = lambda self, *a: self if not a or not set(a[0]) & set('0123456789.-+e') else self.unknown('replace')

    def startswith(self, p, *a):
        p = (p,) if isinstance(p, str) else p
        return any(x == '' for x in p) if not any(set(x) & set('0123456789.-+ni') for x in p) else self.unknown('startswith')

    endswith = startswith
    isdigit = isnumeric = isdecimal = isalnum = isalpha = __lt__ = __gt__ = __le__ = __ge__ = split = partition = unknown


def number_like(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


class SymCsv:
    """The csv module, its cells marked."""

    def __init__(self, T):
        import csv
        self.csv, self.T = csv, T

    def __getattr__(self, k):
        return getattr(self.csv, k)

    def mark(self, x):
        if isinstance(x, str) and x.strip() in self.T.table:
            x = Cell(x)
            x.table = self.T.table
        return x

    def reader(self, *a, **kw):
        for row in self.csv.reader(*a, **kw):
            yield [self.mark(x) for x in row]


def parsers(H, T):
    """int() and float() as the reader sees them."""
    if H.mode == 'real':
        return {}

    class Meta(type):
        base = None

        def __instancecheck__(cls, x):
            return isinstance(x, cls.base)

        def __subclasscheck__(cls, x):
            return issubclass(x, cls.base)

    class MInt(Meta):
        base = int

    class MFloat(Meta):
        base = float

    class symint(int, metaclass=MInt):
        dtype = np.dtype('int64')

        def __new__(cls, x=0, *a):
            v = T.get(x)
            if v is not None:
                if v.e is not None and v.e.sort() != z3.IntSort():
                    raise ValueError('invalid literal for int(): a real number')
                return v if v.e is not None or v.c != int(v.c) else int(v.c)
            if isinstance(x, R):
                return int(x.c) if x.e is None else x if x.e.sort() == z3.IntSort() else core.trunc_(x)
            return int(x, *a)

    class symfloat(float, metaclass=MFloat):
        dtype = np.dtype('float64')

        def __new__(cls, x=0.0):
            v = T.get(x)
            if v is not None:
                return R(z3.ToReal(v.e)) if v.e is not None and v.e.sort() == z3.IntSort() else v
            if isinstance(x, R):
                return x
            return float(x)
    npsym.TEXTS[0] = T.get
    return dict(int=symint, float=symfloat, csv=SymCsv(T))


@contextlib.contextmanager
def shimmed(H, mods, extra=None):
    try:
        with npsym.shim(H, mods, extra=extra):
            yield
    finally:
        npsym.TEXTS[0] = None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vcheck')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def index_number(H, name, hi):
    v = H.value(name, lo=0, hi=hi, integer=True)
    return v if H.sym else R(int(v.c))


def same_index(a, b):
    if all(x.e is None and y.e is None for x, y in zip(a, b)):
        return all(int(x.c) == int(y.c) for x, y in zip(a, b))
    return core.mkb(z3.And([x.z() == y.z() for x, y in zip(a, b)]))


def write(path, T, rows, style):
    lines = []
    for n, (ix, v) in enumerate(rows):
        pad = ' ' if style == 'padded' else ''
        lines.append(','.join([T.cell(x, True, pad) for x in ix] + [T.cell(v, False, pad)]))
        if style == 'blank':
            lines.append('')
    if style == 'blank':
        lines.insert(0, '')
    text = '\n'.join(lines)
    if style == 'crlf':
        text = text.replace('\n', '\r\n')
    with open(path, 'w', newline='') as f:
        f.write(text + ('' if style == 'noeol' else '\r\n' if style == 'crlf' else '\n'))


def check_tensor(H, name, r, rows, shape, repeated=False):
    """The reader holds exactly the rows: shape None is the smallest that holds them."""
    dense, sparse = H.run([r.full_data, r.sparse_data])
    si, sv, ss = sparse
    order = len(rows[0][0])
    H.ok(name + ': values are float64', r.full_data.dtype == tf1.float64 and r.sparse_data.dtype == tf1.float64)
    got = dense.shape
    H.ok(name + ': order', len(got) == order)
    H.eq(name + ': shape of the sparse tensor', list(np.asarray(ss).reshape(-1)), [R(int(d)) for d in got])
    if shape is not None:
        H.ok(name + ': the requested shape', list(got) == list(shape))
    else:
        for k in range(order):
            m = rows[0][0][k]
            for ix, _ in rows[1:]:
                m = core.rmax(m, ix[k])
            H.eq(name + ': smallest shape, mode %d' % k, R(int(got[k])), m + 1)
    want = np.empty(got, dtype=object)
    for p in np.ndindex(*got):
        w = R(0)
        for ix, v in rows:
            hit = same_index(ix, [R(int(q)) for q in p])
            w = core.ite(hit, v, w) if not isinstance(hit, bool) else (v if hit else w)
        want[p] = w
    if repeated:        # the sparse tensor lists every row; the dense tensor holds one of the values listed for an index
        summed = np.empty(got, dtype=object)
        for p in np.ndindex(*got):
            on = [(same_index(ix, [R(int(q)) for q in p]), v) for ix, v in rows]
            summed[p] = core.rsum([core.ite(h, v, R(0)) if not isinstance(h, bool) else (v if h else R(0)) for h, v in on])
            g = lift(np.asarray(dense)[p])
            if H.sym:
                some = z3.Or([core.bz(h) for h, _ in on])
                H.ok(name + ': dense at %s' % (p,), core.mkb(z3.Or([z3.And(core.bz(h), core.bz(g == v)) for h, v in on] +
                                                                [z3.And(z3.Not(some), core.bz(g == R(0)))])))
            else:
                H.ok(name + ': dense at %s' % (p,), float(g.c) in ([float(v.c) for h, v in on if h] or [0.0]))
        want = summed
    else:
        H.eq(name + ': dense', dense, want, tol=1e-13)
    H.ok(name + ': entries of the sparse tensor', np.asarray(si).shape == (len(rows), order) and np.asarray(sv).shape == (len(rows),))
    back = tfsem.scatter(obj(np.asarray(si)), obj(np.asarray(sv)), got, 'add')
    H.eq(name + ': sparse', back, want, tol=1e-13)


def make_rows(H, dims, n, tag='', repeated=False):
    rows = [([index_number(H, '%si%d_%d' % (tag, j, k), d - 1) for k, d in enumerate(dims)], H.value('%sv%d' % (tag, j))) for j in range(n)]
    for a, b in itertools.combinations(rows, 2) if not repeated else ():
        s = same_index(a[0], b[0])
        H.assume(not s if isinstance(s, bool) else ~s)
    return rows


def c24(H, dims, n, ext, style, shape, repeated=False):
    with scratch() as d:
        T = Texts(H)
        rows = make_rows(H, dims, n, repeated=repeated)
        path = os.path.join(d, 'some.data.' + ext)
        write(path, T, rows, style)
        r = reader.TensorReader(path)
        H.ok('nothing before reading', r.full_data is None and r.sparse_data is None)
        with shimmed(H, [reader], parsers(H, T)):
            if shape is None:
                r.read()
            else:
                given = dict(list=list, tuple=tuple, array=np.array)[shape[0]](shape[1])
                r.read(given)
                H.ok('the given shape is left alone', list(given) == list(shape[1]))
        check_tensor(H, 'read', r, rows, shape and shape[1], repeated)


def c24_again(H, dims, n1, n2):
    """Reading again after the file changed, and two readers side by side."""
    with scratch() as d:
        T = Texts(H)
        a, b = make_rows(H, dims, n1), make_rows(H, dims, n2, 'b')
        path = os.path.join(d, 'x.csv')
        write(path, T, a, 'plain')
        r, r2 = reader.TensorReader(path), reader.TensorReader(path)
        with shimmed(H, [reader], parsers(H, T)):
            r.read(list(dims))
            write(path, T, b, 'plain')
            r2.read(list(dims))
            check_tensor(H, 'first reader', r, a, dims)
            check_tensor(H, 'second reader', r2, b, dims)
            r.read(list(dims))
        check_tensor(H, 'second reading', r, b, dims)


def c24_text(H, ext, eol):
    """Numbers as they are written in files: signs, exponents, leading zeros, many digits."""
    lines = ['0,1,1e-05', '1,0,-2.5E+3', '+2,00, 7', '2, 1,0.1000000000000000055', '01,2,1e+03', '0,3,-0.0', '2,3,1234.123456789012', '1,1,.5']
    with scratch() as d:
        path = os.path.join(d, 'numbers.' + ext)
        with open(path, 'w', newline='') as f:
            f.write(eol.join(lines) + eol)
        H.value('unused')
        rows = [([R(int(t)) for t in ln.split(',')[:-1]], R(float(ln.split(',')[-1]))) for ln in lines]
        for shape in (None, [3, 4], [4, 6]):
            r = reader.TensorReader(path)
            with shimmed(H, [reader], parsers(H, Texts(H))):
                r.read(*([shape] if shape else []))
            check_tensor(H, 'shape %s' % (shape,), r, rows, shape)


def c24_refuse(H, name):
    with scratch() as d:
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write('0,0,1.0\n')
        H.value('unused')
        r = reader.TensorReader(path)
        H.raises('an unsupported type is refused', ArgumentError, r.read)
        H.ok('nothing is published', r.full_data is None and r.sparse_data is None)


@prop('C24', 'orders 1..4, 1..4 entries, dimensions 1..3 (inferred or given as list, tuple or array), every index tuple (distinct rows) and every '
      'real value; csv and txt, blank lines, padding, CRLF, missing final newline; reading twice',
      'which of several values given for one index the dense tensor holds, rows of different lengths, quoting; the conversion of a decimal text to a double is Python\'s', [REAL])
def c24_cases(tier):
    cs = []

    def add(dims, n, ext='csv', style='plain', shape=None, tier_='quick'):
        cs.append(Case('%d entries %s %s %s, shape %s' % (n, sh(dims), ext, style, 'inferred' if shape is None else '%s %s' % (shape[0], sh(shape[1]))),
                       c24, dict(dims=dims, n=n, ext=ext, style=style, shape=shape), timeout=300))
    for dims, n in (((3,), 2), ((2, 3), 1), ((2, 2), 3), ((3, 2), 2), ((2, 2, 2), 2), ((2, 1, 3), 2), ((2, 2, 2), 3), ((2, 1, 2, 2), 2)):
        add(dims, n)
        add(dims, n, shape=('list', dims))
    for style in ('blank', 'padded', 'crlf', 'noeol'):
        add((2, 3), 2, style=style)
        add((2, 2, 2), 2, 'txt', style, ('tuple', (2, 2, 2)))
    add((2, 2), 2, 'txt')
    add((2, 2), 2, shape=('array', (2, 2)))
    add((2, 2), 2, shape=('list', (4, 3)))
    add((2, 3, 2), 2, shape=('tuple', (3, 3, 5)))
    add((2, 2, 3), 4, 'txt', shape=('list', (2, 2, 3)))
    if tier != 'quick':
        add((3, 3, 3), 3)
        add((3, 3, 3), 5, shape=('list', (3, 3, 3)))
        add((2, 2, 2, 2), 4, shape=('list', (2, 2, 2, 2)))
        add((2, 2, 2, 2), 3)
        add((2, 1, 2, 1, 2), 3)
        add((4, 4), 5)
    for dims, n, style in (((2,), 2, 'plain'), ((2, 2), 2, 'plain'), ((2, 2), 3, 'blank'), ((1, 2, 2), 2, 'noeol')):
        cs.append(Case('%d entries %s %s, rows may repeat an index' % (n, sh(dims), style), c24,
                       dict(dims=dims, n=n, ext='csv', style=style, shape=('list', dims), repeated=True), timeout=300))
    cs.append(Case('written numbers csv', c24_text, dict(ext='csv', eol='\n')))
    cs.append(Case('written numbers txt', c24_text, dict(ext='txt', eol='\r\n')))
    cs.append(Case('the file changes between readings', c24_again, dict(dims=(2, 2), n1=2, n2=1)))
    cs.append(Case('the file grows between readings', c24_again, dict(dims=(2, 3), n1=1, n2=3)))
    for name in ('x.json', 'x.csvx', 'csv.dat', 'plain', 'x.txt.gz'):
        cs.append(Case('refuses ' + name, c24_refuse, dict(name=name), validate=False))
    return cs


# ---------------------------------------------------------------- C26
def pick(log, kinds, shape):
    """The next draw of this kind and shape."""
    for n, (k, v) in enumerate(log):
        if k in kinds and np.shape(v) == tuple(shape):
            return log.pop(n)[1]
    return None


def c26(H, kind, dims, ranks, noise, given):
    amp = None if noise == 'default' else R(0) if noise == 'zero' else H.value('amplitude', lo=0, hi=3)
    a = None if amp is None else 0 if noise == 'zero' else (amp if H.mode != 'real' else float(amp.c))
    N = list(dims) if given == 'list' else tuple(dims)
    K = ranks if kind == 'cp' else (list(ranks) if given == 'list' else tuple(ranks))
    with shimmed(H, [DataGenerator]):
        f = DataGenerator.synthetic_data_cp if kind == 'cp' else DataGenerator.synthetic_data_tucker
        got = f(N, K) if a is None else f(N, K, a)
        log = list(npsym.shared(H).kinds)
    H.ok('the arguments are left alone', list(N) == list(dims) and (kind == 'cp' or list(K) == list(ranks)))
    got = obj(np.asarray(got))
    H.ok('shape', got.shape == tuple(dims))
    H.observe(got)
    uni = ('rand', 'random')
    rk = [ranks] * len(dims) if kind == 'cp' else ranks
    g = None
    if kind == 'tucker' and [k for k, v in log if np.shape(v) == tuple(ranks)]:
        g = pick(log, uni, ranks)       # a factor may have the shape of the core: the core comes first, or has a shape of its own
    U = [pick(log, uni, (d, r)) for d, r in zip(dims, rk)]
    z = pick(log, ('randn',), dims)
    H.ok('one random draw per factor, for the core and for the noise',
         all(u is not None for u in U) and z is not None and (kind == 'cp' or g is not None))
    U = [obj(np.asarray(u)) for u in U]
    exact = S.kruskal(U) if kind == 'cp' else S.tucker(obj(np.asarray(g)), U)
    z = obj(np.asarray(z))
    if noise == 'default':
        amp = R(0.1 if kind == 'cp' else 0.04)
    want = np.empty(got.shape, dtype=object)
    for p in np.ndindex(*got.shape):
        n = core.rmax(R(0), amp * z[p])
        want[p] = exact[p] + n
    H.eq('model plus noise', got, want, tol=1e-5)
    if noise == 'zero':
        H.eq('amplitude zero gives the exact model', got, exact, tol=1e-5)
    for p in list(np.ndindex(*got.shape))[:2] + [tuple(d - 1 for d in dims)]:
        H.ok('the noise is not negative at %s' % (p,), got[p] - exact[p] >= R(0) if H.sym else float((got[p] - exact[p]).c) >= -1e-5)


@prop('C26', 'orders 1..4, dimensions 1..4, ranks 1..3, any amplitude in [0, 3] or the default, any random draw in [0, 1] for factors and core and '
      'any real number for the noise', 'the distribution of the draws; negative amplitudes', [REAL])
def c26_cases(tier):
    cs = []

    def add(kind, dims, ranks, noise, given='list'):
        cs.append(Case('%s %s ranks %s noise %s %s' % (kind, sh(dims), ranks if kind == 'cp' else sh(ranks), noise, given), c26,
                       dict(kind=kind, dims=dims, ranks=ranks, noise=noise, given=given), timeout=200))
    for dims, r in (((2, 3), 1), ((2, 3, 4), 2), ((3, 2, 1), 2), ((2, 4, 1, 3), 2), ((2, 3), 4), ((1, 2, 3), 3), ((2, 2, 2), 2), ((3,), 2), ((2, 1, 3, 2, 4), 1)):
        add('cp', dims, r, 'any')
        add('cp', dims, r, 'zero', 'tuple')
    add('cp', (2, 3, 4), 1, 'default')
    for dims, r in (((2, 3), (1, 2)), ((2, 3, 4), (1, 2, 2)), ((3, 2, 4), (2, 1, 3)), ((3, 2, 2, 4), (1, 2, 1, 2)), ((4, 2, 3), (2, 2, 2)),
                    ((2, 3, 1, 4), (1, 1, 1, 1)), ((2, 2, 2), (2, 1, 2)), ((3,), (2,)), ((2, 1, 3, 2, 4), (1, 1, 2, 1, 1))):
        add('tucker', dims, r, 'any')
        add('tucker', dims, r, 'zero', 'tuple')
    add('tucker', (2, 3, 4), (2, 2, 1), 'default')
    if tier != 'quick':
        for dims, r in (((4, 3, 5), 3), ((2, 3, 4, 5), 2), ((2, 1, 3, 4, 5), 2)):
            add('cp', dims, r, 'any')
        for dims, r in (((4, 3, 5), (2, 3, 2)), ((2, 3, 4, 5), (2, 2, 3, 2))):
            add('tucker', dims, r, 'any')
    return cs
