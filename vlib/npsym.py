"""numpy over symbolic numbers: SymArray takes part in numpy's own dispatch protocols, and the modules under test that build
their own arrays see a numpy whose zeros/array/random functions produce symbolic-capable arrays."""
import contextlib
import math

from .boot import np, z3
from . import core, tfsem
from .core import R, B, SymArray, Unsupported, lift, obj, symarray

# ---------------------------------------------------------------- element functions
INT = ('int32', 'int64', 'int8', 'uint8', 'int16', 'bool')


def plain(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def num(x):
    return x.num() if isinstance(x, B) else x


def cmp(f):
    def g(a, b):
        return f(lift(num(a)), lift(num(b)))
    return g


def sign(a):
    a = lift(a)
    if a.e is None:
        return R((a.c > 0) - (a.c < 0))
    return R(z3.If(a.e > 0, z3.RealVal(1), z3.If(a.e < 0, z3.RealVal(-1), z3.RealVal(0))))


def b_(x):
    if isinstance(x, B):
        return x
    if isinstance(x, R):
        return x != 0
    return bool(x)


def fmod_(a, b):
    return lift(a) % lift(b)


ELEM = {np.maximum: core.rmax, np.minimum: core.rmin, np.fmax: core.rmax, np.fmin: core.rmin, np.sign: sign,
        np.absolute: lambda a: abs(lift(a)), np.fabs: lambda a: abs(lift(a)),
        np.sqrt: lambda a: core.sqrt(lift(a)), np.square: lambda a: lift(a) * lift(a),
        np.negative: lambda a: -lift(a), np.reciprocal: lambda a: core.div(R(1), lift(a)),
        np.greater: cmp(lambda a, b: a > b), np.greater_equal: cmp(lambda a, b: a >= b), np.less: cmp(lambda a, b: a < b),
        np.less_equal: cmp(lambda a, b: a <= b), np.equal: cmp(lambda a, b: a == b), np.not_equal: cmp(lambda a, b: a != b),
        np.logical_and: lambda a, b: b_(a) & b_(b), np.logical_or: lambda a, b: b_(a) | b_(b),
        np.logical_not: lambda a: ~b_(a) if isinstance(b_(a), B) else not b_(a),
        np.floor: lambda a: core.floor_(lift(a)), np.trunc: lambda a: core.trunc_(lift(a)), np.rint: None,
        np.isnan: lambda a: False, np.isfinite: lambda a: True, np.isinf: lambda a: False,
        np.exp: lambda a: core.ufun('exp', lift(a)), np.log: lambda a: core.ufun('log', lift(a)),
        np.power: lambda a, b: core.power(lift(a), lift(b)), np.float_power: lambda a, b: core.power(lift(a), lift(b)),
        np.divide: lambda a, b: core.div(lift(num(a)), lift(num(b))), np.conjugate: lambda a: a}
FINITE = (np.isnan, np.isfinite, np.isinf)


def elementwise(f, *xs):
    xs = [np.asarray(plain(x), dtype=object) if not isinstance(x, (R, B)) else tfsem.wrap0(x) for x in xs]
    bs = np.broadcast_arrays(*xs) if len(xs) > 1 else xs
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[b[i] for b in bs])
    return out


def result_dtype(inputs):
    ds = []
    for x in inputs:
        if isinstance(x, SymArray):
            ds.append(x.tf_dtype)
        elif isinstance(x, np.ndarray):
            ds.append(x.dtype.name)
        elif isinstance(x, R):
            ds.append('int64' if x.e is not None and x.e.sort() == z3.IntSort() else 'float64')
        elif isinstance(x, (bool, int, np.integer)):
            ds.append('int32')
        elif isinstance(x, (float, np.floating)):
            ds.append('weak')
    if all(d in INT for d in ds):
        return 'int64'
    fs = [d for d in ds if d in ('float32', 'float64', 'object')]
    return 'float32' if fs and all(d == 'float32' for d in fs) else 'float64'


def finish(r, inputs):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r[()]
        return symarray(r, result_dtype(inputs))
    return r


def array_ufunc(self, ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    if method == '__call__' and ufunc in ELEM and ELEM[ufunc] is not None:
        if ufunc in FINITE and core.NUMERIC[0]:
            f = dict(isnan=math.isnan, isfinite=math.isfinite, isinf=math.isinf)[ufunc.__name__]
            return elementwise(lambda a: f(float(lift(a).c)), *inputs).astype(bool)
        r = elementwise(ELEM[ufunc], *inputs)
        if all(isinstance(x, (bool, np.bool_)) for x in r.flat) and r.size:
            r = r.astype(bool)
    elif method == 'reduce' and ufunc in (np.maximum, np.minimum):
        a = np.asarray(plain(inputs[0]), dtype=object)
        ax = kw.get('axis', 0)
        ax = tuple(range(a.ndim)) if ax is None else (ax if isinstance(ax, tuple) else (ax,))
        r = tfsem.reduce_axes(a, [x % a.ndim for x in ax], tfsem.fold_max if ufunc is np.maximum else tfsem.fold_min,
                              bool(kw.get('keepdims')))
    elif ufunc is np.matmul and method == '__call__':
        a, b = [np.asarray(plain(x), dtype=object) for x in inputs]
        if a.ndim == 1 or b.ndim == 1:
            r = np.dot(a, b)
            r = np.asarray(r, dtype=object) if not isinstance(r, R) else tfsem.wrap0(r)
        else:
            r = tfsem.matmul(obj(a), obj(b)) if a.ndim == b.ndim == 2 else np.matmul(a, b)
    else:
        if method == 'at':
            inputs = (inputs[0], core.index(inputs[1])) + tuple(inputs[2:])
        r = getattr(ufunc, method)(*[plain(x) if isinstance(x, SymArray) else x for x in inputs], **kw)
        if isinstance(r, np.ndarray) and r.dtype == object and r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
            r = r.astype(bool)
        if r is None:
            return None
    if out is not None:
        o = out[0]
        plain(o)[...] = r
        return o
    return finish(np.asarray(r, dtype=object) if isinstance(r, (R, B)) else r, inputs)


# ---------------------------------------------------------------- numpy functions
AF = {}


def af(*fs):
    def deco(g):
        for f in fs:
            AF[f] = g
        return g
    return deco


def sa(x, like=None):
    x = np.asarray(x, dtype=object)
    return x[()] if x.ndim == 0 else symarray(x, getattr(like, 'tf_dtype', 'float64'))


@af(np.linalg.pinv)
def _pinv(a, rcond=None, hermitian=False, *, rtol=None):
    c = rcond if rcond is not None else rtol
    c = None if c is None or core.has_symbols(np.asarray(c, dtype=object)) else float(np.max(c))
    return sa(tfsem.batch(lambda m: tfsem.pinv(m, c), obj(np.asarray(a))), a)


@af(np.linalg.inv)
def _inv(a):
    return sa(tfsem.batch(tfsem.pinv, obj(np.asarray(a))), a)


@af(np.linalg.solve)
def _solve(a, b):
    a, b = obj(np.asarray(a)), obj(np.asarray(b))
    return sa(tfsem.matmul(tfsem.pinv(a), b) if b.ndim == 2 else np.dot(tfsem.pinv(a), b), a)


@af(np.linalg.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    m = obj(np.asarray(a))
    if m.ndim != 2:
        raise Unsupported('np.linalg.svd of a batch')
    if not compute_uv:
        return sa(np.array(tfsem.singular_values(m)), a)
    s, u, v = tfsem.svd(m, full_matrices)
    return sa(np.array(u), a), sa(np.array(s), a), sa(np.array(tfsem.tr(v)), a)


@af(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    a = obj(np.asarray(x))
    if axis is not None:
        ax = [axis] if isinstance(axis, int) else list(axis)
        if ord in (None, 2, 'fro') and (ord is None or len(ax) == (1 if ord == 2 else 2)):
            r = tfsem.reduce_axes(a, [i % a.ndim for i in ax], lambda v: core.sqrt(core.rsum([t * t for t in v])), keepdims)
            return sa(r, x)
        raise Unsupported('np.linalg.norm with ord=%r and an axis' % (ord,))
    if ord is None or (ord == 2 and a.ndim == 1) or (ord == 'fro' and a.ndim == 2):
        return core.sqrt(core.rsum([t * t for t in a.flat]))
    if ord == 1 and a.ndim == 1:
        return core.rsum([abs(t) for t in a.flat])
    if ord == np.inf and a.ndim == 1:
        return tfsem.fold_max([abs(t) for t in a.flat])
    if ord == 2 and a.ndim == 2:
        return tfsem.singular_values(a)[0]
    raise Unsupported('np.linalg.norm ord=%r' % (ord,))


@af(np.where)
def _where(c, *xy):
    if not xy:
        raise Unsupported('np.where with one argument')
    return sa(elementwise(lambda k, a, b: core.ite(b_(k) if isinstance(k, (R, B)) else bool(k), a, b), c, *xy))


@af(np.clip)
def _clip(a, lo=None, hi=None, *r, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))
    r = np.asarray(a)
    if lo is not None:
        r = elementwise(core.rmax, r, lo)
    if hi is not None:
        r = elementwise(core.rmin, r, hi)
    return sa(r, a)


@af(np.diag)
def _diag(v, k=0):
    v = np.asarray(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        out = np.full((n, n), R(0), dtype=object)
        for i in range(len(v)):
            out[i + max(0, -k), i + max(0, k)] = v[i]
        return sa(out)
    return sa(np.diagonal(np.asarray(v), k))


def _unsupported(f):
    def g(*a, **k):
        raise Unsupported('numpy.%s on symbolic values' % f.__name__)
    AF[f] = g


for _f in (np.argmax, np.argmin, np.argsort, np.sort, np.unique, np.nonzero, np.argwhere, np.flatnonzero, np.isclose, np.allclose,
           np.array_equal, np.median, np.percentile, np.histogram, np.linalg.eig, np.linalg.qr, np.linalg.matrix_rank,
           np.linalg.lstsq, np.count_nonzero, np.bincount, np.searchsorted):
    _unsupported(_f)


def array_function(self, func, types, args, kwargs):
    if func in AF:
        return AF[func](*args, **kwargs)
    if func in (np.zeros_like, np.ones_like, np.empty_like, np.full_like):
        a = np.asarray(args[0])
        v = R(1) if func is np.ones_like else lift(args[1]) if func is np.full_like else R(0)
        return symarray(np.full(a.shape, v, dtype=object), args[0].tf_dtype)
    r = np.ndarray.__array_function__(self, func, types, args, kwargs)
    return r


def astype(self, dtype, *a, **k):
    n = np.dtype(dtype).name if not isinstance(dtype, str) or dtype != 'object' else 'object'
    if n == 'object':
        return self
    if n in INT and n != 'bool' and self.tf_dtype not in INT:
        return symarray(elementwise(lambda x: core.trunc_(lift(x)), self), 'int64')
    if n == 'bool':
        return symarray(elementwise(b_, self), 'bool')
    return symarray(np.array(plain(self), dtype=object), n)


def item(self, *args):
    if len(args) == 1 and isinstance(args[0], tuple):
        args = args[0]
    a = plain(self)
    if not args:
        if a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return a.flat[0]
    args = [int(x) if isinstance(x, (np.integer, R)) else x for x in args]
    if len(args) == 1:
        if a.ndim != 1:
            return a.reshape(-1)[args[0]]
        return a[args[0]]
    if len(args) != a.ndim:
        raise ValueError('incorrect number of indices for array')
    return a[tuple(args)]


SymArray.__array_ufunc__ = array_ufunc
SymArray.__array_function__ = array_function
SymArray.astype = astype
SymArray.item = item


# ---------------------------------------------------------------- the numpy the modules under test see
def contains_sym(x):
    if isinstance(x, (R, B, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(contains_sym(y) for y in x)
    return False


TEXTS = [None]      # what a cell of a file stands for: text -> number or None


def read_texts(x):
    if isinstance(x, str):
        v = TEXTS[0](x)
        return x if v is None else v
    if isinstance(x, (list, tuple)):
        return [read_texts(y) for y in x]
    return x


class RandomProxy:
    def __init__(self, rec):
        self._rec = rec

    def __getattr__(self, k):
        return getattr(np.random, k)

    def rand(self, *shape):
        return self._rec.draw('rand', shape, 0, 1)

    def random(self, size=None):
        return self._rec.draw('random', () if size is None else (size if isinstance(size, tuple) else (size,)), 0, 1)
    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.random(size)
        return low + (high - low) * u

    def randn(self, *shape):
        return self._rec.draw('randn', shape, None, None)

    def standard_normal(self, size=None):
        return self._rec.draw('randn', () if size is None else (size if isinstance(size, tuple) else (size,)), None, None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._rec.draw('randint', () if size is None else (size if isinstance(size, tuple) else (size,)), int(low), int(high) - 1, True)

    def seed(self, *a):
        pass


class Draws:
    """Random draws become inputs of the case, in order of the calls."""

    def __init__(self, h):
        self.h, self.n = h, 0
        self.log = []
        self.kinds = []

    def draw(self, kind, shape, lo, hi, integer=False):
        name = 'np.%s:%d' % (kind, self.n)
        self.n += 1
        shape = tuple(int(s) for s in shape)
        h = self.h
        dtype = 'int64' if integer else 'float64'
        if shape == ():
            v = h.value(name, lo, hi, integer)
            v = v if h.mode != 'real' else (int(v.c) if integer else float(v.c))
        else:
            v = h.arr(name, shape, dtype, lo=lo, hi=hi, integer=integer)
        self.log.append(v)
        self.kinds.append((kind, v))
        return v


class NumpyProxy:
    def __init__(self, h):
        self._h = h
        self.random = RandomProxy(Draws(h))

    def __getattr__(self, k):
        return getattr(np, k)

    def _new(self, shape, v, dtype):
        n = np.dtype(dtype).name
        if n == 'bool':
            return np.full(shape, bool(v))
        shape = (shape,) if not isinstance(shape, (tuple, list, np.ndarray)) else shape
        a = np.full(tuple(int(s) for s in shape), R(v), dtype=object)
        return symarray(a, n)

    def zeros(self, shape, dtype=float, **k):
        return self._new(shape, 0, dtype)

    def empty(self, shape, dtype=float, **k):
        return self._new(shape, 0, dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        v = fill_value
        if np.ndim(v) or isinstance(v, (bool, str)):
            return np.full(shape, v, dtype)
        return self._new(shape, v, dtype if dtype is not None else result_dtype([v]) if isinstance(v, R) else np.asarray(v).dtype)

    def array(self, x, *a, **k):
        return self._arr(np.array, x, *a, **k)

    def asarray(self, x, *a, **k):
        return self._arr(np.asarray, x, *a, **k)

    def _arr(self, f, x, *a, **k):
        if TEXTS[0] is not None:
            x = read_texts(x)
        if contains_sym(x):
            if isinstance(x, SymArray):
                return x.copy() if f is np.array else x
            d = k.get('dtype', a[0] if a else None)
            r = np.array([plain(y) if isinstance(y, SymArray) else y for y in x], dtype=object) if isinstance(x, (list, tuple)) else np.asarray(x, dtype=object)
            n = result_dtype(list(r.flat)) if d is None else np.dtype(d).name
            return symarray(r, n)
        return f(x, *a, **k)

    def sqrt(self, x, *a, **k):
        if isinstance(x, R):
            return core.sqrt(x)
        if isinstance(x, (int, np.integer)) and not core.NUMERIC[0]:
            return core.sqrt(R(int(x)))
        return np.sqrt(x, *a, **k)

    def negative(self, x, *a, **k):
        return -x if isinstance(x, R) else np.negative(x, *a, **k)

    def abs(self, x, *a, **k):
        return abs(x) if isinstance(x, R) else np.abs(x, *a, **k)
    absolute = abs

    def maximum(self, a, b, *r, **k):
        if isinstance(a, R) or isinstance(b, R):
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                return core.rmax(a, b)
        return np.maximum(a, b, *r, **k)

    def minimum(self, a, b, *r, **k):
        if isinstance(a, R) or isinstance(b, R):
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                return core.rmin(a, b)
        return np.minimum(a, b, *r, **k)


class RealNumpyProxy(NumpyProxy):
    """Real mode: numpy itself, except that random draws are the case's inputs."""

    def __init__(self, h):
        self._h = h
        self.random = RandomProxy(Draws(h))
    zeros = staticmethod(np.zeros)
    full = staticmethod(np.full)
    empty = staticmethod(np.empty)
    array = staticmethod(np.array)
    asarray = staticmethod(np.asarray)
    sqrt = staticmethod(np.sqrt)
    negative = staticmethod(np.negative)
    abs = absolute = staticmethod(np.abs)
    maximum = staticmethod(np.maximum)
    minimum = staticmethod(np.minimum)


def sym_max(*a, **k):
    """max()/min() over symbolic numbers without a path fork."""
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (R, SymArray)) for x in xs):
        import builtins
        return builtins.max(*((xs,) if len(a) == 1 else a), **k)
    return _fold(xs, core.rmax, np.maximum)


def sym_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (R, SymArray)) for x in xs):
        import builtins
        return builtins.min(*((xs,) if len(a) == 1 else a), **k)
    return _fold(xs, core.rmin, np.minimum)


def _fold(xs, f, uf):
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, np.ndarray) or isinstance(x, np.ndarray):
            if np.size(r) > 1 or np.size(x) > 1:
                raise ValueError('The truth value of an array with more than one element is ambiguous.')
            r = uf(r, x)
        else:
            r = f(r, x)
    return r


MISSING = object()


@contextlib.contextmanager
def shim(h, modules, extra=None):
    """While active the given modules see the symbolic numpy."""
    saved = []
    names = {} if h.mode == 'real' else dict(max=sym_max, min=sym_min)
    for m in modules:
        repl = dict(names)
        for k, v in list(vars(m).items()):
            if v is np:
                repl[k] = None
        proxy = RealNumpyProxy(h) if h.mode == 'real' else NumpyProxy(h)
        proxy.random = RandomProxy(shared(h))
        for k in repl:
            if repl[k] is None:
                repl[k] = proxy
        for k, v in vars(m).items():
            if v is np.random.rand:
                repl[k] = proxy.random.rand
            elif v is np.random.randn:
                repl[k] = proxy.random.randn
            elif v is np.random.randint:
                repl[k] = proxy.random.randint
            elif v is np.random:
                repl[k] = proxy.random
        repl.update(extra or {})
        for k, v in repl.items():
            saved.append((m, k, vars(m).get(k, MISSING)))
            setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in reversed(saved):
            if v is MISSING:
                delattr(m, k)
            else:
                setattr(m, k, v)


def shared(h):
    if not hasattr(h, 'draws'):
        h.draws = Draws(h)
    return h.draws
