"""Semantics of TensorFlow graph operations over symbolic values.

A floating-point tensor is an object array of core.R; integer, boolean and string tensors stay native numpy arrays while
they are concrete, and become object arrays of R / core.B when they depend on a symbolic value.  An operation that is not
known here and whose inputs are all concrete is executed by TensorFlow itself; with symbolic inputs it is Unsupported."""
import itertools
import string

from .boot import np, tf1, z3
from . import core
from .core import R, B, Unsupported, lift, mkb, bz, ite, obj, is_sym, has_symbols

FLOATS = ('float16', 'float32', 'float64', 'bfloat16')


def dt(t):
    return t.dtype.base_dtype.name


def isfloat(name):
    return name in FLOATS


def wrap0(x, shape=()):
    a = np.empty(shape, dtype=object)
    a[()] = x
    return a


def ew(f, *xs):
    """Elementwise application with broadcasting; the result is an object array."""
    xs = np.broadcast_arrays(*[np.asarray(x) for x in xs])
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[x[i] for x in xs])
    return out


def settle(a, dtype):
    """Concrete integer / boolean results become native arrays again."""
    a = np.asarray(a)
    if isfloat(dtype):
        return obj(a)
    if a.dtype != object:
        return a
    if has_symbols(a):
        return a
    npdt = {'bool': bool, 'int32': np.int32, 'int64': np.int64, 'uint8': np.uint8, 'int8': np.int8, 'int16': np.int16}.get(dtype)
    if npdt is None:
        return a
    out = np.empty(a.shape, dtype=npdt)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = (bool(x) if npdt is bool else int(x.c) if isinstance(x, R) else int(x))
    return out


def need_int(a, what):
    """Concrete integers are needed here (shapes, axes); symbolic ones fork over their feasible values."""
    a = np.asarray(a)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=np.int64)
        for i in np.ndindex(*a.shape):
            out[i] = int(a[i].__index__())
        return out
    return a


def ints(a):
    return [int(x) for x in np.asarray(need_int(a, 'ints')).reshape(-1)]


# ---------------------------------------------------------------- linear algebra over object arrays
def matmul(a, b):
    a, b = obj(a), obj(b)
    n, k = a.shape
    k2, m = b.shape
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = core.rsum([a[i, l] * b[l, j] for l in range(k)])
    return out


def einsum(eq, *xs):
    eq = eq.replace(' ', '')
    if '->' in eq:
        lhs, rhs = eq.split('->')
    else:
        lhs = eq
        cnt = {}
        for c in lhs.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1 and c != '.'))
    ins = lhs.split(',')
    if '.' in eq:
        letters = [c for c in string.ascii_letters if c not in eq]
        nd = max(x.ndim - len(s.replace('...', '')) for s, x in zip(ins, xs) if '...' in s)
        ell = ''.join(letters[:nd])
        new = []
        for s, x in zip(ins, xs):
            if '...' in s:
                k = x.ndim - len(s.replace('...', ''))
                s = s.replace('...', ell[nd - k:])
            new.append(s)
        ins = new
        rhs = rhs.replace('...', ell)
    dims = {}
    for s, x in zip(ins, xs):
        for c, d in zip(s, x.shape):
            if c not in dims or dims[c] == 1:
                dims[c] = d
            elif d not in (1, dims[c]):
                raise ValueError('einsum dimensions do not agree: %s' % eq)
    # contract pairwise, left to right, summing letters as soon as they are not needed
    cur_s, cur = ins[0], obj(xs[0])
    cur_s, cur = _reduce_letters(cur_s, cur, set(rhs) | set(''.join(ins[1:])))
    for n, (s, x) in enumerate(zip(ins[1:], xs[1:])):
        later = set(rhs) | set(''.join(ins[n + 2:]))
        cur_s, cur = _pair(cur_s, cur, s, obj(x), later)
    perm = [cur_s.index(c) for c in rhs]
    return cur.transpose(perm) if perm else cur.reshape(())


def _diag(s, x):
    """Repeated letters within one operand take the diagonal."""
    while len(set(s)) != len(s):
        for c in s:
            if s.count(c) > 1:
                i, j = s.index(c), s.rindex(c)
                x = np.diagonal(x, axis1=i, axis2=j)
                s = s[:i] + s[i + 1:j] + s[j + 1:] + c
                break
    return s, x


def _reduce_letters(s, x, keep):
    s, x = _diag(s, x)
    for c in list(s):
        if c not in keep:
            i = s.index(c)
            x = reduce_axes(x, [i], core.rsum)
            s = s[:i] + s[i + 1:]
    return s, x


def _pair(s1, x1, s2, x2, keep):
    s1, x1 = _diag(s1, x1)
    s2, x2 = _diag(s2, x2)
    out = ''.join(dict.fromkeys(c for c in s1 + s2 if c in keep))
    summed = [c for c in dict.fromkeys(s1 + s2) if c not in keep]
    dims = {}
    for s, x in ((s1, x1), (s2, x2)):
        for c, d in zip(s, x.shape):
            dims[c] = max(d, dims.get(c, 1))
    res = np.empty([dims[c] for c in out], dtype=object)
    rng = list(itertools.product(*[range(dims[c]) for c in summed]))
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        terms = []
        for sv in rng:
            env.update(zip(summed, sv))
            a = x1[tuple(env[c] if d != 1 else 0 for c, d in zip(s1, x1.shape))]
            b = x2[tuple(env[c] if d != 1 else 0 for c, d in zip(s2, x2.shape))]
            terms.append(a * b)
        res[idx] = core.rsum(terms)
    return out, res


def reduce_axes(x, axes, f, keep=False):
    x = np.asarray(x)
    axes = sorted(set(a % x.ndim for a in axes)) if x.ndim else []
    rest = [a for a in range(x.ndim) if a not in axes]
    shape = [x.shape[a] for a in rest]
    out = np.empty(shape, dtype=object)
    xt = x.transpose(rest + axes)
    for i in np.ndindex(*shape):
        out[i] = f(list(np.asarray(xt[i]).reshape(-1)) if axes else [x[i]])
    if keep:
        out = out.reshape([1 if a in axes else x.shape[a] for a in range(x.ndim)])
    return out


def fold_max(xs):
    r = lift(xs[0])
    for x in xs[1:]:
        r = core.rmax(r, x)
    return r


def fold_min(xs):
    r = lift(xs[0])
    for x in xs[1:]:
        r = core.rmin(r, x)
    return r


def fold_prod(xs):
    r = R(1)
    for x in xs:
        r = r * x
    return r


def batch(f, *xs, nd=2):
    """Applies f to the trailing nd axes."""
    bs = np.broadcast_shapes(*[x.shape[:-nd] for x in xs])
    xs = [np.broadcast_to(x, bs + x.shape[-nd:]) for x in xs]
    if not bs:
        return f(*xs)
    outs = {}
    for i in np.ndindex(*bs):
        outs[i] = f(*[x[i] for x in xs])
    first = outs[next(iter(outs))]
    tup = isinstance(first, tuple)
    res = []
    for k in range(len(first) if tup else 1):
        f0 = first[k] if tup else first
        r = np.empty(bs + np.asarray(f0).shape, dtype=object)
        for i, o in outs.items():
            r[i] = o[k] if tup else o
        res.append(r)
    return tuple(res) if tup else res[0]


def tr(x):
    return np.swapaxes(x, -1, -2)


# ---------------------------------------------------------------- SVD / inverses by contract
def _numeric(a):
    return core.NUMERIC[0]


def tofloat(a):
    out = np.empty(a.shape, dtype=float)
    for i in np.ndindex(*a.shape):
        out[i] = float(a[i].c)
    return out


def _key_match(kind, key, vary):
    """An earlier application of `kind` whose key matrix the solver proves equal to this one."""
    k = (kind, key.shape, tuple(core.canon(lift(x).z()).get_id() for x in key.flat))
    if k in core.CTX.memo:
        return core.CTX.memo[k][1]
    lst = core.CTX.fn_memo.setdefault(kind, [])
    ck = [core.canon(lift(x).z()) for x in key.flat]
    for okey, shape, val in lst:
        if shape == key.shape and core._same_num_vars(okey, ck) and all(core.equal_terms(x, y) for x, y in zip(okey, ck)):
            core.CTX.memo[k] = (ck, val)
            return val
    val = vary()
    lst.append((ck, key.shape, val))
    core.CTX.memo[k] = (ck, val)
    return val


def all_const(M):
    return all(lift(x).e is None for x in M.flat)


def _fresh_arr(prefix, shape):
    out = np.empty(shape, dtype=object)
    names = []
    for i in np.ndindex(*shape):
        v, n = core.CTX.fresh(prefix)
        out[i] = R(v)
        names.append(n)
    return out, names


def singular_values(M):
    """Singular values by contract: a function of the Gram matrix of the smaller side."""
    m, n = M.shape
    if core.NUMERIC[0]:
        if not np.isfinite(tofloat(M)).all():
            return np.array([R(float('nan'))] * min(m, n), dtype=object)
        s = np.linalg.svd(tofloat(M), compute_uv=False)
        return np.array([R(float(x)) for x in s], dtype=object)
    k = min(m, n)
    if all(lift(x).e is None and lift(x).c == 0 for x in M.flat):
        return obj(np.zeros(k))
    G = matmul(M, tr(M)) if m <= n else matmul(tr(M), M)

    def make():
        s, names = _fresh_arr('sv', (k,))
        sz = [x.z() for x in s]
        for i, a in enumerate(names):
            core.CTX.cache.setdefault('sv', {})[a] = (names[0], i)
        for a in names:
            for i in range(k):
                core.CTX.add_fact([a], sz[i] >= 0, 'core')
                if i:
                    core.CTX.add_fact([a], sz[i - 1] >= sz[i], 'core')
        g = [[lift(G[i, j]).z() for j in range(k)] for i in range(k)]
        tag = 'svd' if sum(core._size(x) for r in g for x in r) > 400 else 'svd'
        for a in names:
            core.CTX.add_fact([a], z3.Sum([x * x for x in sz]) == z3.Sum([g[i][i] for i in range(k)]), tag)
            if k == 2:
                core.CTX.add_fact([a], sz[0] * sz[0] * sz[1] * sz[1] == g[0][0] * g[1][1] - g[0][1] * g[1][0], tag)
        return s
    return _key_match('sv', G, make)


def left_vectors(M):
    """All m left singular vectors (columns), a function of the Gram matrix MM^T (sign choices are fixed by the contract
    'deterministic function of MM^T')."""
    G = matmul(M, tr(M))
    m = M.shape[0]
    kk = min(M.shape)
    if all(lift(x).e is None and lift(x).c == 0 for x in M.flat):
        return obj(np.eye(m))

    def make():
        U, names = _fresh_arr('su', (m, m))
        UU = matmul(tr(U), U)
        for i in range(m):
            for j in range(i, m):
                for a in names:
                    core.CTX.add_fact([a], lift(UU[i, j]).z() == (1 if i == j else 0), 'svd')
        s = singular_values(M)
        GU = matmul(G, U)
        for i in range(m):
            for j in range(m):
                rhs = (U[i, j] * s[j] * s[j]).z() if j < kk else z3.RealVal(0)
                for a in names:
                    core.CTX.add_fact([a], lift(GU[i, j]).z() == rhs, 'svd')
        return U
    return _key_match('su', G, make)


def svd(M, full):
    """(s, U, V) with M = U diag(s) V^T."""
    m, n = M.shape
    k = min(m, n)
    if core.NUMERIC[0]:
        u, s, vt = np.linalg.svd(tofloat(M), full_matrices=full)
        w = lambda a: obj(np.asarray(a, dtype=float))
        return w(s), w(u), w(vt.T)
    s = singular_values(M)
    U = left_vectors(M)
    V = left_vectors(tr(M))
    # joint facts: M V = U diag(s)
    kk = ('svdjoint', tuple(core.canon(lift(x).z()).get_id() for x in M.flat), M.shape)
    if kk not in core.CTX.memo:
        core.CTX.memo[kk] = (M, True)
        MV = matmul(M, V)
        names = sorted(set().union(*[core.atoms(lift(x).z()) for x in list(U.flat) + list(V.flat)]))
        for j in range(k):
            for i in range(m):
                f = lift(MV[i, j]).z() == (U[i, j] * s[j]).z()
                for a in names:
                    core.CTX.add_fact([a], f, 'svd')
        rec = matmul(U[:, :k] * s[None, :], tr(V[:, :k]))
        for i in range(m):
            for j in range(n):
                f = lift(rec[i, j]).z() == lift(M[i, j]).z()
                for a in names:
                    core.CTX.add_fact([a], f, 'rec')
    if not full:
        U, V = U[:, :k], V[:, :k]
    return s, U, V


def pinv(M, rcond=None):
    """Pseudo-inverse by contract (Moore-Penrose; for a square argument the inverse, assumed nonsingular). A cut-off beyond
    rounding makes it another function of its argument, of which nothing is known."""
    m, n = M.shape
    if core.NUMERIC[0]:
        return obj(np.linalg.pinv(tofloat(M)) if rcond is None else np.linalg.pinv(tofloat(M), rcond))
    if m == n == 1:
        return wrap0(core.div(R(1), M[0, 0]), (1, 1))
    if rcond is not None and rcond > 1e-5:
        return _key_match('pinv cut at %r' % rcond, M, lambda: _fresh_arr('pi', (n, m))[0])

    def make():
        P, names = _fresh_arr('pi', (n, m))
        if m == n:
            for a, b in ((P, M), (M, P)):
                ab = matmul(a, b)
                for i in range(m):
                    for j in range(m):
                        for nm in names:
                            core.CTX.add_fact([nm], lift(ab[i, j]).z() == (1 if i == j else 0), 'pinv')
            if all(M[i, j] is M[j, i] or core.equal_terms(lift(M[i, j]).z(), lift(M[j, i]).z())
                   for i in range(m) for j in range(i)):
                for i in range(m):
                    for j in range(i):
                        for nm in names:
                            core.CTX.add_fact([nm], P[i, j].z() == P[j, i].z(), 'pinv')
        else:
            MPM = matmul(matmul(M, P), M)
            for i in range(m):
                for j in range(n):
                    for nm in names:
                        core.CTX.add_fact([nm], lift(MPM[i, j]).z() == lift(M[i, j]).z(), 'pinv')
        return P
    return _key_match('pinv', M, make)


# ---------------------------------------------------------------- the operations
OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def attr(o, name, default=None):
    try:
        return o.get_attr(name)
    except Exception:
        return default


def cmpb(f):
    return lambda o, a, b: [ew(lambda x, y: _bool(f(_num(x), _num(y))), a, b)]


def _bool(x):
    return x if isinstance(x, B) else bool(x)


def _num(x):
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return R(int(x))
    return R(x.item() if isinstance(x, np.generic) else x)


def n2(f):
    return lambda o, a, b: [ew(lambda x, y: f(_num(x), _num(y)), a, b)]


def n1(f):
    return lambda o, a: [ew(lambda x: f(_num(x)), a)]


OPS.update({
    'Add': n2(lambda x, y: x + y), 'AddV2': n2(lambda x, y: x + y), 'Sub': n2(lambda x, y: x - y),
    'Mul': n2(lambda x, y: x * y), 'MulNoNan': n2(lambda x, y: x * y),
    'RealDiv': n2(core.div), 'Maximum': n2(core.rmax), 'Minimum': n2(core.rmin),
    'Pow': n2(core.power), 'SquaredDifference': n2(lambda x, y: (x - y) * (x - y)),
    'FloorDiv': n2(lambda x, y: core.floor_(core.div(x, y))),
    'FloorMod': n2(lambda x, y: x - y * core.floor_(core.div(x, y))),
    'DivNoNan': n2(lambda x, y: ite(y == 0, R(0), core.div(x, y)) if y.e is not None else (R(0) if y.c == 0 else core.div(x, y))),
    'Neg': n1(lambda x: -x), 'Square': n1(lambda x: x * x), 'Sqrt': n1(core.sqrt), 'Abs': n1(abs), 'ComplexAbs': n1(abs),
    'Rsqrt': n1(lambda x: core.div(R(1), core.sqrt(x))), 'Inv': n1(lambda x: core.div(R(1), x)),
    'Reciprocal': n1(lambda x: core.div(R(1), x)), 'Relu': n1(lambda x: core.rmax(x, R(0))),
    'Sign': n1(lambda x: ite(x > 0, R(1), ite(x < 0, R(-1), R(0)))), 'Floor': n1(core.floor_),
    'Ceil': n1(lambda x: -core.floor_(-x)), 'Rint': n1(lambda x: core.floor_(x + R(0.5))),
    'Conj': n1(lambda x: x), 'Real': n1(lambda x: x), 'OnesLike': n1(lambda x: R(1)), 'ZerosLike': n1(lambda x: R(0)),
    'Exp': n1(lambda x: core.ufun('exp', x)), 'Log': n1(lambda x: core.ufun('log', x)), 'Tanh': n1(lambda x: core.ufun('tanh', x)),
    'Less': cmpb(lambda x, y: x < y), 'LessEqual': cmpb(lambda x, y: x <= y), 'Greater': cmpb(lambda x, y: x > y),
    'GreaterEqual': cmpb(lambda x, y: x >= y), 'Equal': cmpb(lambda x, y: x == y), 'NotEqual': cmpb(lambda x, y: x != y),
    'IsNan': n1(lambda x: False), 'IsInf': n1(lambda x: False), 'IsFinite': n1(lambda x: True),
})
OPS['Div'] = OPS['RealDiv']


@op('Div', 'TruncateDiv')
def _div(o, a, b):
    if isfloat(dt(o.outputs[0])):
        return [ew(lambda x, y: core.div(_num(x), _num(y)), a, b)]
    return [ew(lambda x, y: core.trunc_(core.div(_num(x), _num(y))), a, b)]


OPS['LogicalAnd'] = lambda o, a, b: [ew(lambda x, y: mkb(z3.And(bz(x), bz(y))), a, b)]
OPS['LogicalOr'] = lambda o, a, b: [ew(lambda x, y: mkb(z3.Or(bz(x), bz(y))), a, b)]
OPS['LogicalNot'] = lambda o, a: [ew(lambda x: (~x if isinstance(x, B) else not x), a)]


@op('Identity', 'Snapshot', 'StopGradient', 'PreventGradient', 'CheckNumerics', 'EnsureShape', 'DeepCopy', 'ReadVariableOp')
def _ident(o, a, *rest):
    return [a]


@op('IdentityN')
def _identn(o, *a):
    return list(a)


@op('PlaceholderWithDefault')
def _pwd(o, a):
    return [a]


@op('AddN')
def _addn(o, *xs):
    return [ew(lambda *v: core.rsum([_num(x) for x in v]), *xs)]


@op('Clip', 'ClipByValue')
def _clip(o, x, lo, hi):
    return [ew(lambda a, l, h: core.rmin(core.rmax(_num(a), _num(l)), _num(h)), x, lo, hi)]


@op('Cast')
def _cast(o, a):
    src, dst = dt(o.inputs[0]), dt(o.outputs[0])
    a = np.asarray(a)
    if a.dtype != object:
        if isfloat(dst):
            return [obj(a)]
        return [a.astype(o.outputs[0].dtype.base_dtype.as_numpy_dtype)]

    def f(x):
        if dst == 'bool':
            return _bool(_num(x) != 0)
        if isinstance(x, (B, bool, np.bool_)):
            return x.num() if isinstance(x, B) else R(int(x))
        x = _num(x)
        if isfloat(src) and not isfloat(dst):
            return core.trunc_(x)
        return x
    return [ew(f, a)]


@op('Bitcast')
def _bitcast(o, a):
    raise Unsupported('Bitcast')


@op('MatMul', 'BatchMatMul', 'BatchMatMulV2', 'BatchMatMulV3')
def _matmul(o, a, b):
    ta = attr(o, 'transpose_a') or attr(o, 'adj_x')
    tb = attr(o, 'transpose_b') or attr(o, 'adj_y')
    a, b = obj(a), obj(b)
    if ta:
        a = tr(a)
    if tb:
        b = tr(b)
    return [batch(matmul, a, b)]


@op('Einsum')
def _einsum(o, *xs):
    eq = attr(o, 'equation')
    return [einsum(eq.decode() if isinstance(eq, bytes) else eq, *[obj(x) for x in xs])]


@op('Transpose', 'ConjugateTranspose')
def _transpose(o, a, p):
    return [np.asarray(a).transpose(ints(p))]


@op('Reshape')
def _reshape(o, a, s):
    return [np.asarray(a).reshape(ints(s))]


@op('ExpandDims')
def _expand(o, a, d):
    a = np.asarray(a)
    d = ints(d)[0]
    return [np.expand_dims(a, d)]


@op('Squeeze')
def _squeeze(o, a):
    dims = attr(o, 'squeeze_dims') or ()
    a = np.asarray(a)
    return [a.squeeze(tuple(dims)) if dims else a.squeeze()]


def _axes(a, ax):
    return [x % a.ndim for x in ints(ax)] if a.ndim else []


def _red(f, dtype_keep=True):
    def g(o, a, ax):
        a = np.asarray(a)
        return [reduce_axes(a, _axes(a, ax), f, bool(attr(o, 'keep_dims')))]
    return g


OPS['Sum'] = _red(lambda xs: core.rsum([_num(x) for x in xs]))
OPS['Prod'] = _red(lambda xs: fold_prod([_num(x) for x in xs]))
OPS['Max'] = _red(lambda xs: fold_max([_num(x) for x in xs]))
OPS['Min'] = _red(lambda xs: fold_min([_num(x) for x in xs]))
OPS['Mean'] = _red(lambda xs: core.div(core.rsum([_num(x) for x in xs]), R(len(xs))))
OPS['All'] = _red(lambda xs: mkb(z3.And([bz(x) for x in xs])))
OPS['Any'] = _red(lambda xs: mkb(z3.Or([bz(x) for x in xs])))
OPS['EuclideanNorm'] = _red(lambda xs: core.sqrt(core.rsum([_num(x) * _num(x) for x in xs])))


@op('L2Loss')
def _l2loss(o, a):
    return [wrap0(R(0.5) * core.sumsq([_num(x) for x in np.asarray(a).flat]))]


@op('Cumsum')
def _cumsum(o, a, ax):
    a = np.asarray(a)
    k = ints(ax)[0] % a.ndim
    rev, exc = attr(o, 'reverse'), attr(o, 'exclusive')
    x = np.flip(a, k) if rev else a
    x = np.moveaxis(x, k, 0)
    out = np.empty(x.shape, dtype=object)
    for i in range(x.shape[0]):
        sl = x[:i] if exc else x[:i + 1]
        for j in np.ndindex(*x.shape[1:]):
            out[(i,) + j] = core.rsum([_num(v) for v in sl[(slice(None),) + j]])
    out = np.moveaxis(out, 0, k)
    return [np.flip(out, k) if rev else out]


@op('Cumprod')
def _cumprod(o, a, ax):
    a = np.asarray(a)
    k = ints(ax)[0] % a.ndim
    rev, exc = attr(o, 'reverse'), attr(o, 'exclusive')
    x = np.moveaxis(np.flip(a, k) if rev else a, k, 0)
    out = np.empty(x.shape, dtype=object)
    for i in range(x.shape[0]):
        sl = x[:i] if exc else x[:i + 1]
        for j in np.ndindex(*x.shape[1:]):
            out[(i,) + j] = fold_prod([_num(v) for v in sl[(slice(None),) + j]])
    out = np.moveaxis(out, 0, k)
    return [np.flip(out, k) if rev else out]


@op('Select', 'SelectV2')
def _select(o, c, a, b):
    c = np.asarray(c)
    if o.type == 'Select' and c.ndim == 1 and np.ndim(a) > 1:
        c = c.reshape(c.shape + (1,) * (np.ndim(a) - 1))
    return [ew(lambda p, x, y: ite(p, x, y) if isinstance(p, B) else (x if p else y), c, a, b)]


@op('Shape')
def _shape(o, a):
    return [np.array(np.shape(a), dtype=o.outputs[0].dtype.as_numpy_dtype)]


@op('ShapeN')
def _shapen(o, *xs):
    return [np.array(np.shape(a), dtype=np.int32) for a in xs]


@op('Size')
def _sizeop(o, a):
    return [np.array(np.size(a), dtype=o.outputs[0].dtype.as_numpy_dtype)]


@op('Rank')
def _rank(o, a):
    return [np.array(np.ndim(a), dtype=np.int32)]


@op('Pack')
def _pack(o, *xs):
    return [np.stack([np.asarray(x) for x in xs], axis=attr(o, 'axis', 0))]


@op('Unpack')
def _unpack(o, a):
    ax = attr(o, 'axis', 0)
    a = np.moveaxis(np.asarray(a), ax, 0)
    return [a[i] if isinstance(a[i], np.ndarray) else wrap(a[i]) for i in range(a.shape[0])]


def wrap(x):
    return x if isinstance(x, np.ndarray) else (wrap0(x) if isinstance(x, (R, B)) else np.asarray(x))


@op('ConcatV2')
def _concat(o, *xs):
    return [np.concatenate([np.asarray(x) for x in xs[:-1]], axis=ints(xs[-1])[0])]


@op('Concat')
def _concat1(o, ax, *xs):
    return [np.concatenate([np.asarray(x) for x in xs], axis=ints(ax)[0])]


@op('Split')
def _split(o, ax, a):
    return list(np.split(np.asarray(a), attr(o, 'num_split'), axis=ints(ax)[0]))


@op('SplitV')
def _splitv(o, a, sizes, ax):
    a = np.asarray(a)
    ax = ints(ax)[0]
    sz = ints(sizes)
    if -1 in sz:
        sz[sz.index(-1)] = a.shape[ax] - (sum(sz) + 1)
    return list(np.split(a, np.cumsum(sz)[:-1], axis=ax))


@op('Slice')
def _slice(o, a, b, s):
    a = np.asarray(a)
    b, s = ints(b), ints(s)
    return [wrap(a[tuple(slice(x, (a.shape[i] if y == -1 else x + y)) for i, (x, y) in enumerate(zip(b, s)))])]


def _mask_bits(o):
    return [int(attr(o, k) or 0) for k in ('begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask', 'shrink_axis_mask')]


def strided_index(o, b, e, s):
    bm, em, elm, nm, sm = _mask_bits(o)
    idx = []
    for i in range(len(b)):
        bit = 1 << i
        if elm & bit:
            idx.append(Ellipsis)
        elif nm & bit:
            idx.append(None)
        elif sm & bit:
            idx.append(b[i])
        else:
            idx.append(slice(None if bm & bit else b[i], None if em & bit else e[i], s[i]))
    return tuple(idx)


@op('StridedSlice')
def _strided(o, a, b, e, s):
    a = np.asarray(a)
    bm, em, elm, nm, sm = _mask_bits(o)
    b, e, s = np.asarray(b).reshape(-1), np.asarray(e).reshape(-1), np.asarray(s).reshape(-1)
    if is_sym(b) and has_symbols(b) and sm == 1 and b.shape == (1,):
        # indexing by one symbolic index: a case split inside the expression, guarded by the index being in range
        return [select_index(a, b[0])]
    def ii(v):
        return [int(x.__index__()) if isinstance(x, R) else int(x) for x in v]
    return [wrap(a[strided_index(o, ii(b), _safe_end(e, b, sm), ii(s))])]


def _safe_end(e, b, sm):
    out = []
    for i, x in enumerate(e):
        if sm & (1 << i):
            out.append(0)
        else:
            out.append(int(x.__index__()) if isinstance(x, R) else int(x))
    return out


def select_index(a, i):
    n = a.shape[0]
    cond = z3.And(i.z() >= -n, i.z() < n)
    if not core.branch(cond):
        raise IndexError('slice index out of bounds')
    iz = i.z()
    if core.CTX.explorer is not None and not core.branch(iz >= 0):
        iz = iz + n
    out = np.empty(a.shape[1:], dtype=object)
    for j in np.ndindex(*out.shape):
        v = a[(n - 1,) + j]
        for k in range(n - 2, -1, -1):
            v = ite(B(iz == k), a[(k,) + j], v)
        out[j] = v if isinstance(v, (R, B)) else _num(v)
    return out


@op('Gather', 'GatherV2', 'ResourceGather')
def _gather(o, a, i, ax=np.array(0)):
    a = np.asarray(a)
    ax = ints(ax)[0]
    i = np.asarray(i)
    if is_sym(i) and has_symbols(i) and ax == 0:
        out = np.empty(i.shape + a.shape[1:], dtype=object)
        for k in np.ndindex(*i.shape):
            out[k] = select_index(a, lift(i[k])) if a.ndim > 1 else select_index(a, lift(i[k]))[()]
        return [out]
    return [wrap(np.take(a, need_int(i, 'gather'), axis=ax))]


@op('GatherNd')
def _gathernd(o, a, i):
    a = np.asarray(a)
    i = np.asarray(i)
    k = i.shape[-1]
    out = np.empty(i.shape[:-1] + a.shape[k:], dtype=object)
    for j in np.ndindex(*i.shape[:-1]):
        v = a
        for t in range(k):
            x = i[j + (t,)]
            if isinstance(x, R) and x.e is not None:
                v = select_index(v, x)
            else:
                v = np.asarray(v[int(x)] if not isinstance(x, R) else v[int(x.c)], dtype=object)
        out[j] = v if isinstance(v, np.ndarray) and v.ndim else (v[()] if isinstance(v, np.ndarray) else v)
    return [out if a.dtype == object or is_sym(i) else out.astype(a.dtype)]


def scatter(i, v, shape, mode, init=None):
    """Scatter with symbolic positions: mode 'set' (the last duplicate wins) or 'add'."""
    i, v = np.asarray(i), np.asarray(v)
    k = i.shape[-1]
    out = np.empty(shape, dtype=object)
    for p in np.ndindex(*shape):
        cur = R(0) if init is None else init[p]
        for j in np.ndindex(*i.shape[:-1]):
            hit = True
            for t in range(k):
                x = i[j + (t,)]
                if isinstance(x, R) and x.e is not None:
                    hit = mkb(z3.And(bz(hit), x.z() == p[t]))
                else:
                    hit = hit if int(x if not isinstance(x, R) else x.c) == p[t] else False
            val = v[j + tuple(p[k:])] if v.ndim else v[()]
            new = val if mode == 'set' else _num(cur) + val
            cur = ite(hit, new, cur) if isinstance(hit, B) else (new if hit else cur)
        out[p] = cur if isinstance(cur, (R, B)) else _num(cur)
    return out


def check_range(i, shape):
    i = np.asarray(i)
    for j in np.ndindex(*i.shape[:-1]):
        for t in range(i.shape[-1]):
            x = i[j + (t,)]
            if isinstance(x, R) and x.e is not None:
                if not core.branch(z3.And(x.z() >= 0, x.z() < shape[t])):
                    raise IndexError('index out of bounds')
            elif not 0 <= int(x if not isinstance(x, R) else x.c) < shape[t]:
                raise IndexError('index out of bounds')


@op('SparseToDense')
def _s2d(o, i, shape, v, default):
    shape = ints(shape)
    i = np.asarray(i)
    if i.ndim == 0:
        i = i.reshape(1, 1)
    elif i.ndim == 1:
        i = i.reshape(-1, 1)
    v = np.asarray(v)
    if v.ndim == 0:
        v = np.broadcast_to(v, i.shape[:1])
    check_range(i, shape)
    init = np.empty(shape, dtype=object)
    for p in np.ndindex(*shape):
        init[p] = _num(np.asarray(default)[()])
    return [scatter(i, v, shape, 'set', init)]


@op('ScatterNd')
def _scatternd(o, i, v, shape):
    shape = ints(shape)
    check_range(i, shape)
    return [scatter(i, v, shape, 'add')]


@op('TensorScatterUpdate', 'TensorScatterAdd')
def _tscatter(o, a, i, v):
    a = np.asarray(a)
    check_range(i, a.shape)
    return [scatter(i, v, a.shape, 'set' if o.type == 'TensorScatterUpdate' else 'add', a)]


@op('Tile')
def _tile(o, a, m):
    return [np.tile(np.asarray(a), ints(m))]


@op('Range')
def _range(o, a, b, d):
    if all(np.asarray(x).dtype != object for x in (a, b, d)):
        return [np.arange(np.asarray(a)[()], np.asarray(b)[()], np.asarray(d)[()], dtype=o.outputs[0].dtype.as_numpy_dtype)]
    a, b, d = [lift(np.asarray(x)[()]).c for x in (a, b, d)]
    out = []
    while (a < b) if d > 0 else (a > b):
        out.append(R(a))
        a = a + d
    return [np.array(out, dtype=object)]


@op('LinSpace')
def _linspace(o, a, b, n):
    n = ints(n)[0]
    a, b = _num(np.asarray(a)[()]), _num(np.asarray(b)[()])
    out = np.empty((n,), dtype=object)
    for k in range(n):
        out[k] = a + (b - a) * core.div(R(k), R(max(n - 1, 1)))
    return [out]


@op('Fill')
def _fill(o, s, v):
    s = ints(s)
    v = np.asarray(v)[()]
    out = np.empty(s, dtype=object)
    out[...] = v if isinstance(v, (R, B)) else _num(v) if not isinstance(v, (bool, np.bool_)) else bool(v)
    return [out]


@op('BroadcastTo')
def _bto(o, a, s):
    return [np.broadcast_to(np.asarray(a), ints(s))]


@op('BroadcastArgs')
def _bargs(o, a, b):
    return [np.array(np.broadcast_shapes(tuple(ints(a)), tuple(ints(b))), dtype=np.int32)]


@op('ReverseV2')
def _rev(o, a, ax):
    a = np.asarray(a)
    return [np.flip(a, tuple(ints(ax))) if len(ints(ax)) else a]


@op('Pad', 'PadV2')
def _pad(o, a, p, v=None):
    a = np.asarray(a)
    p = np.asarray(p)
    fill = R(0) if v is None else np.asarray(v)[()]
    out = np.empty([int(p[i][0] + p[i][1] + a.shape[i]) for i in range(a.ndim)], dtype=object)
    out[...] = fill
    out[tuple(slice(int(p[i][0]), int(p[i][0]) + a.shape[i]) for i in range(a.ndim))] = a
    return [out]


@op('MatrixDiag', 'MatrixDiagV2', 'MatrixDiagV3', 'Diag')
def _mdiag(o, a, *rest):
    a = np.asarray(a)
    if o.type == 'Diag' and a.ndim != 1:
        raise Unsupported('Diag of rank %d' % a.ndim)
    if rest and ints(rest[0]) not in ([0], [0, 0]):
        raise Unsupported('MatrixDiag with k')
    n = a.shape[-1]
    out = np.empty(a.shape + (n,), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = a[i[:-1]] if i[-1] == i[-2] else R(0)
    return [out]


@op('MatrixDiagPart', 'MatrixDiagPartV2', 'MatrixDiagPartV3', 'DiagPart')
def _mdiagpart(o, a, *rest):
    if rest and ints(rest[0]) not in ([0], [0, 0]):
        raise Unsupported('MatrixDiagPart with k')
    return [np.diagonal(np.asarray(a), axis1=-2, axis2=-1)]


@op('MatrixSetDiag', 'MatrixSetDiagV2', 'MatrixSetDiagV3')
def _msd(o, a, d, *rest):
    out = np.array(a, dtype=object)
    d = np.asarray(d)
    for i in np.ndindex(*out.shape):
        if i[-1] == i[-2]:
            out[i] = d[i[:-1]]
    return [out]


@op('MatrixBandPart')
def _mbp(o, a, lo, hi):
    lo, hi = ints(lo)[0], ints(hi)[0]
    out = np.array(a, dtype=object)
    for i in np.ndindex(*out.shape):
        r, c = i[-2], i[-1]
        if not ((lo < 0 or r - c <= lo) and (hi < 0 or c - r <= hi)):
            out[i] = R(0)
    return [out]


@op('OneHot')
def _onehot(o, i, depth, on, off):
    ax = attr(o, 'axis', -1)
    i = np.asarray(i)
    d = ints(depth)[0]
    on, off = np.asarray(on)[()], np.asarray(off)[()]
    out = np.empty(i.shape + (d,), dtype=object)
    for k in np.ndindex(*out.shape):
        x = i[k[:-1]]
        if isinstance(x, R) and x.e is not None:
            out[k] = ite(B(x.z() == k[-1]), _num(on), _num(off))
        else:
            out[k] = _num(on) if int(x if not isinstance(x, R) else x.c) == k[-1] else _num(off)
    return [np.moveaxis(out, -1, ax) if ax not in (-1, out.ndim - 1) else out]


@op('ArgMax', 'ArgMin')
def _argmax(o, a, ax):
    a = np.asarray(a)
    k = ints(ax)[0] % a.ndim
    x = np.moveaxis(a, k, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        best, bi = _num(x[i][0]), R(0)
        for j in range(1, x.shape[-1]):
            y = _num(x[i][j])
            c = (y > best) if o.type == 'ArgMax' else (y < best)
            best, bi = ite(c, y, best), ite(c, R(j), bi)
        out[i] = bi
    return [out]


@op('Where')
def _where(o, c):
    c = np.asarray(c)
    hits = []
    for i in np.ndindex(*c.shape):
        v = c[i]
        if bool(v if isinstance(v, (B, bool, np.bool_)) else v != 0):     # one path per set of places
            hits.append(i)
    return [np.array(hits, dtype=np.int64).reshape(len(hits), c.ndim)]


@op('UnsortedSegmentSum')
def _uss(o, v, ids, n):
    n = ints(n)[0]
    v, ids = np.asarray(v), np.asarray(ids)
    return [scatter(ids.reshape(-1, 1), v.reshape((-1,) + v.shape[ids.ndim:]), [n] + list(v.shape[ids.ndim:]), 'add')]


@op('Svd')
def _svd(o, a):
    a = obj(a)
    if attr(o, 'compute_uv'):
        s, u, v = batch(lambda m: svd(m, bool(attr(o, 'full_matrices'))), a)
        return [s, u, v]
    s = batch(singular_values, a)
    e = np.empty((0,), dtype=object)
    return [s, e, e]


@op('MatrixInverse', 'BatchMatrixInverse')
def _inv(o, a):
    a = obj(a)
    if attr(o, 'adjoint'):
        a = tr(a)
    return [batch(pinv, a)]


@op('MatrixSolve')
def _solve(o, a, b):
    a = obj(a)
    if attr(o, 'adjoint'):
        a = tr(a)
    return [batch(lambda m, v: matmul(pinv(m), v), a, obj(b))]


@op('MatrixDeterminant')
def _det(o, a):
    a = obj(a)
    n = a.shape[-1]
    if a.ndim != 2 or n > 3:
        raise Unsupported('MatrixDeterminant')

    def d(m):
        if len(m) == 1:
            return m[0][0]
        r = R(0)
        for j in range(len(m)):
            t = m[0][j] * d([row[:j] + row[j + 1:] for row in m[1:]])
            r = r + t if j % 2 == 0 else r - t
        return r
    return [wrap0(d([list(x) for x in a]))]


@op('SelfAdjointEigV2')
def _eigh(o, a):
    a = obj(a)
    if core.NUMERIC[0]:
        w, v = np.linalg.eigh(tofloat(a))
        return [obj(w), obj(v) if attr(o, 'compute_v') else np.empty((0,), dtype=object)]
    n = a.shape[-1]

    def make():
        w, names = _fresh_arr('ew', (n,))
        v, n2 = _fresh_arr('ev', (n, n))
        names = names + n2
        fs = [w[i].z() <= w[i + 1].z() for i in range(n - 1)]
        av = matmul(a, v)
        vv = matmul(tr(v), v)
        for i in range(n):
            for j in range(n):
                fs.append(lift(av[i, j]).z() == (v[i, j] * w[j]).z())
                fs.append(lift(vv[i, j]).z() == (1 if i == j else 0))
        for nm in names:
            for f in fs:
                core.CTX.add_fact([nm], f, 'svd')
        return w, v
    w, v = _key_match('eigh', a, make)
    return [w, v if attr(o, 'compute_v') else np.empty((0,), dtype=object)]


@op('NoOp', 'ControlTrigger', 'Assert', 'Print', 'PrintV2')
def _noop(o, *a):
    return []


class Summary:
    """What a summary operation returns: the tags with their values."""

    def __init__(self, rows):
        self.rows = rows


def box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


@op('ScalarSummary')
def _scalar_summary(o, tags, values):
    tags, values = np.asarray(tags), np.asarray(values)
    rows = []
    for i in np.ndindex(*tags.shape):
        t = tags[i]
        rows.append((t.decode() if isinstance(t, bytes) else str(t), core.lift(values[i])))
    return [box(Summary(rows))]


@op('TensorSummary', 'TensorSummaryV2', 'HistogramSummary')
def _summary(o, *a):
    return [box(Summary([]))]


@op('MergeSummary')
def _merge_summary(o, *a):
    return [box(Summary([r for x in a for s in np.asarray(x).flat for r in s.rows]))]


@op('PyFunc', 'PyFuncStateless', 'EagerPyFunc')
def _pyfunc(o, *xs):
    from tensorflow.python.ops import script_ops
    token = attr(o, 'token')
    token = token.decode() if isinstance(token, bytes) else token
    reg = script_ops._py_funcs
    fn = reg._funcs.get(token)
    if hasattr(fn, '__call__') is False:
        raise Unsupported('py_func')
    if isinstance(fn, script_ops.EagerFunc):
        fn = fn._func
    res = fn(*[core.symarray(x) if is_sym(x) else x for x in xs])
    if not isinstance(res, (list, tuple)):
        res = [res]
    out = []
    for r, t in zip(res, o.outputs):
        r = np.asarray(r)
        out.append(obj(r) if isfloat(dt(t)) else r)
    return out


def concrete_fallback(o, xs):
    """Execute an unknown operation on concrete inputs with TensorFlow itself."""
    for x in xs:
        if has_symbols(x):
            raise Unsupported('operation %s on symbolic values' % o.type)
    g = o.graph
    sess = REAL_SESSION(graph=g)
    feed = {}
    for t, x in zip(o.inputs, xs):
        x = np.asarray(x)
        if x.dtype == object and isfloat(dt(t)):
            x = tofloat(x).astype(t.dtype.base_dtype.as_numpy_dtype)
        feed[t] = x
    try:
        res = sess.run(list(o.outputs), feed_dict=feed)
    finally:
        sess.close()
    return [settle(obj(np.asarray(r)) if isfloat(dt(t)) else np.asarray(r), dt(t)) for r, t in zip(res, o.outputs)]


REAL_SESSION = tf1.Session
_CONST_CACHE = {}


def const_value(o):
    from tensorflow.python.framework import tensor_util
    k = (id(o.graph), o.name)
    v = tensor_util.MakeNdarray(o.get_attr('value'))
    if isfloat(dt(o.outputs[0])):
        return obj(v)
    return v


def apply_op(o, xs):
    """The outputs of operation o on input values xs."""
    core.STATS.ops += 1
    core.STATS.op_types[o.type] = core.STATS.op_types.get(o.type, 0) + 1
    if o.type == 'Const':
        return [const_value(o)]
    f = OPS.get(o.type)
    if f is None:
        return concrete_fallback(o, xs)
    if o.outputs and not any(isfloat(dt(t)) for t in o.outputs) and not any(is_sym(x) for x in xs) and \
            o.type not in ('NoOp', 'Assert', 'Print', 'PrintV2', 'PyFunc', 'PyFuncStateless', 'EagerPyFunc', 'ScalarSummary',
                           'MergeSummary', 'Shape', 'ShapeN', 'Size', 'Rank'):
        pass
    outs = f(o, *xs)
    res = []
    for v, t in zip(outs, o.outputs):
        name = dt(t)
        v = wrap(v)
        if name == 'string':
            res.append(v)
        else:
            res.append(settle(v, name))
    return res
