"""Reference definitions, written index by index over numpy object arrays (independently of the code under test)."""
import itertools

from .boot import np
from . import core, tfsem
from .core import R, lift, obj, rsum
from .tfsem import matmul, tr, wrap0


def A(x):
    return obj(np.asarray(x))


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def kolda_col(idx, shape, mode):
    """Column of element idx in the mode-n unfolding: the lowest remaining mode varies fastest."""
    j, stride = 0, 1
    for k in range(len(shape)):
        if k != mode:
            j += idx[k] * stride
            stride *= shape[k]
    return j


def unfold(T, mode):
    T = np.asarray(T)
    out = np.empty((T.shape[mode], prod(T.shape) // T.shape[mode]), dtype=T.dtype)
    for idx in np.ndindex(*T.shape):
        out[idx[mode], kolda_col(idx, T.shape, mode)] = T[idx]
    return out


def fold(M, mode, shape):
    M = np.asarray(M)
    out = np.empty(tuple(shape), dtype=M.dtype)
    for idx in np.ndindex(*shape):
        out[idx] = M[idx[mode], kolda_col(idx, shape, mode)]
    return out


def row_major(idx, dims):
    r = 0
    for i, d in zip(idx, dims):
        r = r * d + i
    return r


def t2mat(T, r, c):
    T = np.asarray(T)
    rd, cd = [T.shape[i] for i in r], [T.shape[i] for i in c]
    out = np.empty((prod(rd), prod(cd)), dtype=T.dtype)
    for idx in np.ndindex(*T.shape):
        out[row_major([idx[i] for i in r], rd), row_major([idx[i] for i in c], cd)] = T[idx]
    return out


def contract(X, Y, ax, bx):
    X, Y = A(X), A(Y)
    ra = [i for i in range(X.ndim) if i not in ax]
    rb = [i for i in range(Y.ndim) if i not in bx]
    out = np.empty([X.shape[i] for i in ra] + [Y.shape[i] for i in rb], dtype=object)
    dims = [X.shape[i] for i in ax]
    for idx in np.ndindex(*out.shape):
        terms = []
        for s in np.ndindex(*dims):
            xi, yi = [0] * X.ndim, [0] * Y.ndim
            for k, i in enumerate(ra):
                xi[i] = idx[k]
            for k, i in enumerate(rb):
                yi[i] = idx[len(ra) + k]
            for k in range(len(ax)):
                xi[ax[k]] = s[k]
                yi[bx[k]] = s[k]
            terms.append(X[tuple(xi)] * Y[tuple(yi)])
        out[idx] = rsum(terms)
    return out


def mode_product(T, M, axis, transpose=False):
    """Y[.., j, ..] = sum_i M[j, i] T[.., i, ..]"""
    T, M = A(T), A(M)
    if transpose:
        M = M.T
    shape = list(T.shape)
    shape[axis] = M.shape[0]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = rsum([M[idx[axis], i] * T[idx[:axis] + (i,) + idx[axis + 1:]] for i in range(T.shape[axis])])
    return out


def ttm(T, mats, axes=None, transpose=False):
    axes = list(range(len(mats))) if axes is None else axes
    for M, a in zip(mats, axes):
        T = mode_product(T, M, a, transpose)
    return A(T)


def hadamard(mats):
    r = A(mats[0])
    for m in mats[1:]:
        m = A(m)
        o = np.empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            o[i] = r[i] * m[i]
        r = o
    return r


def kron(mats):
    rd, cd = [m.shape[0] for m in mats], [m.shape[1] for m in mats]
    out = np.empty((prod(rd), prod(cd)), dtype=object)
    for ri in np.ndindex(*rd):
        for ci in np.ndindex(*cd):
            v = R(1)
            for m, i, j in zip(mats, ri, ci):
                v = v * A(m)[i, j]
            out[row_major(ri, rd), row_major(ci, cd)] = v
    return out


def khatri(mats):
    rd = [m.shape[0] for m in mats]
    out = np.empty((prod(rd), mats[0].shape[1]), dtype=object)
    for ri in np.ndindex(*rd):
        for c in range(out.shape[1]):
            v = R(1)
            for m, i in zip(mats, ri):
                v = v * A(m)[i, c]
            out[row_major(ri, rd), c] = v
    return out


def skip(mats, s):
    if s is None:
        return list(mats)
    s = [s] if isinstance(s, int) else s
    return [m for i, m in enumerate(mats) if i not in s]


def inner(X, Y):
    return rsum([x * y for x, y in zip(A(X).flat, A(Y).flat)])


def kruskal(U, lam=None):
    U = [A(u) for u in U]
    shape = [u.shape[0] for u in U]
    rank = U[0].shape[1]
    lam = [R(1)] * rank if lam is None else list(A(lam).reshape(-1))
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        terms = []
        for r in range(rank):
            v = lam[r]
            for u, i in zip(U, idx):
                v = v * u[i, r]
            terms.append(v)
        out[idx] = rsum(terms)
    return out


def tucker(g, U):
    return ttm(g, U)


def sub(X, Y):
    X, Y = A(X), A(Y)
    o = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        o[i] = X[i] - Y[i]
    return o


def scale(X, c):
    X = A(X)
    o = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        o[i] = X[i] * c
    return o


def addm(X, Y):
    return sub(X, scale(Y, R(-1)))


def divm(X, c):
    X = A(X)
    o = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        o[i] = core.div(X[i], lift(c))
    return o


def relu(X):
    X = A(X)
    o = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        o[i] = core.rmax(X[i], R(0))
    return o


def sumsq(X):
    return rsum([x * x for x in A(X).flat])


def norm(X):
    return core.sqrt(sumsq(X))


def sigma_max(M):
    return tfsem.singular_values(A(M))[0]


def gram(M):
    return matmul(tr(A(M)), A(M))


def rmse_nonzero(X, Y):
    """Root mean square of X - Y over the nonzero elements of X."""
    num, cnt = [], []
    for x, y in zip(A(X).flat, A(Y).flat):
        nz = x != 0
        num.append(core.ite(nz, (x - y) * (x - y), R(0)) if not isinstance(nz, bool) else ((x - y) * (x - y) if nz else R(0)))
        cnt.append(core.ite(nz, R(1), R(0)) if not isinstance(nz, bool) else (R(1) if nz else R(0)))
    return core.sqrt(core.div(rsum(num), rsum(cnt)))
