"""Pairwise interaction tensor recovery: the graph implementation (tensorD/base/pitf_ops.py, factorization/pitf.py) and the array
implementation (pitf_ops_numpy.py, pitf_numpy.py)."""
import contextlib
import functools
import math
import os
import shutil
import tempfile
import types

from vlib.boot import np, tf1, z3
from vlib import core, npsym, session, spec as S, tfsem
from vlib.core import R, lift, obj
from vlib.harness import Case
from vlib.session import CONF
from checks.common import REAL, registry, sh

from tensorD.base import pitf_ops, pitf_ops_numpy
from tensorD.factorization import pitf, pitf_numpy
from tensorD.factorization.env import Environment

PROPS, prop = registry()
NPM = [pitf_ops_numpy, pitf_numpy]


def shim(H):
    return npsym.shim(H, NPM)


@contextlib.contextmanager
def scratch():
    """The training loops write their logs into the current directory."""
    old, d = os.getcwd(), tempfile.mkdtemp(prefix='vcheck')
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


PAIR = ((0, 1), (1, 2), (2, 0))


def root_of(n):
    return core.sqrt(R(n))


def dims(shape, dim):
    return [shape[i] for i in PAIR[dim]]


# ---------------------------------------------------------------- C20
def samples(H, shape, m, kind):
    """(the sample list as the user passes it, its indices as numbers)."""
    idx = [H.arr('s%d' % k, (m,), 'int32', lo=0, hi=shape[k] - 1, integer=True) for k in range(3)]
    val = [[lift(x) if H.sym else R(int(getattr(x, 'c', x))) for x in a] for a in idx]
    if kind == 'np':
        return (idx if not H.sym else [np.array([int(x) for x in a]) for a in idx]), val
    return [H.tensor_of(a, 'int32') for a in idx], val


def at(H, M, ij):
    """M[i, j, ...] with symbolic indices: a case split inside the expression."""
    M = S.A(M)
    return core.rsum([core.ite(hits(ij, p), M[p], R(0)) for p in np.ndindex(*M.shape)])


def hits(ij, p):
    hit = True
    for a, b in zip(ij, p):
        a = lift(a)
        hit = (hit and a.c == b) if a.e is None else core.mkb(z3.And(core.bz(hit), a.z() == b))
    return hit


def measured(H, M, val, shape, dim):
    i, j = PAIR[dim]
    other = 3 - i - j
    return [core.div(at(H, M, (val[i][k], val[j][k])), root_of(shape[other])) for k in range(len(val[0]))]


def adjoint(H, val, v, shape, dim):
    i, j = PAIR[dim]
    out = np.empty(dims(shape, dim), dtype=object)
    for p in np.ndindex(*out.shape):
        terms = []
        for k in range(len(v)):
            terms.append(core.ite(hits((val[i][k], val[j][k]), p), lift(v[k]), R(0)))
        out[p] = core.rsum(terms)
    return out


def shape_form(H, shape, form):
    return dict(list=list(shape), tuple=tuple(shape)).get(form) if form in ('list', 'tuple') else tf1.constant(list(shape))


def c20(H, shape, m, dim, impl, form='list'):
    with shim(H):
        spl, val = samples(H, shape, m, impl)
        other = 3 - PAIR[dim][0] - PAIR[dim][1]
        M = H.arr('m', dims(shape, dim), 'float32')
        v = H.arr('v', (m,), 'float32')
        if impl == 'np':
            P = pitf_ops_numpy.Pomega_mat(spl, M, shape, m, dim)
            A = pitf_ops_numpy.adjoint_operator(spl, v, shape, m, dim)
            H.observe([P, A])
        else:
            f = shape_form(H, shape, form)
            P, A = H.run([pitf_ops.Pomega_mat(spl, H.tensor_of(M, 'float32'), f, m, dim),
                          pitf_ops.adjoint_operator(spl, H.tensor_of(v, 'float32'), f, m, dim)])
        H.eq('sampling', P, np.array(measured(H, M, val, shape, dim), dtype=object), tol=1e-4)
        H.eq('adjoint', A, adjoint(H, val, v, shape, dim), tol=1e-4)
        # the two sides of the identity, from the expressions both results were just shown to equal
        p, a = (measured(H, M, val, shape, dim), adjoint(H, val, v, shape, dim)) if H.sym else (P, A)
        lhs = S.inner(np.array(p, dtype=object), v)
        H.eq('inner product', obj(np.array(lhs, dtype=object)), obj(np.array(core.div(S.inner(M, a), root_of(shape[other])), dtype=object)), tol=1e-3)


def c20t(H, shape, m, impl, form='list'):
    """Sampling of the tensor and of the pairwise model."""
    with shim(H):
        spl, val = samples(H, shape, m, impl)
        T = H.arr('t', shape, 'float32')
        Ms = [H.arr('m%d' % d, dims(shape, d), 'float32') for d in range(3)]
        if impl == 'np':
            P = pitf_ops_numpy.Pomega_tensor(spl, T, shape, m)
            Q = pitf_ops_numpy.Pomega_Pair(spl, Ms[0], Ms[1], Ms[2], shape, m)
            H.observe([P, Q])
        else:
            f = shape_form(H, shape, form)
            P, Q = H.run([pitf_ops.Pomega_tensor(spl, H.tensor_of(T, 'float32'), m),
                          pitf_ops.Pomega_Pair(spl, *[H.tensor_of(x, 'float32') for x in Ms], f, m)])
        H.eq('tensor samples', P, np.array([at(H, T, [val[d][k] for d in range(3)]) for k in range(m)], dtype=object), tol=1e-4)
        ms = [measured(H, Ms[d], val, shape, d) for d in range(3)]
        H.eq('pairwise samples', Q, np.array([ms[0][k] + ms[1][k] + ms[2][k] for k in range(m)], dtype=object), tol=1e-4)


def c20r(H, shape, m, impl, form='list'):
    """The sampling rule draws one index per mode and sample, in range, and leaves no index out."""
    m = m if H.sym else 400
    with shim(H):
        if impl == 'np':
            s = pitf_ops_numpy.sample3D_rule(tuple(shape), m)
        else:
            s = H.run(list(pitf_ops.sample3D_rule(shape_form(H, shape, form), m)))
        H.ok('three lists', len(s) == 3)
        for d in range(3):
            H.ok('list %d: length' % d, np.shape(s[d]) == (m,))
            for k in range(m):
                x = lift(np.asarray(s[d])[k])
                H.ok('list %d: index %d in range' % (d, k), (x >= 0) & (x < shape[d]) if x.e is not None else 0 <= x.c < shape[d])
            for p in range(shape[d]) if H.mode != 'interp' else ():
                xs = [lift(x) for x in np.asarray(s[d])]
                if H.sym:
                    fs = [z3.Or([x.z() == p for x in xs])]
                    can = core.query(fs + core.cone(fs, core.BASE_TAGS), 5000)[0] == 'sat'
                else:
                    can = any(int(x.c) == p for x in xs)
                H.ok('list %d: index %d can be drawn' % (d, p), can)


@prop('C20', 'tensor shapes up to 4x3x2 with 1..3 samples, every index triple (repeated ones included), all three pairs, both implementations, '
      'shape given as list, tuple or tensor', 'more samples, larger shapes', [REAL])
def c20_cases(tier):
    shapes = [((2, 3, 1), 2), ((1, 2, 4), 2), ((2, 2, 2), 3), ((3, 1, 2), 1)]
    if tier != 'quick':
        shapes += [((4, 3, 2), 2), ((2, 2, 2), 4), ((1, 1, 1), 3), ((3, 3, 3), 2)]
    out = []
    for n, (s, m) in enumerate(shapes):
        for dim in range(3):
            if m * 2 * max(s) <= 12 or tier != 'quick':
                out.append(Case('np %s pair %d, %d samples' % (sh(s), dim, m), c20, dict(shape=s, m=m, dim=dim, impl='np'), timeout=300))
            form = ('list', 'tuple', 'tensor')[(n + dim) % 3]
            out.append(Case('tf %s pair %d, %d samples, shape as %s' % (sh(s), dim, m, form), c20, dict(shape=s, m=m, dim=dim, impl='tf', form=form),
                            timeout=300))
        if m <= 2:
            out.append(Case('np tensor %s, %d samples' % (sh(s), m), c20t, dict(shape=s, m=m, impl='np'), timeout=300))
        form = ('tuple', 'tensor', 'list')[n % 3]
        out.append(Case('tf tensor %s, %d samples, shape as %s' % (sh(s), m, form), c20t, dict(shape=s, m=m, impl='tf', form=form), timeout=300))
        for impl in ('np', 'tf'):
            out.append(Case('%s rule %s, %d samples' % (impl, sh(s), m), c20r, dict(shape=s, m=m + 1, impl=impl, form=form)))
    return out


# ---------------------------------------------------------------- C21
def centred(M):
    M = S.A(M)
    out = np.empty(M.shape, dtype=object)
    for i, j in np.ndindex(*M.shape):
        out[i, j] = M[i, j] - core.rsum(list(M[:, j])) * R(core.Fraction(1, M.shape[0]))
    return out


def mean(M):
    return core.rsum(list(S.A(M).flat)) * R(core.Fraction(1, M.size))


def subspaceA(M):
    C, mu = centred(M), mean(M)
    return S.addm(C, obj_full(M.shape, mu))


def obj_full(shape, v):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = v
    return a


def thresholded(M, tao):
    """U max(S - tao, 0) V^T of the centred matrix."""
    s, U, V = tfsem.svd(centred(M), True)
    k = len(s)
    t = np.array([core.rmax(x - tao, R(0)) for x in s], dtype=object)
    out = np.empty(M.shape, dtype=object)
    for i, j in np.ndindex(*M.shape):
        out[i, j] = core.rsum([U[i, q] * t[q] * V[j, q] for q in range(k)])
    return out


def shrunk(M, tao, mode):
    M = S.A(M)
    out = thresholded(M, tao)
    if mode == 'normal':
        return out
    n = root_of(M.size)
    delta = core.div(core.rsum(list(M.flat)), n)
    g = core.div(core.rmax(R(0), delta - tao) + core.rmin(R(0), delta + tao), n)
    return S.addm(out, obj_full(M.shape, g))


def c21c(H, shape, impl, dtype='float32'):
    with shim(H):
        M = H.arr('m', shape, dtype)
        if impl == 'np':
            C = pitf_ops_numpy.centralization(M)
            D = pitf_ops_numpy.centralization(C)
            H.observe([C, D])
        else:
            c = pitf_ops.centralization(H.tensor_of(M, dtype))
            C, D = H.run([c, pitf_ops.centralization(c)])
        H.eq('centring subtracts the column means', C, centred(M), tol=1e-4)
        H.eq('centring twice is centring once', D, C, tol=1e-4)


def c21s(H, shape, rank, mode, impl, form='list'):
    with shim(H):
        if impl == 'np':
            P = pitf_ops_numpy.subspace(shape, rank, mode)
        else:
            P = pitf_ops.subspace(tuple(shape) if form == 'tuple' else tf1.constant(list(shape)), rank if form == 'tuple' else tf1.constant(rank), mode)
            P = H.run(P) if P is not False else P
        if mode not in 'ABC':
            return H.ok('unknown matrix', P is False)
        P = obj(np.asarray(P))
        H.ok('shape', P.shape == tuple(shape))
        # the projection leaves its own results alone
        H.eq('in the subspace', P, subspaceA(P) if mode == 'A' else centred(P), tol=1e-4)
        if mode == 'A':
            sums = [core.rsum(list(P[:, j])) for j in range(shape[1])]
            H.eq('equal column sums', np.array(sums, dtype=object), np.array([sums[0]] * shape[1], dtype=object), tol=1e-4)
        draws = [v for _, _, v in CONF.draws] if impl == 'tf' else npsym.shared(H).log
        if len(draws) == 2 and np.shape(draws[0]) == (shape[0], rank) and np.shape(draws[1]) == (shape[1], rank):
            M = tfsem.matmul(obj(np.asarray(draws[0])), tfsem.tr(obj(np.asarray(draws[1]))))
            H.eq('projection of the random product', P, subspaceA(M) if mode == 'A' else centred(M), tol=1e-4)


def c21m(H, shape, ranks, impl):
    """sample_rule4mat: three matrices, each in its subspace."""
    with shim(H):
        if impl == 'np':
            Ms = pitf_ops_numpy.sample_rule4mat(tuple(shape), *ranks, 3)
            draws = list(npsym.shared(H).log)
        else:
            CONF.draws = []
            Ms = H.run(list(pitf_ops.sample_rule4mat(tuple(shape), *ranks)))
            draws = [v for _, _, v in CONF.draws]
        draws = [obj(np.asarray(v)) for v in draws]
        H.ok('three matrices', len(Ms) == 3)
        for d, M in enumerate(Ms):
            M = obj(np.asarray(M))
            H.ok('matrix %d: shape' % d, list(M.shape) == dims(shape, d))
            H.eq('matrix %d: in its subspace' % d, M, subspaceA(M) if d == 0 else centred(M), tol=1e-4)
            # the projection of the product of two random factors of its own rank
            n1, n2 = dims(shape, d)
            us = [v for v in draws if v.shape == (n1, ranks[d])]
            vs = [v for v in draws if v.shape == (n2, ranks[d])]
            if len(us) == len(vs) == 1 and us[0] is not vs[0]:
                P = tfsem.matmul(us[0], tfsem.tr(vs[0]))
                H.eq('matrix %d: projection of the random product' % d, M, subspaceA(P) if d == 0 else centred(P), tol=1e-4)
            H.ok('matrix %d: random factors of its rank' % d, len(us) >= 1 and len(vs) >= 1)


def c21v(H, shape, impl, mode, positive=True, dtype='float32'):
    """Thresholding and shrinkage."""
    with shim(H):
        M = H.arr('m', shape, dtype)
        tao = H.value('tao', lo=0 if positive else -1, hi=2)
        t = tao if H.sym else float(tao.c)
        if impl == 'np':
            u, s, vt = pitf_ops_numpy.SVT(M, t)
            u, s, v = S.A(u), S.A(s), tfsem.tr(S.A(vt))
            W = pitf_ops_numpy.shrink(M, t, mode=mode)
            H.observe([s, W])
        else:
            mt = H.tensor_of(M, dtype)
            tt = H.tensor_of(np.array(tao, dtype=object) if H.sym else np.array(t), dtype)
            s, u, v = [S.A(x) for x in run_quietly(H, list(pitf_ops.SVT(mt, tt)))]
            W = H.run(pitf_ops.shrink(mt, tt, mode=mode))
            H.observe(s)
        sv = tfsem.singular_values(centred(M))
        H.eq('thresholded singular values', s, np.array([core.rmax(x - tao, R(0)) for x in sv], dtype=object), tol=1e-3)
        k = len(sv)
        prod = np.empty(shape, dtype=object)
        for i, j in np.ndindex(*shape):
            prod[i, j] = core.rsum([u[i, q] * s[q] * v[j, q] for q in range(k)])
        H.eq('same singular vectors', prod, thresholded(M, tao), tol=1e-3)
        H.eq('shrinkage', W, shrunk(M, tao, mode), tol=1e-3)
        if mode == 'normal' and not H.sym:
            return


def run_quietly(H, f):
    """Singular vectors are only unique up to sign: they are no translation-validation observation."""
    n = len(H.observed)
    r = H.run(f)
    del H.observed[n:]
    return r


def c21z(H, shape, impl, dtype='float32'):
    """A threshold of zero changes nothing but the centring."""
    with shim(H):
        M = H.arr('m', shape, dtype)
        if impl == 'np':
            W = pitf_ops_numpy.shrink(M, 0.0)
            H.observe([W])
        else:
            W = H.run(pitf_ops.shrink(H.tensor_of(M, dtype), tf1.constant(0.0, dtype)))
        H.eq('shrinkage by zero is centring', W, centred(M), tol=1e-3)


@prop('C21', 'matrices up to 3x3 (singular values up to 2), every real element, every threshold; ranks 1..3', 'larger matrices',
      [REAL, 'svd enters by its defining equations'])
def c21_cases(tier):
    out = []
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (4, 2)] + ([(3, 3), (4, 3), (2, 4)] if tier != 'quick' else [])
    for impl in ('np', 'tf'):
        for i, s in enumerate(shapes):
            dt = ('float32', 'float64')[i % 2]
            out.append(Case('%s centring %s' % (impl, sh(s)), c21c, dict(shape=s, impl=impl, dtype=dt)))
            for mode in ('normal', 'complicated'):
                out.append(Case('%s shrinkage %s %s' % (impl, sh(s), mode), c21v, dict(shape=s, impl=impl, mode=mode, dtype=dt), timeout=300))
        for i, s in enumerate([(2, 2), (3, 2), (1, 3)]):
            out.append(Case('%s shrinkage by zero %s' % (impl, sh(s)), c21z, dict(shape=s, impl=impl, dtype=('float32', 'float64')[i % 2]), timeout=300))
        for n, (s, r) in enumerate([((2, 3), 2), ((3, 1), 1), ((1, 2), 3)]):
            for mode in 'ABCD':
                out.append(Case('%s subspace %s of %s rank %d' % (impl, mode, sh(s), r), c21s,
                                dict(shape=s, rank=r, mode=mode, impl=impl, form='tuple' if n % 2 else 'tensor')))
        for s, r in [((2, 3, 1), (1, 2, 1)), ((1, 2, 3), (2, 1, 3)), ((3, 1, 2), (1, 1, 2))]:
            out.append(Case('%s three subspaces of %s' % (impl, sh(s)), c21m, dict(shape=s, ranks=r, impl=impl)))
    return out


# ---------------------------------------------------------------- C22
def c22(H, n, impl, zero=False, tint=False):
    with shim(H):
        x = H.arr('x', (n,), 'float32', zeros=[(i,) for i in range(n)] if zero else ())
        t = H.integer('t', -3, 3) if tint else H.value('t')
        if impl == 'np':
            r = pitf_ops_numpy.cone_projection_operator(x, (t if H.sym else getattr(t, 'c', t)))
        else:
            tt = H.tensor_of(np.array(lift(t), dtype=object) if H.sym else np.array(getattr(t, 'c', t)), 'int32' if tint else 'float32')
            r = H.run(list(pitf_ops.cone_projection_operator(H.tensor_of(x, 'float32'), tt)))
        if r is None:
            return H.ok('a result', False)
        y, s = r
        if np.ndim(y) == 0:
            y = np.array([lift(y)] * n, dtype=object)       # the origin may be given as the number zero
        y, s = S.A(y), lift(s if not isinstance(s, np.ndarray) else s[()])
        H.observe([y, obj(np.array(s, dtype=object))])
        xo, to = S.A(x), lift(t)
        nx = S.norm(xo)
        inside, polar = nx <= to, to <= -nx
        if not H.sym and min(abs(float(nx.c) - float(to.c)), abs(float(nx.c) + float(to.c))) < 1e-4 and not zero:
            return
        half = core.div(nx + to, R(2) * nx) if not zero else R(0)
        wx = [core.ite(inside, a, core.ite(polar, R(0), half * a)) for a in xo]
        ws = core.ite(inside, to, core.ite(polar, R(0), half * nx))
        H.eq('projected vector', y, np.array(wx, dtype=object), tol=1e-4)
        H.eq('projected bound', obj(np.array(s, dtype=object)), obj(np.array(ws, dtype=object)), tol=1e-4)


def c22k(H, n):
    """The formula of the specification is the nearest point (optimality conditions over a cone): the result lies in the cone,
    the difference in the polar cone, and they are orthogonal."""
    with shim(H):
        x = H.arr('x', (n,), 'float32')
        t = H.value('t')
        y, s = pitf_ops_numpy.cone_projection_operator(x, t if H.sym else t.c)
        if np.ndim(y) == 0:
            y = np.array([lift(y)] * n, dtype=object)
        y, s, xo = S.A(y), lift(s), S.A(x)
        d, e = S.sub(xo, y), t - s
        eps = 0 if H.sym else 1e-5
        H.ok('bound not negative', s >= -eps)
        H.ok('in the cone', S.sumsq(y) <= s * s + eps)
        H.ok('difference in the polar cone', (e <= eps) & (S.sumsq(d) <= e * e + eps) if H.sym else (float(e.c) <= eps and float(S.sumsq(d).c) <= float((e * e).c) + eps))
        z = S.inner(y, d) + s * e
        H.eq('orthogonal', obj(np.array(z, dtype=object)), obj(np.array(R(0), dtype=object)), tol=1e-2)


@prop('C22', 'vectors of 1..4 elements (1..3 for the optimality conditions), every real vector and bound, both implementations; the zero vector',
      'longer vectors', [REAL])
def c22_cases(tier):
    out = []
    for impl in ('np', 'tf'):
        for n in range(1, 5 if tier == 'quick' else 7):
            out.append(Case('%s %d' % (impl, n), c22, dict(n=n, impl=impl)))
        out.append(Case('%s zero vector' % impl, c22, dict(n=2, impl=impl, zero=True)))
    out.append(Case('tf 2, whole bound', c22, dict(n=2, impl='tf', tint=True)))
    for n in range(1, 4):
        out.append(Case('optimality %d' % n, c22k, dict(n=n), timeout=300, qtime=40))
    return out


# ---------------------------------------------------------------- C23
class Provider:
    def __init__(self, T):
        self.T = T

    def full_tensor(self):
        return self.T


def concrete_draws(H):
    """Symbolic mode: one path per sample list (the integer draws)."""
    if not H.sym:
        return

    def forced(o, n, shape, ins):
        if o.type != 'RandomUniformInt':
            return None
        lo, hi = session.ints1(ins[1]), session.ints1(ins[2])
        out = np.empty(shape, dtype=np.int32)
        for i in np.ndindex(*shape):
            out[i] = int(core.new_input('%s%s' % (session.rnd_name(o, n), list(i) if shape else ''), lo=lo, hi=hi - 1, integer=True))
        return out
    CONF.forced_rnd = forced


def cutv(x):
    if isinstance(x, core.SymArray):
        if getattr(x, 'tf_dtype', '') not in ('float32', 'float64') or x.ndim != 1:
            return x
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = session.cut(lift(np.asarray(x)[i]), 'arg')
        return core.symarray(out, x.tf_dtype)
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return type(x)(cutv(y) for y in x)
    return x


@contextlib.contextmanager
def cutting(H, modules):
    """Arrays passed to the functions of the modules become named intermediate values."""
    saved = []
    if H.sym:
        for m in modules:
            for k, f in list(vars(m).items()):
                if isinstance(f, types.FunctionType) and f.__module__ == m.__name__:
                    saved.append((m, k, f))
                    setattr(m, k, functools.wraps(f)(lambda *a, _f=f, **kw: _f(*[cutv(x) for x in a], **{n: cutv(x) for n, x in kw.items()})))
    try:
        yield
    finally:
        for m, k, f in saved:
            setattr(m, k, f)


class Step:
    """The specified step, from the dual vector y."""

    def __init__(self, H, T, val, shape, m, delt, tao, y):
        p = root_of(S.prod(shape))
        delt, tao = core.div(delt * R(m), p), tao * p
        self.X = []
        for d in range(3):
            A = adjoint(H, val, y, shape, d)
            other = 3 - PAIR[d][0] - PAIR[d][1]
            self.X.append(S.divm(shrunk(A, tao, 'complicated' if d == 0 else 'normal'), root_of(shape[other])))
        ms = [measured(H, self.X[d], val, shape, d) for d in range(3)]
        e1 = [at(H, T, [val[d][k] for d in range(3)]) for k in range(m)]
        self.e2 = [ms[0][k] + ms[1][k] + ms[2][k] for k in range(m)]
        e = [a - b for a, b in zip(e1, self.e2)]
        sq = core.rsum([x * x for x in e])
        self.erate = core.div(core.sqrt(sq), core.sqrt(core.rsum([x * x for x in e1])))
        self.loss = core.sqrt(sq * R(core.Fraction(1, m)))
        self.y = [a + delt * b for a, b in zip(y, e)]

    def defined(self):
        """Real mode: are the errors well away from a division by zero?"""
        return all(math.isfinite(float(x.c)) for x in [self.erate, self.loss] + list(self.y)) and float(self.loss.c) > 1e-4


def vec(xs):
    return np.array([lift(x) for x in xs], dtype=object)


def named(y):
    """The dual vector of the program as named values, and their names."""
    y = S.A(cutv(core.symarray(S.A(y), 'float64')))
    return list(y), set().union(*[core.atoms(x.z()) for x in y]) if any(x.e is not None for x in y) else set()


def scal(x):
    return obj(np.array(x[()] if isinstance(x, np.ndarray) else lift(x), dtype=object))


def c23n(H, shape, m, K):
    with shim(H), scratch(), cutting(H, [pitf_ops_numpy]):
        T = H.arr('t', shape, 'float64', lo=1, hi=4)
        delt, tao = H.value('delt', lo=0, hi=2), H.value('tao', lo=0, hi=2)
        d, t = (delt, tao) if H.sym else (float(delt.c), float(tao.c))
        env = Environment(Provider(T), summary_path='unused')
        draws = npsym.shared(H)
        y, keep, errs, rms = [R(0)] * m, set(), [], []
        for k in range(1, K + 1):
            draws.n, draws.log[:] = 0, []
            model = pitf_numpy.PITF_np(env)
            yk, X, Y, Z, If, Ef, Rf = model.exact_recovery(pitf_numpy.PITF_np.PITF_np_Args(1, d, t, m, steps=k), T)
            got = list(draws.log)
            H.ok('one random list of indices per mode', len(got) == 3 and all(np.shape(v) == (m,) for v in got))
            if len(got) != 3:
                return
            it = Step(H, T, [[R(int(x)) for x in v] for v in got], shape, m, delt, tao, y)
            if not H.sym and not it.defined():
                return
            H.observe([S.A(yk)] + [S.A(a) for a in (X, Y, Z)])
            H.eq('dual vector after %d steps' % k, yk, vec(it.y), tol=1e-3, keep=())
            for nm, a, b in zip('XYZ', (X, Y, Z), it.X):
                H.eq('matrix %s after %d steps' % (nm, k), a, b, tol=1e-3, keep=keep)
            H.ok('step numbers', list(If) == list(range(k)) and len(Ef) == len(Rf) == k)
            if len(Ef) != k or len(Rf) != k:
                return
            H.eq('error rate of step %d' % k, scal(Ef[-1]), scal(it.erate), tol=1e-3, keep=keep)
            H.eq('root mean square error of step %d' % k, scal(Rf[-1]), scal(it.loss), tol=1e-3, keep=keep)
            H.eq('earlier errors', vec(list(Ef[:-1]) + list(Rf[:-1])), vec(errs + rms), tol=1e-3)
            errs, rms = list(Ef), list(Rf)
            y, keep = named(yk) if H.sym else (list(S.A(yk)), None)


def c23t(H, shape, m, K, vint=-1, verbose=False, dtype='float32'):
    with scratch():
        concrete_draws(H)
        T = H.tensor('t', shape, dtype, lo=1, hi=4)
        Tv = S.A(H.last)
        delt, tao = H.value('delt', lo=0, hi=2), H.value('tao', lo=0, hi=2)
        d, t = (delt, tao) if H.sym else (float(delt.c), float(tao.c))
        env = Environment(Provider(T), summary_path='unused')
        model = pitf.PITF(env)
        model.build_model(pitf.PITF.PITF_Args(1, d, t, m, validation_internal=vint, verbose=verbose))
        y, keep = [R(0)] * m, set()
        for k in range(1, K + 1):
            CONF.draws, CONF.record = [], []
            model.train(k)
            rec, CONF.record = CONF.record, None
            got = [np.asarray(v) for _, _, v in CONF.draws]
            H.ok('one random list of indices per mode', len(got) == 3 and all(g.shape == (m,) for g in got))
            if len(got) != 3:
                return
            it = Step(H, Tv, [[R(int(getattr(x, 'c', x))) for x in v] for v in got], shape, m, delt, tao, y)
            if not H.sym and not it.defined():
                return
            yk = getattr(model, '_sample_vector', None)
            if yk is None:      # the last vector that was assigned
                yk = [v for _, _, leaves, vals in rec for x, v in zip(leaves, vals)
                      if isinstance(x, tf1.Tensor) and x.op.type.startswith('Assign') and np.shape(v) == (m,)][-1:]
                if not yk:
                    raise core.Unsupported('no dual vector is fetched')
                yk = yk[0]
            H.observe(S.A(yk))
            H.eq('dual vector after %d steps' % k, yk, vec(it.y), tol=2e-3, keep=keep)
            fetched = {x.name: v for _, _, leaves, vals in rec[-1:] for x, v in zip(leaves, vals) if not isinstance(x, tf1.Operation)}
            for nm, want, what in (('_e2', vec(it.e2), 'measurements of the matrices'), ('_erate_op', scal(it.erate), 'error rate'),
                                   ('_loss_op', scal(it.loss), 'root mean square error')):
                op = getattr(model, nm, None)
                if op is not None and getattr(op, 'name', None) in fetched:
                    H.eq('step %d: %s' % (k, what), obj(np.asarray(fetched[op.name])), want, tol=2e-3, keep=keep)
            y, keep = named(yk) if H.sym else (list(S.A(yk)), None)


@prop('C23', 'tensors 2x1x2, 1x2x2, 2x2x1 and 2x2x2 with entries between 1 and 4, 1 and 2 samples (every index triple), 1..3 steps, every step '
      'length and threshold', 'more steps, larger tensors', [REAL, 'svd enters by its defining equations'])
def c23_cases(tier):
    out = []
    cfg = [((2, 1, 2), 1, 3), ((1, 2, 2), 1, 3), ((2, 2, 1), 2, 2), ((1, 1, 2), 2, 2), ((1, 1, 1), 2, 3)]
    for n, (s, m, K) in enumerate(cfg):
        out.append(Case('np %s, %d samples, %d steps' % (sh(s), m, K), c23n, dict(shape=s, m=m, K=K), timeout=400))
        out.append(Case('tf %s, %d samples, %d steps' % (sh(s), m, K), c23t, dict(shape=s, m=m, K=K, vint=(-1, -1, 1, 2, 2)[n], verbose=n % 2 == 0, dtype=('float32', 'float64')[n % 2]), timeout=400))
    return out
