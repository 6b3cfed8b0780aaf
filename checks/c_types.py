"""DTensor, KTensor, TTensor (base/type.py) and the losses (loss.py)."""
import itertools

from vlib.boot import np, tf1
from vlib import core, spec as S
from vlib.core import R
from vlib.harness import Case
from checks.common import REAL, registry, sh

import tensorD.base.ops as ops
import tensorD.loss as loss
from tensorD.base import DTensor, KTensor, TTensor
from tensorD.base.error import TensorErr

PROPS, prop = registry()


# ---------------------------------------------------------------- C06
def c06(H, shape, rank, kind, lam, dtype):
    """kind: how the factors are given; lam: how the weights are given."""
    mk = H.tensor if kind == 'tensor' else H.arr
    U = [mk('u%d' % i, (d, rank), dtype) for i, d in enumerate(shape)]
    U0 = list(U)
    ldt = dtype if kind == 'tensor' else 'float32'
    L = dict(none=lambda: None,
             col=lambda: H.tensor('l', (rank, 1), ldt), vec=lambda: H.tensor('l', (rank,), ldt),
             acol=lambda: H.arr('l', (rank, 1), 'float64'), avec=lambda: H.arr('l', (rank,), 'float32'))[lam]()
    P = KTensor(U) if lam == 'none' else KTensor(U, L)
    t = P.extract()
    H.ok('the factor list is left alone', len(U) == len(U0) and all(a is b for a, b in zip(U, U0)))
    H.ok('order', P.order == len(shape))
    if kind == 'tensor':
        u = H.run(U)
    else:
        u = [core.obj(x) for x in U]
    if L is None:
        lv = None
    elif isinstance(L, tf1.Tensor):
        lv = H.run(L)
    else:
        lv = core.obj(L)
    v, v2 = H.run([t, P.extract()])
    want = S.kruskal(u, lv)
    H.eq('extract', v, want, tol=1e-4)
    H.eq('extract again', v2, want, tol=1e-4)
    H.ok('static shape', t.get_shape().as_list() == list(shape))


@prop('C06', 'orders 1..5, dimensions 1..4 (13 once), rank 1..3; factors as tensors or arrays, float32/float64, weights absent, column or vector, '
      'as tensor or array', 'orders above 5; integer factors', [REAL])
def c06_cases(tier):
    cs = []
    shapes = [((3,), 2), ((2, 3), 2), ((2, 3), 1), ((2, 3, 2), 2), ((3, 1, 2), 3), ((2, 2, 2), 2), ((2, 1, 3, 2), 2), ((1, 2, 1, 2, 2), 2), ((13, 2), 1)]
    if tier != 'quick':
        shapes += [((4, 3, 2), 3), ((3, 3, 3), 4), ((2, 2, 3, 2), 3), ((2, 2, 2, 2, 2), 2), ((2, 1, 2, 1, 2, 2), 2)]
    i = 0
    for s, r in shapes:
        for kind in ('tensor', 'array'):
            for lam in ('none', 'col', 'vec', 'acol', 'avec'):
                i += 1
                if tier == 'quick' and len(s) != 3 and i % 3:
                    continue
                for dtype in ('float64', 'float32'):
                    if tier == 'quick' and s != (2, 3, 2) and dtype == 'float32' and i % 2:
                        continue
                    cs.append(Case('Kruskal %s rank %d %s %s weights %s' % (sh(s), r, kind, dtype, lam), c06,
                                   dict(shape=s, rank=r, kind=kind, lam=lam, dtype=dtype)))
    return cs


# ---------------------------------------------------------------- C07
def c07(H, shape, ranks, kg, ku, dtype):
    g = (H.tensor if kg == 'tensor' else H.arr)('g', ranks, dtype)
    mk = H.tensor if ku == 'tensor' else H.arr
    U = [mk('u%d' % i, (d, r), dtype) for i, (d, r) in enumerate(zip(shape, ranks))]
    U0 = list(U)
    P = TTensor(g, U)
    t = P.extract()
    H.ok('the factor list is left alone', len(U) == len(U0) and all(a is b for a, b in zip(U, U0)))
    H.ok('order', P.order == len(shape))
    gv = H.run(g) if kg == 'tensor' else core.obj(g)
    uv = H.run(U) if ku == 'tensor' else [core.obj(x) for x in U]
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        terms = []
        for r in np.ndindex(*ranks):
            x = core.lift(S.A(gv)[r])
            for k in range(len(shape)):
                x = x * S.A(uv[k])[i[k], r[k]]
            terms.append(x)
        want[i] = core.rsum(terms)
    v, v2 = H.run([t, P.extract()])
    H.eq('extract', v, want, tol=1e-4)
    H.eq('extract again', v2, want, tol=1e-4)
    H.ok('static shape', t.get_shape().as_list() == list(shape))


@prop('C07', 'orders 1..4 (5 once), dimensions 1..4, core sizes 1..3 (larger and smaller than the tensor); core and factors as tensors or arrays',
      'orders above 5', [REAL])
def c07_cases(tier):
    cs = []
    shapes = [((3,), (2,)), ((2, 3), (1, 2)), ((2, 3), (3, 2)), ((2, 3, 2), (2, 1, 2)), ((3, 2, 4), (2, 2, 1)), ((2, 2, 2), (2, 2, 2)),
              ((1, 2, 2), (2, 3, 1)), ((2, 1, 2, 2), (1, 2, 1, 2)), ((1, 2, 1, 2, 1), (2, 1, 1, 2, 1))]
    if tier != 'quick':
        shapes += [((3, 3, 3), (2, 2, 2)), ((2, 3, 2), (3, 2, 3)), ((2, 2, 2, 2), (2, 2, 2, 2)), ((4, 3, 2), (2, 3, 2))]
    for i, (s, r) in enumerate(shapes):
        for kg, ku in itertools.product(('tensor', 'array'), repeat=2):
            cs.append(Case('Tucker %s core %s as %s, factors as %s' % (sh(s), sh(r), kg, ku), c07,
                           dict(shape=s, ranks=r, kg=kg, ku=ku, dtype=('float64', 'float32')[i % 2])))
    return cs


# ---------------------------------------------------------------- C08
def dt_ops(H, shape, raw, Y, yraw, y, Z, z):
    """name -> (call on the DTensor, expected value as a function of the element values x, y)."""
    n = len(shape)
    o = {}
    o['unfold()'] = (lambda D: D.unfold(), lambda x: S.unfold(x, 0))
    for m in range(n):
        o['unfold(%d)' % m] = (lambda D, m=m: D.unfold(m), lambda x, m=m: S.unfold(x, m))
    rest = list(range(1, n))
    o['t2mat(0,-1)'] = (lambda D: D.t2mat(0, -1), lambda x: S.t2mat(x, [0], rest))
    o['t2mat([..],0)'] = (lambda D: D.t2mat(list(rest), 0), lambda x: S.t2mat(x, rest, [0]))
    if n > 2:
        back = rest[::-1]
        o['t2mat(0,reversed)'] = (lambda D: D.t2mat(0, list(back)), lambda x: S.t2mat(x, [0], back))
        o['t2mat([1],..)'] = (lambda D: D.t2mat([1], [2, 0] + rest[2:]), lambda x: S.t2mat(x, [1], [2, 0] + rest[2:]))
        o['t2mat([1, 0],-1)'] = (lambda D: D.t2mat([1, 0], -1), lambda x: S.t2mat(x, [1, 0], rest[1:]))
    o['vectorize'] = (lambda D: D.vectorize(), lambda x: S.A(x).reshape(-1))
    o['mul default axes'] = (lambda D: D.mul(Y), lambda x: S.contract(x, y, [0], [0]))
    o['mul last axes'] = (lambda D: D.mul(Y, n - 1, n - 1), lambda x: S.contract(x, y, [n - 1], [n - 1]))
    o['mul all axes'] = (lambda D: D.mul(Y, list(range(n)), list(range(n))).T, lambda x: S.contract(x, y, list(range(n)), list(range(n))))
    o['mul other'] = (lambda D: D.mul(Z, n - 1, n - 1), lambda x: S.contract(x, z, [n - 1], [n - 1]))
    o['+ other DTensor'] = (lambda D: D + Z, lambda x: S.addm(x, z))
    o['+ DTensor'] = (lambda D: D + Y, lambda x: S.addm(x, y))
    o['- DTensor'] = (lambda D: D - Y, lambda x: S.sub(x, y))
    o['* DTensor'] = (lambda D: D * Y, lambda x: S.hadamard([x, y]))
    o['+ tensor'] = (lambda D: D + Y.T, lambda x: S.addm(x, y))
    o['- tensor'] = (lambda D: D - Y.T, lambda x: S.sub(x, y))
    o['* tensor'] = (lambda D: D * Y.T, lambda x: S.hadamard([x, y]))
    o['* number'] = (lambda D: D * 3.0, lambda x: S.scale(x, R(3)))
    o['* other number'] = (lambda D: D * -2.0, lambda x: S.scale(x, R(-2)))
    o['+ number'] = (lambda D: D + 0.5, lambda x: S.addm(x, np.full(shape, R(core.Fraction(1, 2)), dtype=object)))
    o['- number'] = (lambda D: D - 2.0, lambda x: S.sub(x, np.full(shape, R(2), dtype=object)))
    o['[0]'] = (lambda D: D[0], lambda x: S.A(x)[0])
    o['[-1]'] = (lambda D: D[-1], lambda x: S.A(x)[-1])
    if n > 1:
        o['[0, 1:]'] = (lambda D: D[0, 1:], lambda x: S.A(x)[0, 1:])
        o['[..., ::2]'] = (lambda D: D[..., ::2], lambda x: S.A(x)[..., ::2])
    if n == 2:
        o['kron DTensor'] = (lambda D: D.kron(Y), lambda x: S.kron([x, y]))
        o['kron other'] = (lambda D: D.kron(Z), lambda x: S.kron([x, z]))
        o['khatri other'] = (lambda D: D.khatri(Z), lambda x: S.khatri([x, z]))
        o['kron tensor'] = (lambda D: D.kron(Y.T), lambda x: S.kron([x, y]))
        o['khatri DTensor'] = (lambda D: D.khatri(Y), lambda x: S.khatri([x, y]))
        o['khatri tensor'] = (lambda D: D.khatri(Y.T), lambda x: S.khatri([x, y]))
    return o


def c08(H, shape, kind, pairs):
    y, z = H.arr('y', shape), H.arr('z', shape)
    yr, zr = core.obj(y), core.obj(z)
    x = H.arr('x', shape)
    xr = core.obj(x)

    def new(a):
        return DTensor(a) if kind == 'array' else DTensor(H.tensor_of(a))
    Y, Z = new(y), new(z)
    o = dt_ops(H, shape, xr, Y, yr, yr, Z, zr)
    names = list(o)
    fetch, want, label = [], [], []
    H.ok('there are operations', 8 < len(names) <= 36)
    for a, b in pairs:
        if a >= len(names) or b >= len(names):
            continue
        D = new(x)
        H.ok('shape of a new DTensor', list(D.shape) == list(shape) and D.get_shape().as_list() == list(shape))
        for step, k in enumerate((a, b, a)):
            r = o[names[k]][0](D)
            v = o[names[k]][1](xr)
            lab = '%s' % ' then '.join(names[q] for q in (a, b, a)[:step + 1])
            if isinstance(r, DTensor):
                H.ok('%s: the result\'s shape attribute' % lab, list(r.shape) == list(np.shape(v)))
            fetch.append(r.T if isinstance(r, DTensor) else r)
            want.append(v)
            label.append(lab)
        fetch.append(D.T)
        want.append(xr)
        label.append('%s, %s: the tensor itself' % (names[a], names[b]))
    for l, v, w in zip(label, H.run(fetch), want):
        H.eq(l, v, w)


def c08_fold(H, shape):
    x = H.arr('x', shape)
    D = DTensor(H.tensor_of(x))
    outs = [DTensor.fold(D.unfold(m).T, m, shape).T for m in range(len(shape))]
    for m, v in enumerate(H.run(outs)):
        H.eq('DTensor.fold(unfold(%d))' % m, v, core.obj(x))
    chain = [D.unfold(m).unfold(1).unfold(0).T for m in range(len(shape))]
    for m, v in enumerate(H.run(chain)):
        H.eq('unfold of an unfolding', v, S.unfold(S.unfold(S.unfold(core.obj(x), m), 1), 0))
    for m in range(len(shape)):
        e = eval_(H, D.unfold(m))
        H.eq('eval of unfold(%d)' % m, e, S.unfold(core.obj(x), m))


def eval_(H, D):
    if H.mode == 'real':
        with tf1.Session() as s:
            v = D.eval(feed_dict=H.feeds, session=s)
    else:
        with tf1.Session() as s:
            v = D.eval(session=s)
    from vlib.harness import to_obj
    v = to_obj(v)
    H.observe(v)
    return v


@prop('C08', 'orders 1..4, dimensions 1..4; every ordered pair of the up to 34 calls followed by the first one again, on one object, '
      'built from a tensor and from an array', 'histories of more than three operations', [REAL])
def c08_cases(tier):
    cs = []
    for s in [(3,), (2, 2), (3, 2), (2, 3, 2), (2, 2, 2), (2, 1, 3, 2)] + ([(4, 3), (3, 2, 4), (2, 2, 2, 2, 2)] if tier != 'quick' else []):
        for kind in ('tensor', 'array'):
            if s in ((3,), (2, 1, 3, 2)) and kind == 'array' and tier == 'quick':
                continue
            n = 36
            pairs = [(a, b) for a in range(n) for b in range(n)]
            chunk = 140
            for k in range(0, len(pairs), chunk):
                cs.append(Case('DTensor %s from %s part %d' % (sh(s), kind, k // chunk), c08, dict(shape=s, kind=kind, pairs=pairs[k:k + chunk]), timeout=200))
    for s in [(2, 3), (2, 3, 2), (3, 2, 4), (2, 2, 1, 3)]:
        cs.append(Case('DTensor fold and eval %s' % sh(s), c08_fold, dict(shape=s)))
    return cs


# ---------------------------------------------------------------- C09
def c09(H, shape, zeros, dtype):
    X, Y = H.tensor('x', shape, dtype, zeros=zeros), H.tensor('y', shape, dtype)
    outs = [X, Y, loss.l2(X, Y), loss.l2(Y, X), loss.rmse(X, Y), loss.rmse(Y, X), loss.l2(X, X), loss.rmse(Y, Y)]
    x, y, a, a2, b, b2, z, z2 = H.run(outs)
    n = S.prod(shape)
    d = S.sumsq(S.sub(x, y))
    H.eq('l2 = half the squared distance', a, d * core.div(R(1), R(2)))
    H.eq('l2 is symmetric', a2, a)
    H.ok('rmse >= 0', core.lift(b) >= 0)
    H.eq('rmse^2 * count = squared distance', core.lift(b) * core.lift(b) * n, d)
    H.eq('rmse is symmetric', b2, b)
    H.eq('l2(X, X) = 0', z, R(0))
    H.eq('rmse(X, X) = 0', z2, R(0))


def c09_zero(H, shape, zeros, dtype):
    """Elements that are zero in the reference are ignored - whatever the other tensor holds there."""
    X, Y = H.tensor('x', shape, dtype, zeros=zeros), H.tensor('y', shape, dtype)
    t = loss.rmse_ignore_zero(X, Y)
    x, y = H.run([X, Y])
    xs, ys = S.A(x), S.A(y)
    cnt = core.rsum([core.ite(u != 0, R(1), R(0)) for u in xs.flat])
    if isinstance(cnt, R) and cnt.e is None and cnt.c == 0:
        return H.ok('not applicable', True)
    H.assume(cnt != 0)
    v = core.lift(H.run(t))
    num = core.rsum([core.ite(u != 0, (u - w) * (u - w), R(0)) for u, w in zip(xs.flat, ys.flat)])
    H.ok('rmse_ignore_zero >= 0', v >= 0)
    name = 'rmse_ignore_zero^2 * (number of nonzeros) = squared distance over the nonzeros'
    if not H.sym:
        return H.eq(name, v * v * cnt, num, tol=1e-5)
    # one query per pattern of zeros
    free = [u.e for u in xs.flat if isinstance(u, R) and u.e is not None]
    for bits in itertools.product((False, True), repeat=len(free)):
        if any(bits):
            H.eq(name, v * v * cnt, num, assume=[(u != 0) if b else (u == 0) for u, b in zip(free, bits)])


def c09_err(H, s1, s2):
    X, Y = H.tensor('x', s1), H.tensor('y', s2)
    for f in (loss.rmse, loss.rmse_ignore_zero):
        H.raises('%s of different shapes' % f.__name__, TensorErr, lambda: f(X, Y))
        H.raises('%s of different shapes' % f.__name__, TensorErr, lambda: f(Y, X))


@prop('C09', 'orders 0..4, up to 12 elements, any pattern of zeros (symbolic values, stored zeros)', 'tensors with no nonzero element for '
      'rmse_ignore_zero (0/0)', [REAL])
def c09_cases(tier):
    cs = []
    for i, s in enumerate([(3,), (2, 2), (2, 3), (2, 1, 2), (2, 3, 2), (1, 2, 1, 2)] + ([(3, 4), (3, 3, 2)] if tier != 'quick' else [])):
        cs.append(Case('l2 and rmse %s' % sh(s), c09, dict(shape=s, zeros=(), dtype=('float64', 'float32')[i % 2])))
    for i, s in enumerate([(2,), (2, 2), (2, 3), (2, 1, 2), (2, 2, 2)] + ([(3, 3)] if tier != 'quick' else [])):
        cs.append(Case('rmse_ignore_zero %s' % sh(s), c09_zero, dict(shape=s, zeros=(), dtype='float64'), timeout=200))
        first = tuple(0 for _ in s)
        last = tuple(d - 1 for d in s)
        cs.append(Case('rmse_ignore_zero %s stored zeros' % sh(s), c09_zero, dict(shape=s, zeros=(first,), dtype='float32'), timeout=200))
        if S.prod(s) > 2:
            cs.append(Case('rmse_ignore_zero %s two stored zeros' % sh(s), c09_zero, dict(shape=s, zeros=(first, last), dtype='float64'), timeout=200))
    for a, b in [((2, 3), (3, 2)), ((2, 2), (4,)), ((2, 3, 2), (2, 3)), ((2, 3, 2), (2, 2, 3)), ((1, 2), (2, 1))]:
        cs.append(Case('shape error %s against %s' % (sh(a), sh(b)), c09_err, dict(s1=a, s2=b)))
    return cs
