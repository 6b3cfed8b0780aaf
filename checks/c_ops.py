"""Tensor operations (base/ops.py): layout, contraction, products and their identities."""
import itertools

from vlib.boot import np, tf1
from vlib import core, spec as S, tfsem
from vlib.core import R
from vlib.harness import Case

import tensorD.base.ops as ops
from tensorD.base import KTensor, TTensor

from checks.common import REAL, registry, sh

PROPS, prop = registry()
DTS = ['float64', 'float32', 'int32']


def same_static(H, name, t, shape):
    H.ok('%s: static shape %s' % (name, list(shape)), t.get_shape().is_fully_defined() and t.get_shape().as_list() == list(shape))


# ---------------------------------------------------------------- C01
SHAPES1 = [(1,), (5,), (2, 3), (3, 2), (1, 4), (2, 2, 2), (2, 3, 4), (3, 4, 2), (4, 2, 3), (1, 3, 2), (3, 1, 2), (3, 3, 2),
           (2, 3, 2, 2), (2, 3, 4, 5), (3, 2, 2, 4), (1, 2, 1, 3), (2, 2, 2, 2, 2), (2, 3, 2, 1, 3), (2, 1, 2, 3, 1, 2), (13, 2, 3),
           (2, 17), (16, 5)]
SHAPES1T = SHAPES1 + [(3, 4, 5, 2), (2, 2, 3, 2, 2), (2, 3, 2, 2, 2, 2), (1, 2, 2, 1, 2, 2, 2), (2, 1, 2, 1, 2, 1, 2, 2), (5, 4, 3),
                      (7, 6, 5), (12, 3, 4), (64, 3), (3, 130)]


def c01_unfold(H, shape, dtype):
    T = H.tensor('x', shape, dtype)
    us = [ops.unfold(T, m) for m in range(len(shape))] + [ops.unfold(T)]
    backs = [ops.fold(ops.unfold(T, m), m, shape) for m in range(len(shape))]
    a = S.A(H.run(T))
    res = H.run([us, backs])
    for m, t in enumerate(us):
        mode = m if m < len(shape) else 0
        H.eq('unfold mode %d' % m, res[0][m], S.unfold(a, mode))
        H.ok('unfold keeps the element type', t.dtype == T.dtype)
        same_static(H, 'unfold', t, (shape[mode], S.prod(shape) // shape[mode]))
    for m, t in enumerate(backs):
        H.eq('fold(unfold(X, %d)) = X' % m, res[1][m], a)


def c01_fold(H, shape, dtype, kind):
    outs, wants = [], []
    for m in range(len(shape)):
        M = H.tensor('m%d' % m, (shape[m], S.prod(shape) // shape[m]), dtype)
        s = kind(shape)
        f = ops.fold(M, m, s)
        H.ok('fold leaves the shape argument alone', list(s) == list(shape))
        outs.append([M, f, ops.unfold(f, m)])
    for m, (M, f, u) in enumerate(H.run(outs)):
        H.eq('fold mode %d' % m, f, S.fold(S.A(M), m, shape))
        H.eq('unfold(fold(M, %d)) = M' % m, u, M)


@prop('C01', 'tensors of order 1..6 (thorough 8), dimensions 1..17 (thorough 130), every mode; element values unbounded symbolic',
      'orders above 8; tensors with unknown static shape', [REAL])
def c01(tier):
    shapes = SHAPES1 if tier == 'quick' else SHAPES1T
    cs = []
    for i, s in enumerate(shapes):
        cs.append(Case('unfold %s' % sh(s), c01_unfold, dict(shape=s, dtype=DTS[i % 3])))
        cs.append(Case('fold %s' % sh(s), c01_fold, dict(shape=s, dtype=DTS[(i + 1) % 3], kind=(tuple, list)[i % 2])))
    return cs


# ---------------------------------------------------------------- C02
def c02_t2mat(H, shape, combos, dtype):
    T = H.tensor('x', shape, dtype)
    n = len(shape)
    outs, wants = [], []
    for r, c in combos:
        r0 = list(r) if isinstance(r, list) else r
        c0 = list(c) if isinstance(c, list) else c
        t = ops.t2mat(T, r, c)
        H.ok('t2mat(%s, %s) leaves its arguments alone' % (r0, c0), r == r0 and c == c0)
        rr = [r0] if isinstance(r0, int) else r0
        cc = [i for i in range(n) if i not in rr] if isinstance(c0, int) and c0 == -1 else [c0] if isinstance(c0, int) else c0
        outs.append(t)
        wants.append((r0, c0, rr, cc))
    a = S.A(H.run(T))
    for t, v, (r0, c0, rr, cc) in zip(outs, H.run(outs), wants):
        H.eq('t2mat(%s, %s)' % (r0, c0), v, S.t2mat(a, rr, cc))
        H.ok('t2mat keeps the element type', t.dtype == T.dtype)


def c02_vec(H, shape, dtype):
    T = H.tensor('x', shape, dtype)
    v = ops.vectorize(T)
    w = H.tensor('v', (S.prod(shape),), dtype)
    s = list(shape)
    b, u = ops.vec_to_tensor(v, s), ops.vec_to_tensor(w, tuple(shape))
    H.ok('vec_to_tensor leaves its arguments alone', s == list(shape))
    a, wv = H.run([T, w])
    vv, bb, uu = H.run([v, b, u])
    a = S.A(a)
    H.eq('vectorize is row-major', vv, np.array([a[i] for i in np.ndindex(*shape)], dtype=object))
    H.eq('vec_to_tensor(vectorize(X)) = X', bb, a)
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = S.A(wv)[S.row_major(i, shape)]
    H.eq('vec_to_tensor is row-major', uu, want)


def combos_for(n):
    out = []
    for p in itertools.permutations(range(n)):
        for k in range(1, n):
            r, c = list(p[:k]), list(p[k:])
            out.append((r, c))
            if len(r) == 1:
                out.append((r[0], list(c)))
            if len(c) == 1:
                out.append((list(r), c[0]))
            if len(r) == 1 and len(c) == 1:
                out.append((r[0], c[0]))
            if c == sorted(c):
                out.append((list(r), -1))
                if len(r) == 1:
                    out.append((r[0], -1))
    return out


@prop('C02', 'orders 2..4 with every split and ordering of the axes (order 5: a fixed selection), int/list/-1 forms; dimensions 1..5',
      'negative axes other than -1 for c_axis; axes left out of both lists', [REAL])
def c02(tier):
    cs = []
    for i, s in enumerate([(2, 3), (3, 1), (2, 3, 4), (3, 2, 2), (2, 2, 2), (4, 1, 3), (5, 2, 3)] + ([(4, 5, 3), (3, 3, 3)] if tier != 'quick' else [])):
        cs.append(Case('t2mat %s' % sh(s), c02_t2mat, dict(shape=s, combos=combos_for(len(s)), dtype=DTS[i % 3])))
    c4 = combos_for(4)
    for s in [(2, 3, 2, 2), (2, 1, 3, 4)]:
        for k in range(0, len(c4), 40):
            cs.append(Case('t2mat %s part %d' % (sh(s), k), c02_t2mat, dict(shape=s, combos=c4[k:k + 40], dtype='float64')))
    c5 = combos_for(5)
    st = 97 if tier == 'quick' else 11
    cs.append(Case('t2mat order 5', c02_t2mat, dict(shape=(2, 3, 2, 1, 2), combos=c5[::st], dtype='float32'), timeout=300))
    for i, s in enumerate([(1,), (6,), (2, 3), (2, 3, 4), (2, 1, 2, 3), (2, 2, 2, 2, 2)]):
        cs.append(Case('vectorize %s' % sh(s), c02_vec, dict(shape=s, dtype=DTS[i % 3])))
    return cs


# ---------------------------------------------------------------- C03
def c03_mul(H, sa, sb, ax, bx, dtype='float64'):
    X, Y = H.tensor('a', sa, dtype), H.tensor('b', sb, dtype)
    a0 = list(ax) if not isinstance(ax, int) else ax
    b0 = list(bx) if not isinstance(bx, int) else bx
    t = ops.mul(X, Y, ax, bx)
    H.ok('mul leaves its axis arguments alone', (list(ax) if not isinstance(ax, int) else ax) == a0 and
         (list(bx) if not isinstance(bx, int) else bx) == b0)
    a, b = H.run([X, Y])
    al = [ax] if isinstance(ax, int) else list(ax)
    bl = [bx] if isinstance(bx, int) else list(bx)
    H.eq('mul(%s, %s)' % (ax, bx), H.run(t), S.contract(a, b, al, bl))
    H.ok('mul keeps the element type', t.dtype == X.dtype)


@prop('C03', 'orders 1..5, dimensions 1..4, one to four contracted axes in any order, given as int, list or tuple',
      'contractions of more than 4 axes', [REAL])
def c03(tier):
    cs = []

    def add(sa, sb, ax, bx, dtype='float64'):
        cs.append(Case('mul %s.%s %s %s' % (sh(sa), sh(sb), ax, bx), c03_mul, dict(sa=sa, sb=sb, ax=ax, bx=bx, dtype=dtype)))
    add((2, 3), (3, 4), 1, 0)
    add((2, 3), (4, 2), 0, 1)
    add((3, 3), (3, 3), 0, 0)
    add((3, 3), (3, 3), 1, 1, 'float32')
    add((3, 3), (3, 3), [0, 1], [1, 0])
    add((2, 3, 2), (2, 2, 3), (0, 1), (1, 2))
    add((2, 3, 2), (3, 2, 2), [1, 0], [0, 2])
    add((2, 3, 2), (3, 2, 2), (0, 1, 2), (1, 0, 2))
    add((2, 3, 2), (2, 3, 2), [0, 1, 2], [0, 1, 2])
    add((2, 3, 2), (2, 3, 2), [2, 1], [0, 1])
    add((2, 3, 2), (2, 3, 2), [0], [2])
    add((4,), (4,), 0, 0)
    add((2, 4, 3), (4,), 1, 0)
    add((2, 3, 1, 2), (3, 2, 2), [3, 1], [1, 0])
    add((2, 3, 2, 1, 2), (1, 2, 3, 1, 2), [0, 1], [1, 2])
    add((2, 3, 2, 2, 1), (1, 2, 3, 2, 2), [0, 1, 3], [1, 2, 3])
    add((2, 2, 2, 2), (2, 2, 2, 2), [3, 0, 2, 1], [1, 2, 0, 3])
    add((2, 2, 2), (2, 2, 2), (2, 0), [1, 0])
    if tier != 'quick':
        for k in (1, 2, 3):
            for ax in itertools.permutations(range(3), k):
                for bx in itertools.permutations(range(3), k):
                    add((2, 2, 2), (2, 2, 2), list(ax), tuple(bx))
        for ax in itertools.permutations(range(4), 2):
            add((2, 3, 2, 3), (3, 3, 2, 2), list(ax), [p for p in itertools.permutations(range(4), 2)
                                                       if [(3, 3, 2, 2)[i] for i in p] == [(2, 3, 2, 3)[i] for i in ax]][0])
    return cs


# ---------------------------------------------------------------- C04
def c04_ttm(H, shape, rows, runs):
    """rows[i]: the new size of mode i; runs: (kwargs, axes of the matrices given, transpose)."""
    T = H.tensor('x', shape)
    mats = [H.tensor('u%d' % i, (rows[i], shape[i])) for i in range(len(shape))]
    matsT = [H.tensor('w%d' % i, (shape[i], rows[i])) for i in range(len(shape))]
    a, ms, mt = H.run([T, mats, matsT])
    outs = []
    for given, kw, effective in runs:
        src = matsT if kw.get('transpose') else mats
        arg = [src[i] for i in given] if not isinstance(given, int) else src[given]
        n0 = len(arg) if isinstance(arg, list) else None
        kw2 = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
        t = ops.ttm(T, arg, **kw2)
        H.ok('ttm leaves its arguments alone', (n0 is None or len(arg) == n0) and all(kw2[k] == kw[k] for k in kw))
        outs.append(t)
    vals = H.run(outs)
    for (given, kw, eff), v in zip(runs, vals):
        sv = mt if kw.get('transpose') else ms
        want = S.ttm(a, [sv[m] for m, ax in eff], [ax for m, ax in eff], bool(kw.get('transpose')))
        H.eq('ttm %s %s' % (given, kw), v, want)


def c04_errors(H):
    T = H.tensor('x', (2, 3))
    M = [H.tensor('u', (2, 2)), H.tensor('v', (2, 3))]
    H.raises('axis together with skip_matrices_index', ValueError, lambda: ops.ttm(T, M, axis=[0, 1], skip_matrices_index=0))
    H.raises('axis together with skip_matrices_index', ValueError, lambda: ops.ttm(T, M, axis=[0], skip_matrices_index=[0]))
    H.raises('axis together with skip_matrices_index', ValueError, lambda: ops.ttm(T, M, axis=[1, 0], transpose=True, skip_matrices_index=1))


def ttm_runs(n, tier):
    allm = list(range(n))
    runs = [(allm, {}, [(i, i) for i in allm]), (allm, dict(transpose=True), [(i, i) for i in allm])]
    for k in range(1, n):
        runs.append((allm[:k], {}, [(i, i) for i in allm[:k]]))
        runs.append((allm[:k], dict(transpose=True), [(i, i) for i in allm[:k]]))
    for k in range(1, n + 1):
        for p in itertools.permutations(range(n), k):
            if k == n and n > 3 and p[0] > 1:
                continue
            p = list(p)
            runs.append((p, dict(axis=p), [(i, i) for i in p]))
            if sum(p) % 2:
                runs.append((p, dict(axis=p, transpose=True), [(i, i) for i in p]))
    for s in range(n if n > 1 else 0):
        runs.append((allm, dict(skip_matrices_index=s), [(i, i) for i in allm if i != s]))
        runs.append((allm, dict(skip_matrices_index=s, transpose=True), [(i, i) for i in allm if i != s]))
    for k in range(1, n):
        for ss in itertools.combinations(range(n), k):
            runs.append((allm, dict(skip_matrices_index=list(ss)), [(i, i) for i in allm if i not in ss]))
            runs.append((allm, dict(skip_matrices_index=list(ss)[::-1], transpose=True), [(i, i) for i in allm if i not in ss]))
    runs.append((0, {}, [(0, 0)]))
    runs.append((n - 1, dict(axis=[n - 1]), [(n - 1, n - 1)]))
    if n > 2:
        runs.append((allm[:2], dict(skip_matrices_index=0), [(1, 1)]))
        runs.append((allm[:2], dict(skip_matrices_index=[1], transpose=True), [(0, 0)]))
    return runs


@prop('C04', 'orders 1..5, dimensions 1..4, every axis order and every subset of skipped matrices up to order 3 (order 4 and 5: a selection), '
      'transposed and not, all modes of different and of equal size', 'orders above 5', [REAL])
def c04(tier):
    cs = [Case('ttm argument errors', c04_errors)]
    for shape, rows in [((2, 3), (3, 2)), ((2, 2), (2, 2)), ((2, 3, 2), (3, 1, 4)), ((2, 2, 2), (2, 2, 2)), ((3, 1, 2), (2, 2, 1)), ((4,), (3,))]:
        rs = ttm_runs(len(shape), tier)
        for k in range(0, len(rs), 16):
            cs.append(Case('ttm %s->%s part %d' % (sh(shape), sh(rows), k), c04_ttm, dict(shape=shape, rows=rows, runs=rs[k:k + 16]), timeout=200))
    rs = ttm_runs(4, tier)
    step = 5 if tier == 'quick' else 1
    rs4 = rs[::step]
    for k in range(0, len(rs4), 6):
        cs.append(Case('ttm order 4 part %d' % k, c04_ttm, dict(shape=(2, 1, 2, 2), rows=(1, 2, 2, 1), runs=rs4[k:k + 6]), timeout=250))
    a5 = list(range(5))
    rs5 = [(a5, {}, [(i, i) for i in a5]), (a5, dict(skip_matrices_index=3, transpose=True), [(i, i) for i in a5 if i != 3]),
           ([4, 0, 2], dict(axis=[4, 0, 2]), [(4, 4), (0, 0), (2, 2)])]
    cs.append(Case('ttm order 5', c04_ttm, dict(shape=(2, 1, 2, 1, 2), rows=(1, 2, 1, 2, 1), runs=rs5), timeout=250))
    return cs


# ---------------------------------------------------------------- C05
def skips(n):
    out = [None]
    for s in range(n):
        if n > 1:
            out.append(s)
    for k in range(1, n):
        for ss in itertools.combinations(range(n), k):
            out.append(list(ss))
    return out


def c05_products(H, op, shapes, dtype='float64'):
    n = len(shapes)
    mats = [H.tensor('m%d' % i, s, dtype) for i, s in enumerate(shapes)]
    outs, info = [], []
    for s in skips(n):
        for rev in ((False, True) if op != 'hadamard' else (False,)):
            arg = list(mats)
            s0 = list(s) if isinstance(s, list) else s
            kw = {} if op == 'hadamard' else dict(reverse=rev)
            t = getattr(ops, op)(arg, s, **kw) if s is not None else getattr(ops, op)(arg, **kw)
            H.ok('%s leaves its arguments alone' % op, s == s0 and len(arg) == n and all(x is y for x, y in zip(arg, mats)))
            outs.append(t)
            info.append((s0, rev))
    vals, outv = H.run([mats, outs])
    for (s, rev), v in zip(info, outv):
        ms = S.skip(vals, s)
        if rev:
            ms = ms[::-1]
        want = getattr(S, op)([S.A(m) for m in ms])
        H.eq('%s skip=%s reverse=%s' % (op, s, rev), v, want)


def c05_inner(H, shape, other):
    X, Y = H.tensor('a', shape), H.tensor('b', shape)
    a, b, v = H.run([X, Y, ops.inner(X, Y)])
    H.eq('inner', v, S.inner(a, b))
    Z = H.tensor('c', other)
    H.raises('inner of different shapes', ValueError, lambda: ops.inner(X, Z))
    H.raises('inner of different shapes', ValueError, lambda: ops.inner(Z, X))


def c05_xcb(H, shape, rank, zeros=()):
    X = H.tensor('x', shape, zeros=zeros)
    C, Bm = H.tensor('c', (shape[2], rank)), H.tensor('b', (shape[1], rank))
    x, c, b, v = H.run([X, C, Bm, ops.xcb(X, C, Bm)])
    x, c, b = S.A(x), S.A(c), S.A(b)
    want = np.empty((shape[0], rank), dtype=object)
    for i in range(shape[0]):
        for r in range(rank):
            want[i, r] = core.rsum([x[i, j, k] * b[j, r] * c[k, r] for j in range(shape[1]) for k in range(shape[2])])
    H.eq('xcb = X_(1) (C khatri B)', v, want)


def c05_maxsv(H, shapes, s):
    mats = [H.tensor('m%d' % i, x) for i, x in enumerate(shapes)]
    v, ms = H.run([ops.max_single_value_mul(mats, s), mats])
    want = R(1)
    for m in S.skip(ms, s):
        want = want * S.sigma_max(m)
    H.eq('product of the largest singular values', v, want)


@prop('C05', '1 to 4 matrices of sizes 1..4 (rows 1..13), every subset skipped as int or list, both orders; tensors of order 1..4 for inner; '
      'order 3, dimensions 1..3, rank 1..3 for xcb; singular values by contract (deterministic function of the Gram matrix)',
      'more than 4 matrices', [REAL, 'tf.svd returns singular values in descending order'])
def c05(tier):
    cs = []
    for sz in [[(2, 3)], [(2, 3)] * 2, [(1, 3)] * 3, [(2, 2)] * 4, [(3, 1)] * 3]:
        cs.append(Case('hadamard %s' % '.'.join(map(sh, sz)), c05_products, dict(op='hadamard', shapes=sz)))
    for sz in [[(2, 3)], [(2, 3), (3, 2)], [(2, 1), (1, 3), (3, 2)], [(2, 2)] * 3, [(1, 2), (2, 1), (2, 2), (1, 1)], [(13, 1), (2, 2)], [(2, 2), (1, 12)]]:
        cs.append(Case('kron %s' % '.'.join(map(sh, sz)), c05_products, dict(op='kron', shapes=sz)))
    for sz in [[(2, 3)], [(2, 3), (3, 3)], [(2, 2), (1, 2), (3, 2)], [(2, 2)] * 3, [(1, 2), (2, 2), (3, 2), (2, 2)], [(2, 1)] * 3, [(13, 2), (2, 2)]]:
        cs.append(Case('khatri %s' % '.'.join(map(sh, sz)), c05_products, dict(op='khatri', shapes=sz)))
    for s, o in [((3,), (2,)), ((2, 3), (3, 2)), ((2, 3, 2), (2, 2, 3)), ((2, 1, 2, 2), (2, 1, 2, 1)), ((2, 3), (6,)), ((1, 4), (1, 4, 1))]:
        cs.append(Case('inner %s against %s' % (sh(s), sh(o)), c05_inner, dict(shape=s, other=o)))
    for s, r in [((2, 3, 2), 2), ((1, 2, 3), 3), ((3, 2, 2), 1), ((2, 2, 2), 2)]:
        cs.append(Case('xcb %s rank %d' % (sh(s), r), c05_xcb, dict(shape=s, rank=r)))
    cs.append(Case('xcb with stored zeros', c05_xcb, dict(shape=(2, 2, 3), rank=2, zeros=[(0, 0, 0), (1, 1, 2), (0, 1, 1)])))
    for sz in [[(2, 2)], [(2, 2), (2, 2)], [(1, 3), (2, 1), (2, 2)], [(3, 2), (2, 3)]]:
        for s in skips(len(sz)):
            cs.append(Case('max_single_value_mul %s skip %s' % ('.'.join(map(sh, sz)), s), c05_maxsv, dict(shapes=sz, s=s)))
    return cs


# ---------------------------------------------------------------- C10
def c10_kruskal(H, shape, rank, weighted):
    U = [H.tensor('u%d' % i, (d, rank)) for i, d in enumerate(shape)]
    lam = H.tensor('l', (rank, 1)) if weighted else None
    P = KTensor(U, lam) if weighted else KTensor(U)
    full = P.extract()
    outs = []
    for n in range(len(shape)):
        left = U[n] * tf1.transpose(lam) if weighted else U[n]
        kr = ops.khatri(U, n, True)
        outs.append([ops.unfold(full, n), tf1.matmul(left, kr, transpose_b=True),
                     tf1.matmul(kr, kr, transpose_a=True), ops.hadamard([tf1.matmul(u, u, transpose_a=True) for u in U], n)])
    for n, (a, b, g, h) in enumerate(H.run(outs)):
        H.eq('unfold_%d(Kruskal) = U_n diag(l) khatri(others, reversed)^T' % n, a, b)
        H.eq('Gram of khatri = Hadamard of Grams, mode %d' % n, g, h)


def c10_tucker(H, shape, ranks):
    g = H.tensor('g', ranks)
    U = [H.tensor('u%d' % i, (d, r)) for i, (d, r) in enumerate(zip(shape, ranks))]
    full = TTensor(g, U).extract()
    outs = []
    for n in range(len(shape)):
        kr = ops.kron(U, n, True)
        outs.append([ops.unfold(full, n), tf1.matmul(tf1.matmul(U[n], ops.unfold(g, n)), kr, transpose_b=True),
                     ops.unfold(ops.ttm(g, U, skip_matrices_index=n), n), tf1.matmul(ops.unfold(g, n), kr, transpose_b=True)])
    for n, (a, b, c, d) in enumerate(H.run(outs)):
        H.eq('unfold_%d(Tucker) = U_n G_(n) kron(others, reversed)^T' % n, a, b)
        H.eq('unfold_%d(G x others) = G_(n) kron(others, reversed)^T' % n, c, d)


def c10_seq(H, shape, rows):
    """ttm is the composition of single mode products, each a contraction, and unfold turns it into a matrix product."""
    T = H.tensor('x', shape)
    U = [H.tensor('u%d' % i, (r, d)) for i, (d, r) in enumerate(zip(shape, rows))]
    step = T
    for i in range(len(shape)):
        step = ops.ttm(step, [U[i]], axis=[i])
    outs = [ops.ttm(T, U), step]
    one = [[ops.unfold(ops.ttm(T, [U[i]], axis=[i]), i), tf1.matmul(U[i], ops.unfold(T, i)),
            ops.t2mat(ops.mul(U[i], T, 1, i), 0, -1), ops.t2mat(ops.ttm(T, [U[i]], axis=[i]), i, -1)] for i in range(len(shape))]
    (a, b), rest = H.run([outs, one])
    H.eq('ttm = one mode product after another', a, b)
    for i, (c, d, e, f) in enumerate(rest):
        H.eq('unfold_%d(X x U) = U X_(n)' % i, c, d)
        H.eq('contraction agrees with the mode product, mode %d' % i, e, f)


@prop('C10', 'orders 2..4, dimensions 1..4, ranks 1..3, every mode', 'orders above 4', [REAL])
def c10(tier):
    cs = []
    for s, r in [((2, 3), 2), ((2, 3, 2), 2), ((3, 2, 4), 1), ((2, 2, 2), 3), ((1, 3, 2), 2), ((2, 2, 1, 2), 2), ((2, 3, 2, 2), 1)]:
        for w in (False, True):
            cs.append(Case('Kruskal %s rank %d weights %s' % (sh(s), r, w), c10_kruskal, dict(shape=s, rank=r, weighted=w)))
    for s, r in [((2, 3), (2, 1)), ((2, 3, 2), (2, 2, 1)), ((3, 2, 2), (1, 2, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 1, 2, 2), (1, 2, 1, 2))]:
        cs.append(Case('Tucker %s core %s' % (sh(s), sh(r)), c10_tucker, dict(shape=s, ranks=r)))
    for s, r in [((2, 3), (3, 2)), ((2, 3, 2), (1, 2, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 1, 2, 2), (2, 1, 1, 2))]:
        cs.append(Case('mode products %s->%s' % (sh(s), sh(r)), c10_seq, dict(shape=s, rows=r), timeout=200))
    return cs
