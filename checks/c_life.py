"""Several models in one process, written summaries, and what happens to the arguments."""
import os
import shutil
import tempfile
import weakref

from vlib.boot import np, tf1
from vlib import core, npsym, session, spec as S
from vlib.core import R, lift, obj
from vlib.harness import Case, to_obj
from vlib.session import CONF
from checks.common import REAL, registry, sh
from checks.c_models import CLS, NEVER, Provider, Pub, Steer, data, long_cases, names, train, H_tol
from checks.c_pitf import scratch, concrete_draws, NPM

import tensorD.loss as loss
from tensorD.base import ops, pitf_ops, pitf_ops_numpy, DTensor, KTensor, TTensor
from tensorD.dataproc.reader import TensorReader
from tensorD.demo import DataGenerator
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.env import Environment
from tensorD.factorization.ncp import NCP_BCU
from tensorD.factorization.ntucker import NTUCKER_BCU
from tensorD.factorization import pitf_numpy
from tensorD.factorization.pitf import PITF
from tensorD.factorization.tucker import HOSVD, HOOI

PROPS, prop = registry()
ARGS = dict(CP=CP_ALS.CP_Args, NCP=NCP_BCU.NCP_Args, NTUCKER=NTUCKER_BCU.NTUCKER_Args, HOOI=HOOI.HOOI_Args, HOSVD=HOSVD.HOSVD_Args,
            PITF=PITF.PITF_Args)


def make_args(algo, rank, vint=-1, verbose=False, tol=NEVER):
    if algo == 'PITF':
        return PITF.PITF_Args(1, 0.5, 0.01, rank, validation_internal=vint)
    r = rank if algo in ('CP', 'NCP') else list(rank)
    return ARGS[algo](r) if algo == 'HOSVD' else ARGS[algo](r, tol=tol, validation_internal=vint, verbose=verbose)


# ---------------------------------------------------------------- C29
class Owner:
    """Names the random values of a model by the model and the position of the operation in its part of the graph."""

    def __init__(self):
        self.of = weakref.WeakKeyDictionary()
        CONF.rnd_name = self.name

    def build(self, model, args, label):
        g = tf1.get_default_graph()
        d = self.of.setdefault(g, {})
        before = set(o.name for o in g.get_operations())
        model.build_model(args)
        k = 0
        for o in g.get_operations():
            if o.name not in before and o.type in session.RANDOM:
                d[o.name] = '%s:%d' % (label, k)
                k += 1

    def name(self, o, n):
        x = self.of.get(o.graph, {}).get(o.name)
        return None if x is None else 'rnd:%s:%d' % (x, n)


class PubPITF:
    def __init__(self, y):
        self.y = to_obj(y)

    def everything(self):
        return [self.y]

    def finite(self):
        return all(np.isfinite(float(x.c)) for x in np.asarray(self.y).flat if isinstance(x, R) and x.e is None)

    hist = None


def fit(H, algo, m, K):
    if algo == 'PITF':
        m.train(K)
        return PubPITF(m._sample_vector)
    return train(H, algo, m, K)


def again(algo, m, p):
    """What the model publishes now."""
    return PubPITF(m._sample_vector) if algo == 'PITF' else Pub(None, algo, m, None)


def same(H, what, p, q):
    if not H.sym and not (p.finite() and q.finite()):
        return
    for i, (a, b) in enumerate(zip(p.everything(), q.everything())):
        H.eq('%s: result %d' % (what, i), a, b, tol=2e-3)
    if p.hist is not None and q.hist is not None:
        H.ok('%s: length of the history' % what, len(p.hist) == len(q.hist))
        if len(p.hist) == len(q.hist) and (H.sym or all(float(r[1].c) > 1e-3 for r in q.hist)):
            H.eq('%s: history' % what, p.rows(), q.rows(), tol=2e-3)


def c29(H, one, two, how, K=2):
    """Two models (algorithm, data shape, rank): in graphs of their own, in one graph, or one model object that is built twice."""
    with scratch():
        if 'PITF' in (one[0], two[0]):
            concrete_draws(H)
        own = Owner()
        cfg = dict(a=one, b=two)
        X = {}
        for k, (algo, shape) in [(k, v[:2]) for k, v in cfg.items()]:
            if how == 'rebuilt' or how == 'shared environment':
                X[k] = X.get('a')
            if X.get(k) is None:
                X[k] = H.arr('x' + k, shape, 'float64', lo=1 if algo == 'PITF' else None, hi=4 if algo == 'PITF' else None)

        def provide(k):
            x = X[k]
            if cfg[k][0] == 'PITF':         # the recovery takes its data as a tensor of the graph it is built in
                x = H.tensor_of(x, 'float32')
            return Environment(Provider(x), summary_path='unused')

        def new(k, env=None):
            algo, shape, rank = cfg[k][:3]
            m = CLS.get(algo, PITF)(env or provide(k))
            own.build(m, make_args(algo, rank, **(cfg[k][3] if len(cfg[k]) > 3 else {})), k)
            return m
        alone = {}
        for k in cfg:
            with tf1.Graph().as_default():
                m = new(k)
                alone[k] = fit(H, cfg[k][0], m, K)
                if not H.sym and not alone[k].finite():
                    return
        H.observe([alone['a'].everything()[-1]])
        if how == 'rebuilt':
            with tf1.Graph().as_default():
                m = new('a')
                same(H, 'first build', fit(H, cfg['a'][0], m, K), alone['a'])
                own.build(m, make_args(cfg['b'][0], cfg['b'][2]), 'b')
                same(H, 'second build', fit(H, cfg['b'][0], m, K), alone['b'])
            return
        ga = tf1.Graph()
        gb = tf1.Graph() if how == 'own graphs' else ga
        with ga.as_default():
            env = provide('a')
            ma = new('a', env)
        with gb.as_default():
            mb = new('b', env if how == 'shared environment' else None)
        with ga.as_default():
            same(H, 'first model after both were built', fit(H, one[0], ma, K), alone['a'])
        with gb.as_default():
            same(H, 'second model', fit(H, two[0], mb, K), alone['b'])
        same(H, 'first model after the second was trained', again(one[0], ma, None), alone['a'])
        with ga.as_default():
            same(H, 'first model trained again', fit(H, one[0], ma, K), alone['a'])
        same(H, 'second model after the first was trained again', again(two[0], mb, None), alone['b'])


@prop('C29', 'every pair of the six models, in graphs of their own, in one graph, sharing one environment, and one model object that is built again '
      'with other ranks; orders 2..3, dimensions 1..3, 1..2 steps', 'three and more models, more steps', [REAL])
def c29_cases(tier):
    A = dict(CP=('CP', (1, 2), 1), NCP=('NCP', (1, 2), 1), HOSVD=('HOSVD', (2, 3), (1, 2)), HOOI=('HOOI', (1, 2), (1, 1)),
             NTUCKER=('NTUCKER', (1, 2), (1, 1)), PITF=('PITF', (1, 1, 2), 1))
    B = dict(CP=('CP', (2, 1), 1), NCP=('NCP', (2, 1), 1), HOSVD=('HOSVD', (1, 2), (1, 1)), HOOI=('HOOI', (2, 1), (1, 1)),
             NTUCKER=('NTUCKER', (2, 1), (1, 1)), PITF=('PITF', (1, 2, 1), 1))
    out = []
    ks = list(A)
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            for how in ('own graphs', 'one graph'):
                if tier == 'quick' and i != j and (i + j + (how == 'one graph')) % 2:
                    continue
                K = 1 if tier == 'quick' and i != j else 2
                out.append(Case('%s and %s, %s' % (a, b, how), c29, dict(one=A[a], two=B[b], how=how, K=K), timeout=300, feas=400))
    # two models of one kind on data of one shape, with other arguments
    for a in ks:
        s = (1, 1, 2) if a == 'PITF' else (2, 2) if a in ('HOOI', 'HOSVD') else (1, 2)
        r1, r2 = (1, 1) if a == 'PITF' else (1, 2) if a in ('CP', 'NCP') else ((1, 1), (2, 2)) if a != 'NTUCKER' else ((1, 1), (1, 2))
        for o, t in (((r1, dict(tol=NEVER)), (r2, dict(tol=100.0, vint=1))), ((r2, dict(tol=100.0, verbose=True)), (r1, dict(tol=NEVER)))):
            if a == 'PITF':
                o, t = (1, {}), (2, dict(vint=1))
            for how in ('own graphs', 'one graph'):
                if tier == 'quick' and (how == 'one graph') != (o[0] == r1):
                    continue
                if a == 'NTUCKER' and o[0] != r1 and tier == 'quick':
                    o, t = t, o
                out.append(Case('%s twice, %s %s and %s %s, %s' % (a, o[0], sorted(o[1]), t[0], sorted(t[1]), how), c29,
                                dict(one=(a, s) + o, two=(a, s) + t, how=how, K=2), timeout=300, feas=400))
            if a == 'PITF':
                break
    for a, c in A.items():
        if a == 'PITF':
            continue
        c2 = (c[0], c[1], c[2])
        out.append(Case('%s twice, shared environment' % a, c29, dict(one=c, two=c2, how='shared environment', K=2), timeout=300, feas=400))
        r = 2 if a in ('CP', 'NCP') else (1, 1)
        d = (a, (2, 2), 1 if a in ('CP', 'NCP') else (2, 2))
        out.append(Case('%s built again' % a, c29, dict(one=d, two=(a, (2, 2), r), how='rebuilt', K=1), timeout=300, feas=400))
    out.append(Case('CP and NCP, shared environment', c29, dict(one=A['CP'], two=A['NCP'], how='shared environment'), timeout=300, feas=400))
    return out


# ---------------------------------------------------------------- C30
def c30(H, algo, shape, rank, K, vint=-1, verbose=False, stop=False, pattern=''):
    X = data(H, shape)
    steer = Steer(H, X, pattern)
    where = 'logs-of-this-model'
    m = CLS[algo](Environment(Provider(X), summary_path=where))
    tol = (H_tol(H) if stop else NEVER)
    m.build_model(make_args(algo, rank, vint, verbose, tol))
    KK = K if H.sym else K + (4 if H.deep else 0)
    for k in ([KK] if stop else range(1, KK + 1)):
        CONF.summaries = rows = []
        p = train(H, algo, m, k)
        CONF.summaries = None
        H.observe([[v for _, v in r[2]] for r in rows])
        if not H.sym and not p.finite():
            return
        if algo == 'HOSVD':
            want, hist = [1], None
        else:
            hist = p.hist
            n = len(hist)
            want = [s for s in range(1, n + 1) if s == k or s == 1 or verbose or (vint != -1 and s % vint == 0)]
        got = [int(s) if s is not None else None for _, s, _ in rows]
        H.ok('%d steps: one summary for each of the steps %s' % (k, want), got == want)
        H.ok('%d steps: written to the path of the environment' % k, all(w == where for w, _, _ in rows))
        if got != want:
            return
        for s, (_, _, vals) in zip(want, rows):
            loss = [v for t, v in vals if t.rpartition('/')[2].startswith('loss')]
            rel = [v for t, v in vals if t.rpartition('/')[2].startswith('relative_residual')]
            H.ok('step %d: which values' % s, len(vals) == (1 if algo == 'HOSVD' else 2) and len(loss) == 1 and len(rel) == (algo != 'HOSVD'))
            if len(loss) != 1 or len(rel) != (algo != 'HOSVD'):
                return
            keep = names(*p.arrays())
            row = hist[s - 1] if hist else [S.rmse_nonzero(S.A(X), p.full)]
            H.eq('step %d: loss' % s, np.array([loss[0]], dtype=object), np.array([row[0]], dtype=object), tol=2e-3, keep=keep)
            if rel and (H.sym or float(row[1].c) > 1e-4):
                H.eq('step %d: relative residual' % s, np.array([rel[0]], dtype=object), np.array([row[1]], dtype=object), tol=2e-3, keep=keep)
        steer(k, p)


@prop('C30', 'CP, non-negative CP, HOSVD, HOOI, non-negative Tucker; orders 2..3, dimensions 1..3, up to 4 steps (10 with two histories), validation intervals -1, 1..5, '
      'verbose or not, every real tolerance', 'the printed progress lines; run metadata', [REAL])
def c30_cases(tier):
    out = []
    for a, r, r3 in (('CP', 1, 2), ('NCP', 1, 1), ('HOOI', (1, 1), (2, 1, 2)), ('NTUCKER', (1, 1), (1, 1, 2))):
        for vint, verbose, K in ((-1, False, 3), (2, False, 4), (3, False, 4), (-1, True, 3), (1, False, 2)):
            out.append(Case('%s 1x2, interval %d%s' % (a, vint, ', verbose' if verbose else ''), c30,
                            dict(algo=a, shape=(1, 2), rank=r, K=K, vint=vint, verbose=verbose), timeout=400, feas=400))
        out.append(Case('%s 2x1x2, interval 2' % a, c30, dict(algo=a, shape=(2, 1, 2), rank=r3, K=2, vint=2), timeout=400, feas=400))
        out.append(Case('%s 1x2, any tolerance' % a, c30, dict(algo=a, shape=(1, 2), rank=r, K=3, vint=2, stop=True), timeout=400, feas=400,
                        max_paths=20000))
    for s, r in (((2, 3), (1, 2)), ((2, 1, 2), (1, 1, 2))):
        out.append(Case('HOSVD %s' % sh(s), c30, dict(algo='HOSVD', shape=s, rank=r, K=1), timeout=300))
    return out + long_cases(('CP', 'HOOI', 'NCP', 'NTUCKER'), c30, lambda a: [])


# ---------------------------------------------------------------- C31
def snap(x):
    if isinstance(x, np.ndarray):
        return ('array', x, np.array(x, dtype=x.dtype, copy=True), x.shape, x.dtype)
    if isinstance(x, (list, tuple)):
        return ('list', x, [(y, snap(y)) for y in x])
    if isinstance(x, dict):
        return ('dict', x, dict(x))
    if type(x).__module__.startswith('tensorD') and hasattr(x, '__dict__'):
        return ('fields', x, {k: (v, snap(v)) for k, v in vars(x).items()})
    return ('value', x)


def unchanged(H, name, s):
    kind = s[0]
    if kind == 'array':
        _, x, old, shp, dtype = s
        H.ok('%s: shape and type of the array' % name, x.shape == shp and x.dtype == dtype)
        if x.shape == shp:
            H.eq('%s: values of the array' % name, np.asarray(x), np.asarray(old), tol=1e-12)
    elif kind == 'list':
        _, x, old = s
        H.ok('%s: elements of the list' % name, len(x) == len(old) and all(a is b for a, (b, _) in zip(x, old)))
        for i, (_, t) in enumerate(old):
            unchanged(H, '%s[%d]' % (name, i), t)
    elif kind == 'dict':
        H.ok('%s: entries' % name, s[1] == s[2])
    elif kind == 'fields':
        _, x, old = s
        H.ok('%s: fields' % name, set(vars(x)) == set(old) and all(vars(x)[k] is v for k, (v, _) in old.items()))
        for k, (_, t) in old.items():
            unchanged(H, '%s.%s' % (name, k), t)


def call(H, name, f, *args, evaluate=True, **kw):
    """f(*args, **kw), evaluated; the arguments must come out as they went in."""
    snaps = [snap(a) for a in args] + [snap(v) for v in kw.values()]
    res = f(*args, **kw)
    ts = [x for x in (res if isinstance(res, (list, tuple)) else [res]) if isinstance(x, tf1.Tensor)]
    if ts and evaluate:
        H.run(ts)
    for i, s in enumerate(snaps):
        unchanged(H, '%s: argument %d' % (name, i), s)
    return res


def c31_ops(H, shape):
    n = len(shape)
    T = H.tensor('x', shape, 'float64')
    for m in range(n):
        call(H, 'unfold', ops.unfold, T, m)
        call(H, 'fold', ops.fold, ops.unfold(T, m), m, list(shape))
    ax = list(range(n))
    call(H, 't2mat', ops.t2mat, T, ax[:1], ax[1:])
    call(H, 't2mat inferred', ops.t2mat, T, ax[::-1][:1], -1)
    call(H, 't2mat one column axis', ops.t2mat, T, ax[:-1], ax[-1])
    call(H, 'vec_to_tensor', ops.vec_to_tensor, ops.vectorize(T), list(shape))
    call(H, 'mul', ops.mul, T, T, ax[:1], ax[:1])
    call(H, 'mul all but one', ops.mul, T, T, ax[1:], ax[1:])
    call(H, 'mul reversed', ops.mul, T, T, ax[::-1][:2], ax[::-1][:2])
    M = [H.tensor('m%d' % i, (2, d), 'float64') for i, d in enumerate(shape)]
    Mt = [H.tensor('t%d' % i, (d, 2), 'float64') for i, d in enumerate(shape)]
    call(H, 'ttm', ops.ttm, T, M)
    call(H, 'ttm axis', ops.ttm, T, M[::-1], axis=ax[::-1])
    call(H, 'ttm skip', ops.ttm, T, list(M), skip_matrices_index=[0])
    call(H, 'ttm skip one', ops.ttm, T, list(Mt), skip_matrices_index=n - 1, transpose=True)
    call(H, 'inner', ops.inner, T, T)
    Q = [H.tensor('q%d' % i, (2, 2), 'float64') for i in range(3)]
    for nm, f in (('hadamard', ops.hadamard), ('kron', ops.kron), ('khatri', ops.khatri), ('max_single_value_mul', ops.max_single_value_mul)):
        call(H, nm, f, list(Q))
        call(H, nm + ' skip', f, list(Q), [1])
        call(H, nm + ' skip one', f, list(Q), 2)
        call(H, nm + ' skip several', f, list(Q), [0, 2])
    for nm, f in (('kron', ops.kron), ('khatri', ops.khatri)):
        call(H, nm + ' reverse', f, list(Q), None, True)
        call(H, nm + ' skip reverse', f, list(Q), [0], True)


def c31_types(H, shape, dtype):
    x = H.arr('x', shape, dtype)
    U = [H.arr('u%d' % i, (d, 2), dtype) for i, d in enumerate(shape)]
    w = H.arr('w', (2,), dtype)
    w1 = H.arr('w1', (2, 1), dtype)
    g = H.arr('g', (2,) * len(shape), dtype)
    call(H, 'DTensor', lambda a: DTensor(a).unfold(0).T, x)
    call(H, 'KTensor', lambda a: KTensor(a).extract(), list(U))
    call(H, 'KTensor with weights', lambda a, b: KTensor(a, b).extract(), list(U), w)
    call(H, 'KTensor with a column of weights', lambda a, b: KTensor(a, b).extract(), list(U), w1)
    call(H, 'TTensor', lambda a, b: TTensor(a, b).extract(), g, list(U))
    V = [H.tensor('v%d' % i, (d, 2), dtype) for i, d in enumerate(shape)]
    tg = H.tensor('tg', (2,) * len(shape), dtype)
    call(H, 'KTensor of tensors', lambda a: KTensor(a).extract(), list(V))
    call(H, 'KTensor of tensors with weights', lambda a, b: KTensor(a, b).extract(), list(V), H.tensor('tw', (2, 1), dtype))
    call(H, 'TTensor of tensors', lambda a, b: TTensor(a, b).extract(), tg, list(V))
    T = H.tensor('y', shape, dtype)
    D = DTensor(T)
    n = len(shape)
    M = [H.tensor('m%d' % i, (2, d), dtype) for i, d in enumerate(shape)]
    sub = list(range(1, n))
    call(H, 'DTensor.t2mat', lambda a, b: value(D.t2mat(a, b)), [0], sub)
    call(H, 'DTensor.fold', lambda s: value(DTensor.fold(ops.unfold(T, 0), 0, s)), list(shape))
    E = DTensor(H.arr('z', shape, dtype))
    call(H, 'DTensor.mul', lambda a, b: value(E.mul(D, a, b)), [0], [0])
    call(H, 'DTensor arithmetic', lambda a: [value(E + a), value(E - a), value(E * a)], H.arr('o', shape, dtype))


def value(x):
    return x.T if isinstance(x, DTensor) else x


def c31_models(H, algo, shape, rank, K):
    X = data(H, shape)
    args = make_args(algo, rank, 2)
    prov = Provider(X)
    s = [snap(X), snap(args)]
    m = CLS[algo](Environment(prov, summary_path='unused'))
    m.build_model(args)
    p = train(H, algo, m, K)
    if not H.sym and not p.finite():
        return
    m.predict(*[0] * len(shape))
    H.ok('the provider keeps its data', prov.X is X)
    unchanged(H, 'the data', s[0])
    unchanged(H, 'the arguments', s[1])


def c31_pitf(H, shape, m):
    with npsym.shim(H, NPM), scratch():
        idx = [H.arr('s%d' % k, (m,), 'int32', lo=0, hi=shape[k] - 1, integer=True) for k in range(3)]
        spl = idx if not H.sym else [np.array([int(x) for x in a]) for a in idx]
        X, Y, Z = [H.arr('m%d' % k, (shape[i], shape[j]), 'float64') for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0)))]
        T = H.arr('t', shape, 'float64')
        v = H.arr('v', (m,), 'float64')
        tao = 0.5
        P = pitf_ops_numpy
        sl = list(shape)
        call(H, 'centralization', P.centralization, X)
        for d, M in enumerate((X, Y, Z)):
            call(H, 'Pomega_mat %d' % d, P.Pomega_mat, spl, M, sl, m, d)
            call(H, 'adjoint_operator %d' % d, P.adjoint_operator, spl, v, sl, m, d)
        call(H, 'Pomega_tensor', P.Pomega_tensor, spl, T, sl, m)
        call(H, 'Pomega_Pair', P.Pomega_Pair, spl, X, Y, Z, sl, m)
        call(H, 'generate', P.generate, [2, 2], 1)
        call(H, 'subspace', P.subspace, [2, 2], 1)
        call(H, 'sample3D_rule', P.sample3D_rule, sl, m)
        call(H, 'cone_projection_operator', P.cone_projection_operator, v, 0.5)
        S_ = H.arr('sv', (2, 1), 'float64', lo=1, hi=2)
        call(H, 'SVT', P.SVT, S_, tao)
        call(H, 'shrink', P.shrink, S_, tao, mode='complicated')
        call(H, 'shrink normal', P.shrink, S_, tao, mode='normal')
        sp = [tf1.constant(np.asarray(a), dtype=tf1.int32) for a in spl]
        Q = pitf_ops
        tX, tY, tZ, tT, tv = [H.tensor_of(a, 'float64') for a in (X, Y, Z, T, v)]
        for d, M in enumerate((tX, tY, tZ)):
            call(H, 'graph Pomega_mat %d' % d, Q.Pomega_mat, sp, M, sl, m, d)
            call(H, 'graph adjoint_operator %d' % d, Q.adjoint_operator, sp, tv, sl, m, d)
        call(H, 'graph Pomega_tensor', Q.Pomega_tensor, sp, tT, m)
        call(H, 'graph Pomega_Pair', Q.Pomega_Pair, sp, tX, tY, tZ, sl, m)
        call(H, 'graph centralization', Q.centralization, tX)
        call(H, 'graph sample3D_rule', Q.sample3D_rule, sl, m)
        call(H, 'graph sample_rule4mat', Q.sample_rule4mat, sl, 1, 1, 1)
        call(H, 'sample_rule4mat', P.sample_rule4mat, sl, 1, 1, 1, m)
        call(H, 'graph cone_projection_operator', Q.cone_projection_operator, tv, tf1.constant(0.5, tf1.float64))
        tS = H.tensor_of(S_, 'float64')
        call(H, 'graph SVT', Q.SVT, tS, tao)
        for md in ('complicated', 'normal'):
            call(H, 'graph shrink ' + md, Q.shrink, tS, tao, mode=md)
        call(H, 'graph generate', Q.generate, [2, 2], 1)
        call(H, 'graph subspace', Q.subspace, [2, 2], 1)


def c31_recovery(H, shape, m, K):
    with npsym.shim(H, NPM), scratch():
        T = H.arr('t', shape, 'float64', lo=1, hi=4)
        npsym.shared(H)
        args = pitf_numpy.PITF_np.PITF_np_Args(1, 0.5, 0.25, m, steps=K)
        model = pitf_numpy.PITF_np(Environment(Provider(T), summary_path='unused'))
        call(H, 'exact_recovery', model.exact_recovery, args, T)


def c31_loss(H, shape, zeros):
    X, Y = H.arr('x', shape, 'float64', zeros=zeros), H.arr('y', shape, 'float64', lo=1, hi=3)
    for f in (loss.l2, loss.rmse, loss.rmse_ignore_zero):
        call(H, f.__name__, f, H.tensor_of(Y), H.tensor_of(X))
        call(H, f.__name__ + ' of arrays as tensors', lambda a, b: f(tf1.convert_to_tensor(a), tf1.convert_to_tensor(b)), Y, X)


def c31_data(H):
    with npsym.shim(H, [DataGenerator]):
        call(H, 'synthetic_data_cp order 3', DataGenerator.synthetic_data_cp, [2, 1, 2], 1, 0.5)
        call(H, 'synthetic_data_tucker order 3', DataGenerator.synthetic_data_tucker, [2, 1, 2], [1, 1, 1], 0.5)
        call(H, 'synthetic_data_cp', DataGenerator.synthetic_data_cp, [2, 3], 2)
        call(H, 'synthetic_data_tucker', DataGenerator.synthetic_data_tucker, [2, 3], [1, 2])


def c31_reader(H, form):
    shape = [3, 4]
    given = dict(list=list(shape), tuple=tuple(shape), array=np.array(shape))[form]
    d = tempfile.mkdtemp(prefix='vcheck')
    try:
        p = os.path.join(d, 'x.csv')
        with open(p, 'w') as f:
            f.write('0,1,2.5\n2,3,-1\n')
        r = TensorReader(p)
        call(H, 'read', lambda s: r.read(full_shape=s), given)
        H.run([r.full_data])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@prop('C31', 'every public operation, tensor class, PITF function of both implementations, generator and reader called with lists and arrays of its '
      'own; the five models with their data array and argument object, up to 2 steps; all real values', 'arguments that are shared by several '
      'threads', [REAL])
def c31_cases(tier):
    out = [Case('operations %s' % sh(s), c31_ops, dict(shape=s), timeout=300) for s in ((2, 3), (2, 3, 2), (1, 2, 1, 2))]
    out += [Case('classes %s %s' % (sh(s), d), c31_types, dict(shape=s, dtype=d)) for s in ((2, 3), (2, 3, 2), (1, 2, 1, 2)) for d in ('float32', 'float64')]
    for a, r in (('CP', 1), ('NCP', 1), ('HOSVD', (1, 1)), ('HOOI', (1, 1)), ('NTUCKER', (1, 1))):
        out.append(Case('%s 1x2' % a, c31_models, dict(algo=a, shape=(1, 2), rank=r, K=2), timeout=300, feas=400))
        out.append(Case('%s 2x1x2' % a, c31_models, dict(algo=a, shape=(2, 1, 2), rank=r if a in ('CP', 'NCP') else (1, 1, 1), K=1), timeout=300, feas=400))
    out += [Case('PITF %s' % sh(s), c31_pitf, dict(shape=s, m=m), timeout=300) for s, m in (((2, 1, 2), 2), ((1, 2, 2), 1))]
    out += [Case('recovery %s, %d steps' % (sh(s), k), c31_recovery, dict(shape=s, m=m, K=k), timeout=300) for s, m, k in (((2, 1, 2), 1, 2), ((1, 1, 2), 2, 2))]
    out += [Case('losses %s' % sh(s), c31_loss, dict(shape=s, zeros=z)) for s, z in (((2, 3), ((0, 1),)), ((2, 1, 2), ()))]
    out += [Case('generators', c31_data)] + [Case('reader, %s' % f, c31_reader, dict(form=f)) for f in ('list', 'tuple', 'array')]
    return out
