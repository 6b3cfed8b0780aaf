"""The decompositions: CP, non-negative CP, HOSVD, HOOI, non-negative Tucker (tensorD/factorization)."""
import math

from vlib.boot import np, tf1, z3
from vlib import core, session, spec as S, tfsem
from vlib.core import R, lift, obj
from vlib.harness import Case, to_obj
from vlib.session import CONF
from checks.common import REAL, registry, sh

from tensorD.factorization.env import Environment
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.ncp import NCP_BCU
from tensorD.factorization.ntucker import NTUCKER_BCU
from tensorD.factorization.tucker import HOSVD, HOOI
from tensorD.base.error import TensorErr

PROPS, prop = registry()
NEVER = -1.0        # a tolerance no relative change falls below


class Provider:
    def __init__(self, X):
        self.X = X

    def full_tensor(self):
        return self.X


CLS = dict(CP=CP_ALS, NCP=NCP_BCU, NTUCKER=NTUCKER_BCU, HOSVD=HOSVD, HOOI=HOOI)
TUCKER = ('NTUCKER', 'HOSVD', 'HOOI')


def build(algo, X, rank, **kw):
    env = Environment(Provider(X), summary_path='unused')
    m = CLS[algo](env)
    a = dict(CP=CP_ALS.CP_Args, NCP=NCP_BCU.NCP_Args) if algo in ('CP', 'NCP') else \
        dict(NTUCKER=NTUCKER_BCU.NTUCKER_Args, HOOI=HOOI.HOOI_Args, HOSVD=HOSVD.HOSVD_Args)
    if algo == 'HOSVD':
        kw = {}
    m.build_model(a[algo](rank if algo in ('CP', 'NCP') else list(rank), **kw))
    return m


class Pub:
    """What a model publishes after training."""

    def __init__(self, H, algo, m, hist):
        self.factors = [to_obj(f) for f in m.factors]
        self.full = to_obj(m.full)
        self.lambdas = to_obj(m.lambdas) if algo in ('CP', 'NCP') else None
        self.core = to_obj(m.core) if algo in TUCKER else None
        self.hist = [[lift(x) for x in row] for row in hist] if hist is not None else None

    def arrays(self):
        return self.factors + ([self.core] if self.core is not None else [])

    def everything(self):
        return self.factors + [x for x in (self.lambdas, self.core, self.full) if x is not None]

    def finite(self):
        return all(math.isfinite(float(x.c)) for a in self.everything() for x in np.asarray(a).flat if isinstance(x, R) and x.e is None)

    def rebuilt(self, algo):
        if algo in TUCKER:
            return S.tucker(self.core, self.factors)
        return S.kruskal(self.factors, np.asarray(self.lambdas).reshape(-1))

    def rows(self):
        return np.array([x for r in self.hist for x in r], dtype=object)


def not_finite(e):
    """TensorFlow's decompositions refuse matrices with infinite or undefined entries."""
    return isinstance(e, tf1.errors.InvalidArgumentError) and any(w in str(e) for w in ('converge', 'not invertible', 'SVD', 'svd', 'Svd', 'infs or nans', 'NaN'))


def train(H, algo, m, k):
    try:
        hist = m.train(k)
    except Exception as e:
        if not H.sym and not_finite(e):
            raise core.PathAbort()      # outside the claim: the iteration left the finite numbers
        raise
    return Pub(H, algo, m, hist)


def names(*arrs):
    out = set()
    for a in arrs:
        for x in np.asarray(a).flat:
            if isinstance(x, R) and x.e is not None:
                out |= core.atoms(x.e)
    return out


def starts(draws, shapes):
    """The random starting blocks: the first draw of every shape, in order."""
    pool = [(nm, v) for nm, n, v in draws if n == 0]
    out = []
    for s in shapes:
        for i, (nm, v) in enumerate(pool):
            if tuple(np.shape(v)) == tuple(s):
                out.append(obj(np.asarray(v)))
                del pool[i]
                break
        else:
            return None
    return out


def cutarr(H, a):
    """The names the encoding gives to stored values (nothing in real mode)."""
    a = S.A(a)
    if not H.sym:
        return a
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = session.cut(a[i], 'spec')
    return o


def nz(H, v):
    """Real mode: is this number safely away from zero?"""
    return H.sym or abs(float(lift(v).c)) > 1e-6


def well(H, M, limit=4000.0):
    """Real mode: the tolerance a float32 pseudo-inverse of this matrix needs (0: too ill-conditioned to say anything)."""
    if H.sym:
        return 5e-3
    a = np.array([[float(x.c) for x in r] for r in np.asarray(M)])
    if not np.isfinite(a).all():
        return 0
    s = np.linalg.svd(a, compute_uv=False)
    return max(5e-3, 5e-6 * s[0] / s[-1]) if s[-1] > s[0] / limit else 0


def data(H, shape, lo=None, hi=None):
    return H.arr('x', shape, 'float64', lo=lo, hi=hi)


def close_call(H, a, b):
    """Real mode: too close to say which is smaller in float32."""
    return not H.sym and abs(float(lift(a).c) - float(lift(b).c)) <= 2e-4 * (abs(float(lift(b).c)) + 1e-3)


def steps_of(H, K):
    return K + (8 if H.deep else 0) if not H.sym else K


def wider(algo, K=14, styles=('lowrank', 'signed', 'swamp', 'spiky', 'sparse'), n=10, **kw):
    """Where a counterexample that lives in the contracts of the decompositions is looked for on the real code."""
    r = 2 if algo in ('CP', 'NCP') else (2, 2, 2)
    out = [(dict(dict(shape=(4, 3, 5), rank=r, K=K), **kw), st, n) for st in styles]
    if 'shape' not in kw and not kw.get('zeros'):
        out += [(dict(dict(shape=(3, 2, 3, 2), rank=2 if r == 2 else (2, 1, 2, 2), K=min(K, 4)), **kw), st, 3) for st in ('lowrank', 'signed')]
    return out


# ---------------------------------------------------------------- C11
def colmax(M):
    return [tfsem.fold_max(list(M[:, j])) for j in range(M.shape[1])]


def c11(H, shape, rank, K, vint=-1):
    X = data(H, shape)
    Xo = S.A(X)
    m = build('CP', X, rank, tol=NEVER, validation_internal=vint)
    n = len(shape)
    F = None
    for k in range(1, steps_of(H, K) + 1):
        p = train(H, 'CP', m, k)
        if k <= K:
            H.observe(p.everything())
        if F is None:
            F = starts(CONF.draws, [(d, rank) for d in shape])
            if F is None:
                return H.ok('the factors start from one random block each', False)
        if not H.sym and not p.finite():
            return
        keep = names(*(F + p.factors))
        H.eq('step %d: number of steps' % k, np.array(len(p.hist)), np.array(k))
        cur = list(F)
        for mode in range(n):
            V = S.hadamard([S.gram(cur[i]) for i in range(n) if i != mode]) if n > 1 else None
            tol = well(H, V)
            if not tol:
                return
            XA = tfsem.matmul(S.unfold(Xo, mode), S.khatri([cur[i] for i in reversed(range(n)) if i != mode]))
            NN = tfsem.matmul(XA, tfsem.pinv(V))
            lam = colmax(NN)
            if not H.sym and (min(abs(float(x.c)) for x in lam) < 0.02 * max(abs(float(x.c)) for x in NN.flat)):
                return
            want = np.empty(NN.shape, dtype=object)
            for i in np.ndindex(*NN.shape):
                want[i] = core.div(NN[i], lam[i[1]])
            H.eq('step %d: factor %d' % (k, mode), p.factors[mode], want, tol=tol, keep=keep)
            cur[mode] = p.factors[mode]
        H.eq('step %d: weights' % k, np.asarray(p.lambdas).reshape(-1), np.array(lam, dtype=object), tol=tol, keep=keep)
        F = p.factors


@prop('C11', 'orders 2..5, dimensions 1..3 (5 and 7 once), rank 1..4, 1..3 steps (8 and 12 at rank 1), all real data and random starts',
      'more steps, larger shapes; results once a matrix is numerically rank deficient', [REAL, 'pinv is the pseudo-inverse (a function of '
      'its argument satisfying the Moore-Penrose equations)', 'the largest entry of every updated column is not zero'])
def c11_cases(tier):
    cfg = [((2, 3), 1, 3), ((2, 3), 2, 2), ((1, 2, 3), 2, 2), ((2, 2, 2), 1, 3), ((2, 3, 2), 2, 2), ((1, 2, 1, 2), 2, 2), ((2, 1, 2), 3, 2),
           ((3, 3), 2, 2), ((2, 2, 2), 2, 2), ((2, 2, 1, 2), 1, 2), ((2, 1, 2, 2), 2, 1), ((1, 2, 2, 1, 2), 1, 1), ((4, 4), 4, 1),
           ((5, 1, 7), 1, 1), ((1, 2), 1, 12), ((2, 2), 1, 8), ((2, 1, 2), 1, 8)]
    if tier != 'quick':
        cfg += [((2, 3), 2, 4), ((2, 3, 4), 2, 2), ((3, 3, 3), 2, 2), ((2, 2, 2, 2), 2, 2), ((1, 2, 1, 2, 2), 2, 2), ((2, 2, 2), 3, 2), ((2, 3, 2), 2, 4)]
    return [Case('cp %s rank %d, %d steps' % (sh(s), r, k), c11, dict(shape=s, rank=r, K=k, vint=(-1, 1, 2)[i % 3]), timeout=400, hunts=wider('CP', 3),
                 validate=(s, r) != ((2, 1, 2), 3)) for i, (s, r, k) in enumerate(cfg)]


# ---------------------------------------------------------------- C16, C17: block coordinate updates
class Block:
    """One block (a factor or the core) with its extrapolation state."""

    def __init__(self, A):
        self.A, self.Am, self.A0, self.L, self.L0 = A, A, A, R(1), R(1)


def start_block(H, U, c):
    return cutarr(H, S.scale(S.divm(S.relu(U), S.norm(S.relu(U))), c))


def proj(Am, G, L):
    return S.relu(S.sub(Am, S.divm(G, L)))


def after(H, blocks, t0, t, accepted):
    """The extrapolation (or its undoing) between two steps; returns the new t0."""
    if not accepted:
        for b in blocks:
            b.Am = b.A0
        return t0
    w = core.div(t0 - 1, t)
    for b in blocks:
        ww = core.rmin(w, core.sqrt(core.div(b.L0, b.L)))
        b.Am = cutarr(H, S.addm(b.A, S.scale(S.sub(b.A, b.A0), ww)))
        b.A0 = b.A
    return t


def bcu(H, algo, shape, rank, K, vint=-1, lo=None, pattern=None):
    """pattern: which steps from the second on lower the objective (a) and which do not (r); every history if not given."""
    X = data(H, shape, lo=lo)
    Xo = S.A(X)
    n = len(shape)
    tucker = algo == 'NTUCKER'
    ranks = list(rank) if tucker else [rank] * n
    m = build(algo, X, rank, tol=NEVER, validation_internal=vint)
    c = core.root(S.norm(Xo), n + 1 if tucker else n) if (n + tucker) > 2 else core.power(S.norm(Xo), R(core.Fraction(1, n + tucker)))
    fb, g = None, None
    t0 = R(1)
    obj0 = None
    for k in range(1, steps_of(H, K) + 1):
        p = train(H, algo, m, k)
        if not H.sym and not p.finite():
            return
        if k <= K:
            H.observe(p.everything())
        if fb is None:
            st = starts(CONF.draws, [(d, r) for d, r in zip(shape, ranks)] + ([tuple(ranks)] if tucker else []))
            if st is None:
                return H.ok('every block starts from one random block', False)
            fb = [Block(start_block(H, U, c)) for U in st[:n]]
            if tucker:
                g = Block(start_block(H, st[n], c))
            if not H.sym and any(not math.isfinite(float(x.c)) for b in fb for x in b.A.flat):
                return
        blocks = fb + ([g] if tucker else [])
        keep = names(*([b.A for b in blocks] + [b.Am for b in blocks] + p.arrays()))
        keep_state = names(*([b.A for b in blocks] + p.arrays()))
        H.eq('step %d: number of steps' % k, np.array(len(p.hist)), np.array(k))
        if tucker:
            grams = [S.gram(b.A) for b in fb]
            L = R(1)
            for G in grams:
                L = L * S.sigma_max(G)
            g.L0, g.L = g.L, L
            if not nz(H, L):
                return
            G = S.sub(S.ttm(g.Am, grams), S.ttm(Xo, [b.A for b in fb], transpose=True))
            H.eq('step %d: core' % k, p.core, proj(g.Am, G, L), tol=5e-3, keep=keep)
            g.A = p.core
        for mode in range(n):
            b = fb[mode]
            others = [fb[i].A for i in range(n)]
            if tucker:
                B = S.unfold(S.ttm(g.A, [others[i] for i in range(n) if i != mode], [i for i in range(n) if i != mode]), mode)
                V = tfsem.matmul(B, tfsem.tr(B))
                XB = tfsem.matmul(S.unfold(Xo, mode), tfsem.tr(B))
            else:
                V = S.hadamard([S.gram(others[i]) for i in range(n) if i != mode])
                XB = tfsem.matmul(S.unfold(Xo, mode), S.khatri([others[i] for i in reversed(range(n)) if i != mode]))
            L = S.sigma_max(V)
            if not nz(H, L):
                return
            b.L0, b.L = b.L, L
            G = S.sub(tfsem.matmul(b.Am, V), XB)
            H.eq('step %d: factor %d' % (k, mode), p.factors[mode], proj(b.Am, G, L), tol=5e-3, keep=keep)
            b.A = p.factors[mode]
        if not tucker:
            H.eq('step %d: weights are one' % k, np.asarray(p.lambdas).reshape(-1), np.array([R(1)] * rank, dtype=object))
        t = core.div(R(1) + core.sqrt(R(1) + R(4) * t0 * t0), R(2))
        nrm = S.norm(S.sub(p.rebuilt(algo), Xo))
        ob = R(core.Fraction(1, 2)) * (nrm * nrm)
        if k == 1:
            acc = True
        else:
            if close_call(H, ob, obj0):
                return
            if pattern and H.sym:
                H.assume(ob < obj0 if pattern[k - 2] == 'a' else ob >= obj0)
            if k == steps_of(H, K):
                return
            acc = pattern[k - 2] == 'a' if pattern and H.sym else bool(ob < obj0)
        if acc:
            obj0 = ob
        t0 = after(H, blocks, t0, t, acc)


def long_runs(algo, rank):
    return [Case('%s 1x2, %d steps %s' % (algo.lower(), len(p) + 1, p), bcu, dict(algo=algo, shape=(1, 2), rank=rank, K=len(p) + 1, vint=v, pattern=p), timeout=500,
                 feas=400, max_paths=2000, hunts=wider(algo, pattern=None)) for p, v in (('aaaaaaaaa', 5), ('araaraaa', -1), ('rrarraa', 3))]


BCU_OUT = 'more steps, larger shapes; runs that divide by zero (an all-zero starting block or a zero Lipschitz constant)'
BCU_ASS = [REAL, 'the spectral norm of a Gram matrix is a function of the matrix satisfying the defining equations of its singular values',
           'objective values the solver cannot order are explored in both orders']


@prop('C16', 'orders 2..5, dimensions 1..3 (4 and 5 once), rank 1..2, 1..4 steps, every accept/reject history (10 steps with three of them), all real data and random starts', BCU_OUT, BCU_ASS)
def c16_cases(tier):
    cfg = [((2, 3), 1, 3), ((2, 3), 2, 3), ((1, 2, 3), 2, 2), ((2, 2, 2), 1, 3), ((2, 3, 2), 2, 2), ((1, 2, 1, 2), 2, 2), ((1, 2), 1, 4), ((2, 2, 1, 2), 1, 2), ((1, 2, 2, 1, 2), 1, 1),
           ((4, 1, 5), 1, 1), ((1, 2), 2, 4), ((2, 2), 2, 4)]
    return [Case('ncp %s rank %d, %d steps' % (sh(s), r, k), bcu, dict(algo='NCP', shape=s, rank=r, K=k, vint=(-1, 1, 2)[i % 3]), timeout=500, feas=1500,
                 hunts=wider('NCP'))
            for i, (s, r, k) in enumerate(cfg)] + long_runs('NCP', 1)


@prop('C17', 'orders 2..4, dimensions 1..3 (4 and 5 once), rank tuples of 1 and 2, 1..4 steps, every accept/reject history (10 steps with three of them), all real data and random starts', BCU_OUT,
      BCU_ASS)
def c17_cases(tier):
    cfg = [((2, 3), (1, 1), 3), ((2, 3), (2, 1), 2), ((1, 2, 3), (1, 2, 1), 2), ((2, 2, 2), (1, 1, 1), 3), ((2, 3, 2), (2, 1, 2), 2),
           ((1, 2), (1, 1), 4), ((2, 2, 1, 2), (1, 1, 1, 1), 2), ((1, 2, 1, 2), (1, 2, 1, 2), 1), ((4, 1, 5), (1, 1, 1), 1), ((1, 2), (1, 2), 4), ((2, 2), (1, 2), 4)]
    return [Case('ntucker %s ranks %s, %d steps' % (sh(s), sh(r), k), bcu, dict(algo='NTUCKER', shape=s, rank=r, K=k, vint=(-1, 1, 2)[i % 3]), timeout=500, feas=1500,
                 hunts=wider('NTUCKER'))
            for i, (s, r, k) in enumerate(cfg)] + long_runs('NTUCKER', (1, 1))


# ---------------------------------------------------------------- C12, C13, C14: what training publishes and when it stops
def relerr(ob, ob0):
    return core.div(abs(ob - ob0), ob0 + 1)


def half_sq(x):
    return R(core.Fraction(1, 2)) * (x * x)


def rule_values(H, X, pubs, algo):
    """(objective, relative residual) of every step, from the published full tensors."""
    nx = S.norm(X)
    out = []
    for p in pubs:
        nr = S.norm(S.sub(p.full, X))
        out.append((half_sq(nr), core.div(nr, nx)))
    return out


def rule(H, algo, vals, tol, K):
    """The step at which training must stop."""
    obj0, nstall = vals[0][0] + 1, 0
    for k in range(1, K + 1):
        ob, rel = vals[k - 1]
        if bool(relerr(ob, obj0) < tol):
            nstall += 1
        else:
            nstall = 0
        if nstall >= 3 or bool(rel < tol):
            return k
        if k == K:
            return K
        if algo in ('CP', 'HOOI') or bool(ob < obj0):
            obj0 = ob
    return K


def tolerances(H, algo, vals, K):
    """Real mode, deep: tolerances between the values the rule compares, so that every stopping step is tried; first those under which
    the change of the objective is small, then large again."""
    es, rels, obj0 = [], [], float(vals[0][0].c) + 1
    for ob, rel in vals[:K]:
        o = float(ob.c)
        es.append(abs(o - obj0) / (obj0 + 1))
        rels.append(float(rel.c))
        if algo in ('CP', 'HOOI') or o < obj0:
            obj0 = o
    qs = sorted(set(es + rels + [0.0]))
    out = [(a + b) / 2 for a, b in zip(qs, qs[1:]) if b - a > 2e-5] + [qs[-1] + 0.5]

    def swings(t):
        ok = [e < t for e in es]
        return any(a and not b for a, b in zip(ok, ok[1:])) and not any(r < t for r in rels[:3])
    first = [t for t in out if swings(t)]
    rest = [t for t in out if not swings(t)]
    return first[:: max(1, len(first) // 6)] + rest[:: max(1, len(rest) // 8)]


def usable(H, vals, algo):
    """Real mode: finite and clear-cut objective values."""
    if H.sym:
        return len(vals)
    for k, (a, b) in enumerate(vals):
        if not (math.isfinite(float(a.c)) and math.isfinite(float(b.c))):
            return k
        if k and algo not in ('CP', 'HOOI') and close_call(H, a, min((v[0] for v in vals[:k]), key=lambda x: float(x.c))):
            return k + 1
    return len(vals)


def c14(H, algo, shape, rank, K, vint=-1, verbose=False, pattern=None):
    X = data(H, shape)
    Xo = S.A(X)
    KK = steps_of(H, K)
    A = build(algo, X, rank, tol=NEVER, validation_internal=vint)
    key = ('c14', H.mode)
    if H.sym and key in core.CTX.memo:
        pubs = core.CTX.memo[key]
    else:
        n0 = len(core.CTX.explorer.taken) if H.sym else 0
        pubs, last = [], None
        for k in range(1, KK + 1):
            pubs.append(train(H, algo, A, k))
            if pattern and H.sym:
                ob = half_sq(S.norm(S.sub(pubs[-1].full, Xo)))
                if last is not None:
                    H.assume(ob < last if pattern[k - 2] == 'a' else ob >= last)
                if last is None or pattern[k - 2] == 'a':
                    last = ob
        if H.sym and len(core.CTX.explorer.taken) == n0:
            core.CTX.memo[key] = pubs
    vals = rule_values(H, Xo, pubs, algo)
    KU = usable(H, vals, algo)
    if KU == 0:
        return
    tols = [H.value('tol', lo=-1, hi=4)]
    if not H.sym:
        tols = [float(tols[0].c)]
        if H.deep:
            tols += tolerances(H, algo, vals, KU)
    for tol in tols:
        if not H.sym:
            qs = [q for _, q in vals[:KU]]
            obj0 = vals[0][0] + 1
            for ob, _ in vals[:KU]:
                qs.append(relerr(ob, obj0))
                if algo in ('CP', 'HOOI') or ob < obj0:
                    obj0 = ob
            if any(abs(float(q.c) - tol) < 5e-6 for q in qs):
                continue
        with tf1.Graph().as_default():
            B = build(algo, X, rank, tol=tol, validation_internal=vint, verbose=verbose)
            p = train(H, algo, B, KU)
        n = rule(H, algo, vals, tol, KU)
        H.ok('number of steps: %d, the rule says %d' % (len(p.hist), n), len(p.hist) == n)
        if len(p.hist) != n or not pubs[n - 1].finite():
            continue
        H.eq('history', p.rows(), np.array([x for r in pubs[KU - 1].hist[:n] for x in r], dtype=object), tol=1e-3)
        for i, (a, b) in enumerate(zip(p.everything(), pubs[n - 1].everything())):
            H.eq('published result %d is that of step %d' % (i, n), a, b, tol=2e-3)
        H.observe(p.everything())
        H.observe(np.array(n))


@prop('C14', 'CP, HOOI: 5 steps; non-negative CP and Tucker: 4 steps with every accept/reject history, 5 steps with four of them; 1x2 and 2x1 '
      'data of any value, every real tolerance', 'longer runs (the stall counter needs at most three steps)',
      [REAL, 'objective values the solver cannot order are explored in both orders'])
def c14_cases(tier):
    cfg = [('CP', (1, 2), 1, 5, None), ('HOOI', (1, 2), (1, 1), 5, None), ('NCP', (1, 2), 1, 4, None), ('NTUCKER', (1, 2), (1, 1), 4, None)]
    for a, r in (('NCP', 1), ('NTUCKER', (1, 1))):
        cfg += [(a, (2, 1), r, 5, p) for p in ('aaaa', 'rrrr', 'arar', 'raar')]
    if tier != 'quick':
        cfg += [('CP', (1, 2), 1, 7, None), ('HOOI', (2, 1), (1, 1), 6, None), ('NCP', (1, 2), 1, 5, None), ('NTUCKER', (1, 2), (1, 1), 5, None)]
    return [Case('%s %s, %d steps %s' % (a, sh(s), k, p or ''), c14, dict(algo=a, shape=s, rank=r, K=k, vint=(-1, 2)[i % 2], verbose=i % 3 == 1, pattern=p),
                 timeout=800, feas=400, weight=k, max_paths=20000,
                 hunts=wider(a, 12, pattern=None) + wider(a, 24, ('swamp',), 6, pattern=None, shape=(4, 5, 4))) for i, (a, s, r, k, p) in enumerate(cfg)]


# ---------------------------------------------------------------- C12
class Steer:
    """Long runs: keeps to the histories in which the steps from the second on lower the objective (a) or not (r) as the pattern says."""

    def __init__(self, H, X, pattern):
        self.H, self.X, self.pattern, self.last = H, S.A(X), pattern, None

    def __call__(self, k, p):
        if not (self.pattern and self.H.sym):
            return
        ob = half_sq(S.norm(S.sub(p.full, self.X)))
        a = self.last is None or self.pattern[k - 2] == 'a'
        if self.last is not None:
            self.H.assume(ob < self.last if a else ob >= self.last)
        if a:
            self.last = ob


def long_cases(name, f, hunts, extra=()):
    """Ten steps, with validation intervals that divide some of them."""
    out = []
    for a, r, pats in (('CP', 1, ('',)), ('HOOI', (1, 1), ('',)), ('NCP', 1, ('aaaaaaaaa', 'aaraaraaa')), ('NTUCKER', (1, 1), ('aaaaaaaaa', 'aaraaraaa'))):
        for i, pat in enumerate(pats):
            if a in name:
                out.append(Case('%s 1x2, 10 steps %s' % (a, pat), f, dict(algo=a, shape=(1, 2), rank=r, K=10, vint=(5, 4)[i], pattern=pat, **dict(extra)),
                                timeout=500, feas=400, max_paths=2000, hunts=hunts(a)))
    return out


def model_args(algo, tol, vint, verbose):
    return {} if algo == 'HOSVD' else dict(tol=tol, validation_internal=vint, verbose=verbose)


def c12(H, algo, shape, rank, K, vint=-1, verbose=False, first=0):
    """first: the steps of a training of the same model before the one that is looked at."""
    X = data(H, shape)
    Xo = S.A(X)
    tols = [H.value('tol', lo=-1, hi=2)]
    KK = steps_of(H, K)
    if not H.sym:
        tols = [float(tols[0].c)]
        if H.deep and algo != 'HOSVD':
            A = build(algo, X, rank, **model_args(algo, NEVER, vint, verbose))
            vals = rule_values(H, Xo, [train(H, algo, A, k) for k in range(1, KK + 1)], algo)
            if usable(H, vals, algo):
                tols += tolerances(H, algo, vals, usable(H, vals, algo))
    for i, tol in enumerate(tols):
        with tf1.Graph().as_default():
            m = build(algo, X, rank, **model_args(algo, tol, vint, verbose))
            if first:
                CONF.rnd_name = lambda o, n: 'first:%s:%d' % (o.name, n)
                train(H, algo, m, first)
                CONF.rnd_name = None
            p = train(H, algo, m, KK)
        if not H.sym and not p.finite():
            continue
        if i == 0:
            H.observe([p.full] if algo in ('HOSVD', 'HOOI') else p.everything())
        H.eq('full tensor after %s steps' % (len(p.hist) if p.hist else 1), p.full, p.rebuilt(algo), tol=2e-3,
             keep=names(*p.arrays()), hide=[x for x in (p.lambdas, p.core) if x is not None])


def c12l(H, algo, shape, rank, K, vint=-1, pattern=''):
    X = data(H, shape)
    m = build(algo, X, rank, tol=NEVER, validation_internal=vint)
    steer = Steer(H, X, pattern)
    for k in range(1, steps_of(H, K) + 1):
        p = train(H, algo, m, k)
        if not H.sym and not p.finite():
            return
        if k <= K:
            H.observe([p.full] if algo == 'HOOI' else p.everything())
        H.eq('full tensor after %d steps' % k, p.full, p.rebuilt(algo), tol=2e-3, keep=names(*p.arrays()),
             hide=[x for x in (p.lambdas, p.core) if x is not None])
        steer(k, p)


@prop('C12', 'CP, non-negative CP, HOSVD, HOOI, non-negative Tucker; orders 2..4, dimensions 1..3, ranks 1..2; up to 4 steps, every stopping step (10 steps without stopping), '
      'every real tolerance, validation intervals -1, 1, 2, 3, verbose or not; a model\'s first and second training', 'more steps; results that are not finite',
      [REAL, 'objective values the solver cannot order are explored in both orders'])
def c12_cases(tier):
    cfg = [('CP', (1, 2), 1, 4), ('CP', (2, 3), 2, 3), ('CP', (2, 1, 2), 2, 2), ('CP', (1, 2, 1, 2), 1, 2),
           ('NCP', (1, 2), 1, 3), ('NCP', (2, 3), 2, 2), ('NCP', (2, 1, 2), 2, 2),
           ('HOSVD', (2, 3), (1, 2), 1), ('HOSVD', (2, 1, 2), (1, 1, 2), 1),
           ('HOOI', (1, 2), (1, 1), 4), ('HOOI', (2, 3), (2, 2), 2), ('HOOI', (2, 1, 2), (2, 1, 2), 2),
           ('NTUCKER', (1, 2), (1, 1), 3), ('NTUCKER', (2, 3), (1, 2), 2), ('NTUCKER', (2, 1, 2), (1, 1, 2), 2)]
    if tier != 'quick':
        cfg += [('CP', (2, 3, 2), 2, 3), ('NCP', (2, 3, 2), 2, 3), ('HOOI', (2, 3, 2), (2, 2, 2), 3), ('NTUCKER', (2, 3, 2), (2, 2, 1), 3),
                ('NCP', (1, 2), 1, 5), ('NTUCKER', (1, 2), (1, 1), 5), ('CP', (1, 2), 1, 6), ('HOOI', (1, 2), (1, 1), 6)]
    return [Case('%s %s, %d steps' % (a, sh(s), k), c12, dict(algo=a, shape=s, rank=r, K=k, vint=(-1, 2, 3, 1)[i % 4], verbose=i % 5 == 4),
                 timeout=500, feas=400, weight=k, max_paths=20000, hunts=wider(a, 8)) for i, (a, s, r, k) in enumerate(cfg)] + \
        [Case('%s %s, trained again, %d then %d steps' % (a, sh(s), j, k), c12, dict(algo=a, shape=s, rank=r, K=k, first=j, vint=v), timeout=500, feas=400,
              weight=k, max_paths=20000, hunts=wider(a, 4))
         for a, s, r, j, k, v in [('CP', (1, 2), 1, 2, 1, -1), ('CP', (2, 3), 1, 1, 2, 2), ('NCP', (1, 2), 1, 2, 1, 2), ('NCP', (1, 2), 1, 1, 2, -1),
                                  ('HOOI', (1, 2), (1, 1), 2, 1, -1), ('HOOI', (2, 2), (1, 1), 1, 2, -1), ('NTUCKER', (1, 2), (1, 1), 2, 1, -1),
                                  ('NTUCKER', (1, 2), (1, 1), 1, 2, 2), ('HOSVD', (2, 3), (1, 2), 1, 1, -1)]] + \
        long_cases(('CP', 'HOOI', 'NCP', 'NTUCKER'), c12l, lambda a: wider(a, 8, pattern=''))


# ---------------------------------------------------------------- C13
def c13(H, algo, shape, rank, K, vint=-1, verbose=False, zeros=(), pattern=''):
    X = H.arr('x', shape, 'float64', zeros=zeros)
    Xo = S.A(X)
    KK = steps_of(H, K)
    m = build(algo, X, rank, tol=NEVER, validation_internal=vint, verbose=verbose)
    prev = None
    steer = Steer(H, X, pattern)
    for k in range(1, KK + 1):
        p = train(H, algo, m, k)
        if not H.sym and not p.finite():
            return
        H.ok('%d steps: one row per step' % k, len(p.hist) == k and all(len(r) == 2 for r in p.hist))
        if k <= K:
            H.observe(p.rows())
        if not p.hist or len(p.hist[-1]) != 2:
            return
        keep = names(*p.arrays())
        nx = S.norm(Xo)
        H.eq('step %d: root mean square error over the nonzero data' % k, np.array([p.hist[-1][0]]), np.array([S.rmse_nonzero(Xo, p.full)]),
             tol=2e-3, keep=keep)
        rel = core.div(S.norm(S.sub(p.full, Xo)), nx)
        if H.sym or float(rel.c) > 1e-4:
            H.eq('step %d: relative residual' % k, np.array([p.hist[-1][1]]), np.array([rel]), tol=2e-3, keep=keep)
        if prev is not None:
            H.eq('%d steps: earlier rows unchanged' % k, p.rows()[:-2], prev, tol=1e-4, keep=keep)
        prev = p.rows()
        steer(k, p)


def c13s(H, algo, shape, rank, K, vint=-1, verbose=False):
    """With a tolerance that may end the training early: still one row per executed step, the last one that of the published results."""
    X = data(H, shape)
    Xo = S.A(X)
    KK = steps_of(H, K)
    A = build(algo, X, rank, tol=NEVER, validation_internal=vint)
    pubs = [train(H, algo, A, KK)] if H.sym else [train(H, algo, A, k) for k in range(1, KK + 1)]
    KU = KK
    tols = [H.value('tol', lo=-1, hi=4)]
    if not H.sym:
        tols = [float(tols[0].c)]
        vals = rule_values(H, Xo, pubs, algo)
        KU = usable(H, vals, algo)
        if KU == 0:
            return
        if H.deep:
            tols += tolerances(H, algo, vals, KU)
    for tol in tols:
        with tf1.Graph().as_default():
            B = build(algo, X, rank, tol=tol, validation_internal=vint, verbose=verbose)
            p = train(H, algo, B, KU)
        if not H.sym and not p.finite():
            continue
        n = len(p.hist)
        H.ok('training that may stop early: at least one row, at most one per requested step', 1 <= n <= KU)
        if not 1 <= n <= KU:
            continue
        keep = names(*p.arrays())
        H.eq('stopped after %d steps: rows' % n, p.rows(), np.array([x for r in pubs[-1].hist[:n] for x in r], dtype=object), tol=2e-3, keep=keep)
        H.eq('stopped after %d steps: the last row is that of the published results' % n, np.array([p.hist[-1][0]]),
             np.array([S.rmse_nonzero(Xo, p.full)]), tol=2e-3, keep=keep)
        rel = core.div(S.norm(S.sub(p.full, Xo)), S.norm(Xo))
        if H.sym or float(rel.c) > 1e-4:
            H.eq('stopped after %d steps: the last residual is that of the published results' % n, np.array([p.hist[-1][1]]), np.array([rel]),
                 tol=2e-3, keep=keep)


@prop('C13', 'CP, non-negative CP, HOOI, non-negative Tucker; orders 2..3, dimensions 1..3, ranks 1..2, up to 4 steps; with and without zero '
      'entries; validation intervals -1, 1, 2, verbose or not; up to 4 steps with every real tolerance, 10 steps with two histories', 'more steps', [REAL])
def c13_cases(tier):
    cfg = [('CP', (1, 2), 1, 4, ()), ('CP', (2, 3), 2, 2, ((0, 1),)), ('CP', (2, 1, 2), 2, 2, ()),
           ('NCP', (1, 2), 1, 4, ()), ('NCP', (2, 2), 2, 2, ((0, 1),)), ('NCP', (2, 1, 2), 2, 2, ()),
           ('HOOI', (1, 2), (1, 1), 4, ()), ('HOOI', (2, 2), (1, 1), 2, ((0, 1),)), ('HOOI', (2, 1, 2), (1, 1, 1), 2, ()),
           ('NTUCKER', (1, 2), (1, 1), 4, ()), ('NTUCKER', (2, 2), (1, 2), 2, ((0, 1),)), ('NTUCKER', (2, 1, 2), (1, 1, 2), 2, ())]
    cs = [Case('%s %s, %d steps%s' % (a, sh(s), k, ' with a zero' if z else ''), c13,
               dict(algo=a, shape=s, rank=r, K=k, vint=(-1, 2, 1)[i % 3], verbose=i % 5 == 4, zeros=z), timeout=500, feas=400, weight=k,
               hunts=wider(a, 8, zeros=()) + wider(a, 8, ('signed',), zeros=((0, 1, 2), (3, 0, 0))))
          for i, (a, s, r, k, z) in enumerate(cfg)]
    for i, (a, s, r, k) in enumerate([('CP', (1, 2), 1, 3), ('NCP', (1, 2), 1, 3), ('HOOI', (1, 2), (1, 1), 4), ('NTUCKER', (1, 2), (1, 1), 3)]):
        cs.append(Case('%s %s, up to %d steps with a tolerance' % (a, sh(s), k), c13s, dict(algo=a, shape=s, rank=r, K=k, vint=(-1, 2)[i % 2]),
                       timeout=500, feas=400, weight=k, max_paths=20000, hunts=wider(a, 8)))
    return cs + long_cases(('CP', 'HOOI', 'NCP', 'NTUCKER'), c13, lambda a: wider(a, 8, pattern=''))


# ---------------------------------------------------------------- C15
def c15(H, algo, shape, rank, K, vint=-1, pattern=''):
    X = data(H, shape)
    steer = Steer(H, X, pattern)
    KK = steps_of(H, K)
    m = build(algo, X, rank, tol=NEVER, validation_internal=vint)
    for k in range(1, KK + 1):
        p = train(H, algo, m, k)
        if k <= K:
            H.observe(p.everything())
        if not H.sym and not p.finite():
            return
        pos = []
        for nm, a in [('factor %d' % i, f) for i, f in enumerate(p.factors)] + ([('core', p.core)] if p.core is not None else []):
            for i in np.ndindex(*a.shape):
                x = lift(a[i])
                if x.e is None:
                    H.ok('step %d: %s%s not negative' % (k, nm, list(i)), float(x.c) >= 0)
                else:
                    e = session_def(x.e)
                    H.ok('step %d: %s%s not negative' % (k, nm, list(i)), e >= 0)
                    pos.append(x.e >= 0)
        lam = [R(1)] * 9 if p.lambdas is None else list(np.asarray(p.lambdas).reshape(-1))
        for i, x in enumerate(lam):
            H.ok('step %d: weight %d not negative' % (k, i), lift(x) >= 0)
        for i in np.ndindex(*p.full.shape):
            x = lift(p.full[i])
            if x.e is None:
                H.ok('step %d: full%s not negative' % (k, list(i)), float(x.c) >= -1e-6)
            else:
                H.ok('step %d: full%s not negative' % (k, list(i)), x.e >= 0, assume=pos)
        steer(k, p)


def session_def(e):
    if z3.is_const(e) and e.decl().name() in core.CTX.raw:
        return core.CTX.raw[e.decl().name()]
    return e


@prop('C15', 'non-negative CP and Tucker; orders 2..4, dimensions 1..3, ranks 1..2, up to 4 steps, every accept/reject history, 10 steps with two of them', 'more steps', [REAL])
def c15_cases(tier):
    cfg = [('NCP', (1, 2), 1, 4), ('NCP', (2, 3), 2, 3), ('NCP', (2, 3, 2), 2, 2), ('NCP', (1, 2, 1, 2), 2, 2),
           ('NTUCKER', (1, 2), (1, 1), 4), ('NTUCKER', (2, 3), (2, 1), 3), ('NTUCKER', (2, 1, 2), (1, 1, 2), 2), ('NTUCKER', (2, 3, 2), (2, 1, 1), 2)]
    return [Case('%s %s, %d steps' % (a, sh(s), k), c15, dict(algo=a, shape=s, rank=r, K=k, vint=(-1, 2)[i % 2]), timeout=500, feas=400, weight=k,
                 hunts=wider(a, 12))
            for i, (a, s, r, k) in enumerate(cfg)] + long_cases(('NCP', 'NTUCKER'), c15, lambda a: wider(a, 12, pattern=''))


# ---------------------------------------------------------------- C18
def wider18():
    return ([(dict(shape=(4, 3, 5), ranks=r, K=2), st, 10) for r in ((2, 2, 2), (3, 2, 4)) for st in ('spiky', 'signed', 'lowrank')]
            + [(dict(shape=(3, 2, 3, 2), ranks=(2, 1, 2, 2), K=2), st, 4) for st in ('spiky', 'signed')])


def leading(H, M, r):
    """(the r leading left singular vectors, True if they are well separated)"""
    M = S.A(M)
    if H.sym:
        return tfsem.left_vectors(M)[:, :r], True
    a = tfsem.tofloat(M)
    u, s, _ = np.linalg.svd(a, full_matrices=True)
    s = np.concatenate([s, np.zeros(max(0, r + 1 - len(s)))])
    ok = all(s[i] - s[i + 1] > 0.02 * s[0] for i in range(r)) if r < M.shape[0] else all(s[i] - s[i + 1] > 0.02 * s[0] for i in range(r - 1))
    return obj(u[:, :r]), bool(ok)


def outer_cols(U):
    U = S.A(U)
    return [tfsem.matmul(U[:, j:j + 1], tfsem.tr(U[:, j:j + 1])) for j in range(U.shape[1])]


def check_factor(H, name, got, M, r, keep):
    """Each published column is, up to its sign, the corresponding singular vector."""
    U, sep = leading(H, M, r)
    if got.shape != U.shape:
        return H.ok('%s: shape %s' % (name, got.shape), False)
    if sep:
        H.eq(name, outer_cols(got), outer_cols(U), tol=5e-3, keep=keep)
    n = U.shape[1]
    H.eq(name + ': orthonormal columns', S.gram(got), obj(np.eye(n)), tol=2e-3, keep=keep)
    return sep


def c18(H, algo, shape, ranks, K, vint=-1):
    X = data(H, shape)
    Xo = S.A(X)
    n = len(shape)
    KK = steps_of(H, K) if algo == 'HOOI' else 1
    m = build(algo, X, ranks, **model_args(algo, NEVER, vint, False))
    hos = [leading(H, S.unfold(Xo, i), ranks[i]) for i in range(n)]
    cur, sep = [u for u, _ in hos], all(o for _, o in hos)
    for k in range(1, KK + 1):
        p = train(H, algo, m, k)
        if not H.sym and not p.finite():
            return
        keep = names(*p.arrays())
        if k <= K:
            H.observe([p.full])
        for i in range(n):
            if algo == 'HOSVD':
                M = S.unfold(Xo, i)
            else:
                ax = [j for j in range(n) if j != i]
                M = S.unfold(S.ttm(Xo, [cur[j] for j in ax], ax, transpose=True), i)
            if not sep and algo == 'HOOI':
                return
            sep = check_factor(H, 'step %d: factor %d' % (k, i), p.factors[i], M, min(ranks[i], shape[i]), keep) and sep
            cur[i] = p.factors[i]
        H.eq('step %d: core' % k, p.core, S.ttm(Xo, p.factors, transpose=True), tol=2e-3, keep=keep)


@prop('C18', 'orders 2..4, dimensions 1..3, rank tuples up to the dimensions (for HOOI no rank above the product of the others); HOOI up to 4 steps', 'more steps; equal singular values (the vectors are '
      'then not unique)', [REAL, 'svd gives singular vectors that are a function of the Gram matrix'])
def c18_cases(tier):
    cfg = [('HOSVD', (2, 3), (1, 2), 1), ('HOSVD', (3, 2, 2), (2, 1, 2), 1), ('HOSVD', (2, 3, 2), (2, 2, 1), 1), ('HOSVD', (1, 2, 1, 2), (1, 1, 1, 2), 1),
           ('HOOI', (2, 3), (1, 1), 3), ('HOOI', (2, 2), (1, 1), 3), ('HOOI', (3, 2, 2), (2, 1, 2), 2), ('HOOI', (2, 3, 2), (1, 2, 2), 2),
           ('HOOI', (1, 2, 1, 2), (1, 1, 1, 1), 2), ('HOOI', (1, 2, 2, 2), (1, 1, 1, 1), 1), ('HOSVD', (2, 1, 2, 2), (1, 1, 2, 2), 1),
           ('HOOI', (1, 2), (1, 1), 4)]
    if tier != 'quick':
        cfg += [('HOSVD', (3, 3, 3), (2, 2, 2), 1), ('HOOI', (3, 3, 3), (2, 2, 2), 2), ('HOOI', (2, 2, 2, 2), (1, 2, 2, 2), 3)]
    return [Case('%s %s ranks %s, %d steps' % (a, sh(s), sh(r), k), c18, dict(algo=a, shape=s, ranks=r, K=k, vint=(-1, 2, 5)[i % 3]), timeout=400, feas=400,
                 hunts=wider18())
            for i, (a, s, r, k) in enumerate(cfg)]


# ---------------------------------------------------------------- C19
import contextlib


@contextlib.contextmanager
def schedule(H, which):
    """'any': every order the dependencies allow; 'one': the creation order; 'other': the reverse of the counterexample's edges."""
    old = CONF.sched, CONF.smt_order, H.edges, CONF.draws
    if H.sym:
        CONF.sched = None if which == 'any' else 'creation'
        CONF.smt_order = which == 'any'
    elif which == 'one':
        H.edges = ()
    elif which == 'other':
        H.edges = [(b, a) for a, b in H.edges]
    try:
        with tf1.Graph().as_default():
            yield
    finally:
        CONF.sched, CONF.smt_order, H.edges, CONF.draws = old


def compare(H, name, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not H.sym and not all(math.isfinite(float(lift(t).c)) for t in np.asarray(y).flat):
            continue
        H.eq('%s: result %d' % (name, i), x, y, tol=1e-4)


def c19(H, algo, shape, rank, K, vint=-1, pattern=None):
    X = data(H, shape)
    Xo = S.A(X)

    def go():
        m = build(algo, X, rank, **model_args(algo, NEVER, vint, False))
        p = train(H, algo, m, K)
        return p.everything() + ([p.rows()] if p.hist else [])
    with schedule(H, 'one'):
        ref = go()
    with schedule(H, 'any'):
        got = go()
    if H.sym:
        H.observe(got)
    compare(H, 'any order', got, ref)
    if not H.sym and H.edges:
        with schedule(H, 'other'):
            compare(H, 'another order', go(), ref)


@prop('C19', 'CP, non-negative CP, HOSVD, HOOI, non-negative Tucker, orders 2..4, runs of 3 steps; all pairs of accesses to one variable in '
      'every session run', 'more than two unordered pairs in one run are explored together in two orders, not pair by pair',
      [REAL, 'a read of a reference variable sees the value present when its consumer runs (checked against the installed TensorFlow)'])
def c19_cases(tier):
    cfg = [('CP', (2, 3), 2), ('CP', (2, 1, 2), 1), ('CP', (1, 2, 1, 2), 2), ('NCP', (2, 3), 2), ('NCP', (1, 2, 2), 2), ('NCP', (1, 2, 1, 2), 1),
           ('HOSVD', (2, 3, 2), (1, 2, 2)), ('HOOI', (2, 2), (1, 1)), ('HOOI', (2, 1, 2), (1, 1, 1)), ('HOOI', (1, 2, 1, 2), (1, 1, 1, 1)),
           ('NTUCKER', (2, 3), (2, 2)), ('NTUCKER', (1, 2, 2), (1, 2, 1)), ('NTUCKER', (1, 2, 1, 2), (1, 1, 1, 1))]
    return [Case('%s %s' % (a, sh(s)), c19, dict(algo=a, shape=s, rank=r, K=3, vint=(-1, 1, 2)[i % 3]), timeout=500, feas=400, replays=2,
                 hunts=[(dict(shape=(3, 4, 3, 3)[:len(s)], rank=2 if a in ('CP', 'NCP') else (2,) * len(s), K=k), None, n)
                        for k, n in ((5, 6), (40, 3))] +
                 [(dict(shape=(6, 7, 8, 4)[:len(s)], rank=2 if a in ('CP', 'NCP') else (2,) * len(s), K=6), 'spike', 4)] * (len(s) > 2))
            for i, (a, s, r) in enumerate(cfg)]


# ---------------------------------------------------------------- C25
class Boom(Exception):
    pass


def c25(H, algo, shape, rank, K, other=1, vint=-1, fail=False):
    X, X2 = data(H, shape), None
    prov = Provider(X)
    env = Environment(prov, summary_path='unused')
    m = CLS[algo](env)
    idx = (0,) * len(shape)

    def untrained(when):
        H.ok(when + ': train_finish is false', not m.train_finish)
        H.ok(when + ': nothing is published', m.full is None and m.factors is None and
             all(getattr(m, a, None) is None for a in ('lambdas', 'core') if hasattr(type(m), a)))
        H.raises(when + ': predict refuses', TensorErr, lambda: m.predict(*idx))
    untrained('new model')
    args = model_args(algo, H_tol(H), vint, False)
    make = dict(CP=CP_ALS.CP_Args, NCP=NCP_BCU.NCP_Args) if algo in ('CP', 'NCP') else \
        dict(NTUCKER=NTUCKER_BCU.NTUCKER_Args, HOOI=HOOI.HOOI_Args, HOSVD=HOSVD.HOSVD_Args)
    m.build_model(make[algo](rank if algo in ('CP', 'NCP') else list(rank), **args))
    untrained('built model')

    def trained(when, p):
        H.ok(when + ': train_finish is true', m.train_finish is True)
        H.ok(when + ': shape', tuple(np.shape(m.full)) == tuple(shape))
        for i in np.ndindex(*shape):
            H.eq('%s: predict%s' % (when, list(i)), obj(np.array(lift(m.predict(*i)), dtype=object)), obj(np.array(p.full[i], dtype=object)))
    # the results a model of its own has with the second draws
    with tf1.Graph().as_default():
        m0 = CLS[algo](Environment(prov, summary_path='unused'))
        m0.build_model(make[algo](rank if algo in ('CP', 'NCP') else list(rank), **args))
        p0 = train(H, algo, m0, K)
    if not H.sym and not p0.finite():
        return
    H.observe([p0.full])
    CONF.rnd_name = lambda o, n: 'first:%s:%d' % (o.name, n)
    p = train(H, algo, m, other)
    CONF.rnd_name = None
    if not H.sym and not p.finite():
        return
    trained('after training', p)
    q = train(H, algo, m, K)
    if not H.sym and not q.finite():
        return
    trained('after training again', q)
    # the second training knows nothing of the first
    for i, (a, b) in enumerate(zip(q.everything(), p0.everything())):
        H.eq('training again: result %d' % i, a, b, tol=2e-3)
    H.ok('training again: history', (p0.hist is None and q.hist is None) or len(p0.hist) == len(q.hist))
    if p0.hist and len(p0.hist) == len(q.hist) and (H.sym or all(float(r[1].c) > 1e-3 for r in q.hist)):
        H.eq('training again: rows of the history', p0.rows(), q.rows(), tol=2e-3)
    if not fail:
        return
    at = H.integer('failing run', 0, K)

    def fault(sess, n):
        if n == int(at):
            raise Boom()
    CONF.fault = fault
    try:
        H.raises('failing training: the error reaches the caller', Boom, lambda: m.train(K))
        H.ok('failing training: train_finish is false', not m.train_finish)
    finally:
        CONF.fault = None


def H_tol(H):
    return H.value('tol', lo=-1, hi=2) if H.sym else float(H.value('tol', lo=-1, hi=2).c)


@prop('C25', 'CP, non-negative CP, HOSVD, HOOI, non-negative Tucker; orders 2..4, up to 2 steps, every tolerance, every index, two trainings of one '
      'model and a third one that fails in any of its session runs', 'longer call sequences', [REAL])
def c25_cases(tier):
    cfg = [('CP', (1, 2), 1, 2, 1), ('CP', (1, 2), 1, 1, 2), ('CP', (2, 3, 2), 2, 1, 1), ('CP', (1, 2, 1, 2), 1, 1, 1), ('NCP', (1, 2), 1, 2, 1),
           ('NCP', (1, 2), 1, 1, 2), ('NCP', (2, 1, 3), 2, 1, 1), ('HOSVD', (2, 3), (1, 2), 0, 1), ('HOSVD', (2, 1, 3), (1, 1, 2), 0, 1),
           ('HOOI', (1, 2), (1, 1), 2, 1), ('HOOI', (1, 2), (1, 1), 1, 2), ('HOOI', (2, 1, 3), (2, 1, 2), 1, 1), ('NTUCKER', (1, 2), (1, 1), 2, 1),
           ('NTUCKER', (1, 2), (1, 1), 1, 2), ('NTUCKER', (2, 1, 3), (1, 1, 2), 1, 1)]
    return [Case('%s %s, %d steps after %d' % (a, sh(s), k, o), c25,
                 dict(algo=a, shape=s, rank=r, K=k or 1, other=o, vint=(-1, 2)[i % 2], fail=k <= 1 and o == 1), timeout=500,
                 feas=400, weight=k + o) for i, (a, s, r, k, o) in enumerate(cfg)]
