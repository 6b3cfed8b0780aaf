"""Harness: one case function, executed symbolically (decided by the solver), numerically through the same encoding
(translation validation), or for real on TensorFlow / numpy (replay of counterexamples)."""
import builtins
import contextlib
import io
import math
import os
import random
import time
import traceback
import zlib
from fractions import Fraction

from .boot import np, tf1, z3
from . import core, session, tfsem
from .core import (R, B, CTX, STATS, Unsupported, Inconclusive, PathAbort, Explorer, query, cone, lift, obj, bz, som, z3num)
from .session import CONF

HEAVY = frozenset(core.BASE_TAGS | {'heavy', 'svd', 'rec', 'pinv', 'def'})


class Obligation:
    def __init__(self, name, neg, pc, keep=None, note='', assume=(), hide=()):
        self.name, self.neg, self.pc, self.keep, self.note = name, neg, pc, keep, note
        self.hide = [e for e in hide]
        self.assume = list(assume)
        ex = CTX.explorer
        self.edges = [e for e in dict.fromkeys(ex.edges) if not any(e[1] in n and e[0] not in n for n in ex.needs)] if ex else []


class Mismatch(Exception):
    pass


class H:
    def __init__(self, mode, values=None, seed=1, script=None):
        self.mode = mode
        self.values = dict(values or {})
        self.rng = random.Random(seed)
        self.obligations = []
        self.failures = []       # real mode: violated obligations
        self.observed = []       # numeric results, for translation validation
        self.used = {}
        self.feeds = {}
        self.script = script
        self.reach = 0
        self.assumptions = []
        self.tol = 1e-6
        self.skipped = False
        self.deep = 0            # real mode: how much further than the symbolic bounds a replay looks
        self.style = None        # real mode: the shape of the data a wider replay tries
        self.edges = ()          # real mode: extra control edges, the schedule of a counterexample

    @property
    def sym(self):
        return self.mode == 'sym'

    # -- inputs
    def value(self, name, lo=None, hi=None, integer=False, nonzero=False):
        if self.mode == 'sym':
            return core.new_input(name, lo, hi, integer, nonzero)
        if name not in self.values:
            if integer:
                v = self.rng.randint(lo if lo is not None else -3, hi if hi is not None else 3)
            else:
                a = -2.0 if lo is None else float(lo)
                b = (a + 4.0 if lo is not None else 2.0) if hi is None else float(hi)
                v = round(self.rng.uniform(a, b), 3)
                if nonzero and v == 0:
                    v = (a + b) / 2 or 1.0
            self.values[name] = v
        v = self.values[name]
        self.used[name] = v
        return R(int(v)) if integer else R(float(v))

    def arr(self, name, shape, dtype='float64', lo=None, hi=None, integer=False, nonzero=False, zeros=()):
        """A numpy array of inputs as a user would pass it: an object SymArray when symbolic, a plain ndarray otherwise."""
        a = np.empty(shape, dtype=object)
        if self.mode == 'real' and self.style and name == 'x' and not zeros:
            d = styled(self.style, shape, self.rng)
            for i in np.ndindex(*shape):
                v = float(d[i]) if lo is None else max(float(lo), abs(float(d[i])))
                self.values.setdefault('%s%s' % (name, list(i) if shape else ''), v)
        for i in np.ndindex(*shape):
            a[i] = R(0) if i in zeros else self.value('%s%s' % (name, list(i) if shape else ''), lo, hi, integer, nonzero)
        if self.mode == 'real':
            out = np.empty(shape, dtype=dtype)
            for i in np.ndindex(*shape):
                out[i] = a[i].c
            return out
        return core.symarray(a, dtype)

    def tensor(self, name, shape, dtype='float64', **k):
        """A tf.Tensor holding inputs (a placeholder fed in every H.run)."""
        a = self.arr(name, shape, dtype, **k)
        return self.tensor_of(a, dtype)

    def tensor_of(self, a, dtype=None):
        dtype = dtype or (a.tf_dtype if isinstance(a, core.SymArray) else a.dtype.name)
        self.last = a
        if self.mode == 'real':
            t = tf1.placeholder(dtype, shape=np.shape(a))
            self.feeds[t] = np.asarray(a, dtype=dtype)
            return t
        return session.as_tensor(core.symarray(obj(a), dtype), dtype)

    def integer(self, name, lo, hi):
        v = self.value(name, lo, hi, integer=True)
        return v if self.mode == 'sym' else int(v.c)

    # -- execution
    def run(self, fetches, init=False):
        if self.mode == 'real':
            with RealSession() as s:
                if init:
                    s.run(tf1.global_variables_initializer())
                v = s.run(fetches, feed_dict=self.feeds)
        else:
            with session.SymSession() as s:
                if init:
                    s.run(tf1.global_variables_initializer())
                v = s.run(fetches)
        v = to_obj(v)
        self.observe(v)
        return v

    def observe(self, v):
        if self.mode != 'sym':
            self.observed.extend(flat_numbers(v))

    # -- obligations
    def eq(self, name, got, want, tol=None, keep=None, assume=(), hide=()):
        """got == want element-wise; named intermediate values outside `keep` are expanded; the expressions in the arrays
        `hide` count as free variables (which can only make the obligation harder)."""
        got, want = to_obj(got), to_obj(want)
        if isinstance(got, (list, tuple)):
            if len(got) != len(want):
                return self.ok(name + ': length', False)
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq('%s[%d]' % (name, i), g, w, tol, keep, assume, hide)
            return
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.ok('%s: shape %s, expected %s' % (name, got.shape, want.shape), False)
        if got.dtype != object and want.dtype != object:
            return self.ok(name, bool(np.array_equal(got, want)))
        got, want = obj(got), obj(want)
        if self.sym:
            neg = []
            for i in np.ndindex(*got.shape):
                g, w = core.lift(got[i]), core.lift(want[i])
                if g.e is None and w.e is None:
                    if g.c != w.c and abs(g.c - w.c) > 1e-6 * (1 + abs(w.c)):
                        neg.append(z3.BoolVal(True))
                    continue
                neg.append((g.z(), w.z()))
            hid = [x.e for a in hide for x in np.asarray(a).flat if isinstance(x, R) and x.e is not None and core._size(x.e, 3) > 1]
            self._add(Obligation(name, ('eq', neg), self._pc(), keep, assume=assume, hide=hid))
            return
        self.reach += 1
        tol = tol or self.tol
        bad = None
        scale = max([abs(float(w.c)) for w in want.flat if math.isfinite(float(w.c))] + [1e-3])
        for i in np.ndindex(*got.shape):
            g, w = float(got[i].c), float(want[i].c)
            if not math.isfinite(w) and not math.isfinite(g):
                continue
            if not math.isfinite(g) or abs(g - w) > tol * max(scale, abs(w)):
                if math.isfinite(w):
                    bad = (i, g, w)
                    break
        if bad:
            self.failures.append('%s at %s: got %.9g, expected %.9g' % ((name,) + bad))

    def ok(self, name, cond, keep=None, assume=()):
        if isinstance(cond, R):
            cond = cond != 0
        if self.sym:
            neg = ('not', bz(cond))
            self._add(Obligation(name, neg, self._pc(), keep, assume=assume))
            return
        self.reach += 1
        if not bool(cond):
            self.failures.append(name)

    def raises(self, name, exc, fn):
        """fn must raise exc on every path."""
        try:
            fn()
        except PathAbort:
            raise
        except (Unsupported, Inconclusive):
            raise
        except exc:
            return self.ok(name, True)
        except Exception as e:
            return self.ok('%s: raised %s instead (%s)' % (name, type(e).__name__, str(e)[:80]), False)
        return self.ok(name + ': no error was raised', False)

    def assume(self, cond):
        if self.mode == 'sym':
            c = bz(cond)
            if not core.branch_assume(c):
                raise PathAbort()
        elif not bool(cond):
            self.skipped = True
            raise PathAbort()

    def _pc(self):
        return list(CTX.explorer.pc) if CTX.explorer else []

    def _add(self, ob):
        self.obligations.append(ob)


def styled(style, shape, rng):
    """Data on which iterations behave in different ways: low-rank, nearly collinear, sparse, dominated by a few entries, signed."""
    r = np.random.RandomState(rng.randrange(2 ** 31))
    k = min(2, min(shape))

    def outer(fs):
        out = fs[0]
        for f in fs[1:]:
            out = out[..., None, :] * f
        return out.sum(-1)
    if style == 'lowrank':
        return outer([r.rand(n, k) for n in shape])
    if style == 'swamp':
        return outer([np.repeat(r.rand(n, 1), k, axis=1) + 0.15 * r.rand(n, k) for n in shape])
    if style == 'sparse':
        return r.rand(*shape) * (r.rand(*shape) > 0.7)
    if style == 'spiky':
        x = 0.1 * r.randn(*shape)
        for _ in range(2):
            x[tuple(r.randint(n) for n in shape)] += 5
        return x
    if style == 'spike':
        x = 0.01 * r.rand(*shape)
        x[tuple(n // 2 for n in shape)] = 3
        return x
    if style == 'positive':
        return r.rand(*shape)
    return r.randn(*shape)


def to_obj(v):
    if isinstance(v, (list, tuple)):
        return [to_obj(x) for x in v]
    if isinstance(v, tf1.SparseTensorValue):
        return [to_obj(v.indices), to_obj(v.values), to_obj(v.dense_shape)]
    if v is None:
        return None
    if isinstance(v, (R, B)):
        return tfsem.wrap0(v)
    if isinstance(v, (bytes, str)):
        return np.array(0)
    a = np.asarray(v)
    if a.dtype == object:
        if a.size and isinstance(a.flat[0], (bytes, str)):
            return np.array(0)
        return np.asarray(a)
    if a.dtype.kind == 'f':
        return obj(a)
    return a


def flat_numbers(v):
    if v is None:
        return []
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat_numbers(y)]
    out = []
    for x in np.asarray(v).flat:
        if isinstance(x, R):
            out.append(float(x.c))
        elif isinstance(x, B):
            out.append(0.0)
        elif isinstance(x, (bytes, str)):
            pass
        else:
            out.append(float(x))
    return out


# ---------------------------------------------------------------- the real session
class RealSession(tfsem.REAL_SESSION):
    """TensorFlow's own session; random operations are fed the values of the counterexample."""
    current = None       # the H in real mode

    def __init__(self, target='', graph=None, config=None):
        if config is None:
            config = tf1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
        super().__init__(target, graph=graph, config=config)
        self._counts = {}
        self._runs = 0
        force_schedule(self.graph)
        self._script_vals = {}

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        h = RealSession.current
        idx = self._runs
        self._runs += 1
        if CONF.on_run is not None:
            CONF.on_run(self, idx)
        if CONF.fault is not None:
            CONF.fault(self, idx)
        if h is None:
            return super().run(fetches, feed_dict=feed_dict)
        if h.script is not None:
            return scripted(self, h, idx, fetches)
        feed = dict(feed_dict or {})
        try:
            _, leaves = session.flatten_fetches(self.graph, fetches)
            need = session.order_ops(leaves, {session.tkey(self.graph.as_graph_element(k)): 1 for k in feed})
        except Exception:
            need = {}
        for n, (o, _) in sorted(need.items()):
            if o.type in session.RANDOM:
                c = self._counts.get(n, 0)
                self._counts[n] = c + 1
                v = random_numeric(h, o, c)
                if v is not None:
                    if CONF.draws is not None:
                        CONF.draws.append((o.name, c, v))
                    feed[o.outputs[0]] = v
        for t, v in h.feeds.items():
            if t.graph is self.graph:
                feed.setdefault(t, v)
        r = super().run(fetches, feed_dict=feed or None)
        if CONF.record is not None:
            _, leaves = session.flatten_fetches(self.graph, fetches)
            CONF.record.append((self, idx, leaves, flatten_values(r)))
        return r


def flatten_values(v):
    if isinstance(v, dict):
        return [y for x in v.values() for y in flatten_values(x)]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flatten_values(x)]
    return [v]


def force_schedule(graph):
    """Makes TensorFlow execute the schedule of a counterexample: control edges, one per unordered pair of accesses."""
    h = RealSession.current
    if h is None or not h.edges or getattr(graph, '_vcheck_edges', False):
        return
    graph._vcheck_edges = True
    for a, b in h.edges:
        try:
            x, y = graph.get_operation_by_name(a), graph.get_operation_by_name(b)
        except KeyError:
            continue
        if x is not y and not depends(x, y):
            y._add_control_input(x)


def depends(x, y):
    """Does operation x (transitively) need y?"""
    seen, todo = set(), [x]
    while todo:
        o = todo.pop()
        if o is y:
            return True
        if o.name in seen:
            continue
        seen.add(o.name)
        todo.extend(t.op for t in o.inputs)
        todo.extend(o.control_inputs)
    return False


def scripted(sess, h, idx, fetches):
    """Replays the session results of a counterexample (the training loop itself runs for real)."""
    rebuild, leaves = session.flatten_fetches(sess.graph, fetches)
    key = (h.script['sess'].setdefault(id(sess), len(h.script['sess'])), idx)
    rec = h.script['runs'].get(key)
    if rec is None:
        raise Mismatch('the run took another path')
    out = []
    for e in leaves:
        if isinstance(e, tf1.Operation):
            out.append(None)
        elif e.name in rec:
            out.append(rec[e.name])
        else:
            raise Mismatch('unknown fetch')
    return rebuild(out)


def constant_of(t):
    """The value of an input of a random operation, computed by TensorFlow when it is no literal constant."""
    from tensorflow.python.framework import tensor_util
    v = tensor_util.constant_value(t)
    if v is None:
        s = tfsem.REAL_SESSION(graph=t.graph)
        try:
            v = s.run(t)
        except Exception:
            v = None
        s.close()
    return v


def random_numeric(h, o, n):
    try:
        shape = [int(x) for x in constant_of(o.inputs[0]).reshape(-1)]
    except Exception:
        return None
    name = session.rnd_name(o, n)
    integer = o.type == 'RandomUniformInt'
    out = np.empty(shape, dtype=o.outputs[0].dtype.as_numpy_dtype)
    for i in np.ndindex(*shape):
        nm = '%s%s' % (name, list(i) if shape else '')
        if integer:
            lo = constant_of(o.inputs[1])
            hi = constant_of(o.inputs[2])
            if lo is None or hi is None:
                return None
            v = h.value(nm, lo=int(lo), hi=int(hi) - 1, integer=True)
        elif 'Uniform' in o.type:
            v = h.value(nm, lo=0, hi=1)
        else:
            v = h.value(nm)
        out[i] = v.c
    return out


# ---------------------------------------------------------------- mode switching
@contextlib.contextmanager
def mode_sym(numeric=False, h=None):
    session.install()
    session.FEEDS.clear()
    core.NUMERIC[0] = numeric
    old = CONF.forced_rnd
    if numeric:
        def forced(o, n, shape, ins):
            out = np.empty(shape, dtype=object)
            name = session.rnd_name(o, n)
            for i in np.ndindex(*shape):
                nm = '%s%s' % (name, list(i) if shape else '')
                if o.type == 'RandomUniformInt':
                    out[i] = h.value(nm, lo=session.ints1(ins[1]), hi=session.ints1(ins[2]) - 1, integer=True)
                elif 'Uniform' in o.type:
                    out[i] = h.value(nm, lo=0, hi=1)
                else:
                    out[i] = h.value(nm)
            return tfsem.settle(out, tfsem.dt(o.outputs[0]))
        CONF.forced_rnd = forced
    try:
        yield
    finally:
        CONF.forced_rnd = old
        core.NUMERIC[0] = False
        session.uninstall()


@contextlib.contextmanager
def mode_real(h):
    session.uninstall()
    old = tf1.Session, tf1.summary.FileWriter
    tf1.Session = RealSession
    tf1.summary.FileWriter = session.NullWriter
    RealSession.current = h
    core.NUMERIC[0] = True
    try:
        yield
    finally:
        tf1.Session, tf1.summary.FileWriter = old
        RealSession.current = None
        core.NUMERIC[0] = False


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def fresh_graph():
    return tf1.Graph().as_default()


SHIMS = []      # context manager factories (npsym installs itself here): f(mode) -> context manager


def execute(fn, h, params):
    """Runs the case function once in the mode of h, in a new graph."""
    with contextlib.ExitStack() as st:
        if h.mode == 'sym':
            st.enter_context(mode_sym())
        elif h.mode == 'interp':
            st.enter_context(mode_sym(True, h))
        else:
            st.enter_context(mode_real(h))
        st.enter_context(fresh_graph())
        for s in SHIMS:
            st.enter_context(s(h))
        st.enter_context(quiet())
        CONF.on_run = CONF.fault = None
        CONF.draws = []
        CONF.record = CONF.rnd_name = CONF.summaries = None
        CONF.sched, CONF.smt_order = None, False
        np.random.seed(h.rng.randrange(2 ** 31))
        fn(h, **params)


# ---------------------------------------------------------------- deciding
class Case:
    def __init__(self, name, fn, params=None, validate=True, fork=True, timeout=120, replays=4, qtime=20, tier='quick', weight=1,
                 max_paths=4000, cut=True, feas=5000, hunts=(), hunt_time=90):
        self.hunts, self.hunt_time = hunts, hunt_time      # wider replays: (parameters, style of the data, number of seeds)
        self.feas = feas
        self.name, self.fn, self.params = name, fn, params or {}
        self.validate, self.timeout, self.replays, self.qtime, self.tier = validate, timeout, replays, qtime, tier
        self.weight, self.max_paths, self.cut = weight, max_paths, cut


def neg_formula(ob, do_expand):
    kind, body = ob.neg
    if kind == 'not':
        e = z3.Not(body)
        return session.expand(e, ob.keep) if (do_expand and ob.keep is not None) else e
    parts = []
    for p in body:
        if isinstance(p, tuple):
            g, w = p
            if do_expand and ob.hide:
                sub = hidden(ob.hide)
                g, w = z3.substitute(g, *sub), z3.substitute(w, *sub)
            if do_expand and ob.keep is not None:
                g = session.expand(top_def(g), ob.keep)
                w = session.expand(w, ob.keep)
            if g.get_id() == w.get_id():
                continue
            if core._size(g, 20000) + core._size(w, 20000) < 40000:
                g1, w1 = core.norm_ite(g), core.norm_ite(w)
                if g1.get_id() == w1.get_id():
                    continue
                if (core._has_ite(g) or core._has_ite(w)) and core.ind_zero(g - w):
                    continue
            d = som(g - w) if core._size(g, 6000) + core._size(w, 6000) < 12000 else z3.simplify(g - w)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                continue
            if z3.is_rational_value(d):
                parts.append(z3.BoolVal(True))
            else:
                parts.append(g != w)
        else:
            parts.append(p)
    return z3.Or(parts) if parts else z3.BoolVal(False)


def hidden(es):
    out = []
    for e in es:
        k = ('hide', e.get_id())
        if k not in CTX.memo:
            CTX.memo[k] = (e, CTX.fresh('hid')[0])
        out.append((e, CTX.memo[k][1]))
    return sorted(out, key=lambda p: -core._size(p[0], 100000))


def top_def(g):
    if z3.is_const(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED and g.decl().name() in CTX.defs:
        return CTX.defs[g.decl().name()][1]
    return g


def refs_closed(fs, tags):
    return cone(fs, tags)


def decide(ob, qtime):
    """('unsat'|'sat'|'unknown', models): the verdict of the solver, first over the light facts, then over all of them."""
    ms = int(qtime * 1000)
    neg = neg_formula(ob, True)
    fs = [neg] + list(ob.pc) + list(ob.assume)
    base = fs + cone(fs, core.BASE_TAGS)
    if ob.neg[0] == 'not' and core._has_ite(neg) and core._size(neg, 60) >= 40:
        # every arithmetic term without a choice in it as an arbitrary number: a stronger statement, and a small query
        r, m = query([abstracted(neg)], ms // 8)
        if r == 'unsat':
            return 'unsat', []
    r, m = query([neg] + list(ob.assume), ms // 4)
    if r == 'unsat':
        return 'unsat', []
    if r == 'unknown' and z3.is_or(neg) and neg.num_args() > 1:
        # entry by entry; what is left is asked about together
        left = []
        for d in neg.children():
            if core._has_ite(d) and query([abstracted(d)], ms // 8)[0] == 'unsat':
                continue
            if query([d] + list(ob.assume), ms // 8)[0] == 'unsat':
                continue
            left.append(d)
            if len(left) > 3:
                break
        else:
            if not left:
                return 'unsat', []
            fs = [z3.Or(left)] + list(ob.pc) + list(ob.assume)
            base = fs + cone(fs, core.BASE_TAGS)
    r, m = query(base, ms)
    if r == 'unsat':
        return 'unsat', []
    models = [m] if r == 'sat' else []
    rec = fs + cone(fs, core.BASE_TAGS | {'rec'})
    if len(rec) > len(base):
        r2, _ = query(rec, ms // 2)
        if r2 == 'unsat':
            return 'unsat', []
    full = fs + cone(fs, HEAVY)
    if len(full) > len(base):
        r2, m2 = query(full, ms)
        if r2 == 'unsat':
            return 'unsat', []
        if r2 == 'sat':
            models.insert(0, m2)
        r = r2 if r2 == 'sat' else r
    return r, models


def abstracted(e):
    """e with every maximal arithmetic subterm that holds no if-then-else replaced by a variable of its own."""
    memo = {}

    def go(x):
        i = x.get_id()
        if i not in memo:
            if z3.is_arith(x) and not z3.is_rational_value(x) and not z3.is_int_value(x) and not core._has_ite(x):
                memo[i] = x, z3.FreshConst(x.sort(), 'g')
            elif x.num_args() == 0:
                memo[i] = x, x
            else:
                memo[i] = x, x.decl()(*[go(c) for c in x.children()])
        return memo[i][1]
    return go(e)


def as_number(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(12).as_fraction()
    return None


def model_values(m):
    out = {}
    for name, (v, meta) in CTX.inputs.items():
        x = m.eval(v, model_completion=False)
        n = as_number(x)
        if n is not None:
            out[name] = int(n) if meta['integer'] else float(n)
    return out


def nice_models(ob, first, qtime, k):
    """Counterexamples in comfortable ranges, so that floating point reproduces them."""
    out = []
    neg = neg_formula(ob, True)
    fs = [neg] + list(ob.pc) + list(ob.assume)
    base = fs + cone(fs, core.BASE_TAGS)
    names = [n for n in core.atoms(*base) if n in CTX.inputs]
    rnd = random.Random(7)
    big = None
    kind, body = ob.neg
    if kind == 'eq':
        ds = []
        for p in body:
            if isinstance(p, tuple):
                g, w = p
                if ob.keep is not None:
                    g, w = session.expand(top_def(g), ob.keep), session.expand(w, ob.keep)
                ds.append(z3.Or(g - w >= z3num(Fraction(1, 4)), w - g >= z3num(Fraction(1, 4))))
        if ds:
            big = z3.Or(ds)
    for attempt in range(k):
        extra = []
        for n in names:
            v, meta = CTX.inputs[n]
            if meta['integer']:
                continue
            lo = meta['lo'] if meta['lo'] is not None else -3
            hi = meta['hi'] if meta['hi'] is not None else (lo + 4)
            extra += [v >= z3num(Fraction(lo)), v <= z3num(Fraction(hi))]
            if attempt % 2 == 0:
                extra += [v != 0]
        if attempt == 1:
            for n in rnd.sample(names, len(names) // 2):
                v, meta = CTX.inputs[n]
                if not meta['integer']:
                    extra.append(v >= z3num(Fraction(1, 8)))
        if big is not None and attempt < 2:
            extra.append(big)
        r, m = query(base + extra, min(4000, int(qtime * 1000)))
        if r == 'sat':
            out.append(m)
    return out + first


class Outcome:
    def __init__(self):
        self.violation = None
        self.inconclusive = []
        self.obligations = self.discharged = self.paths = 0
        self.validated = self.validation_mismatch = 0
        self.vacuity = self.infeasible = 0
        self.sample = None
        self.race_pairs = 0


def run_case(case, seed=1, deadline=None):
    """Explores a case symbolically and decides every obligation; counterexamples are replayed on the real code."""
    out = Outcome()
    CTX.reset_all()
    CONF.cut = case.cut
    random.seed(seed)
    state = {}

    def once():
        h = H('sym', seed=seed)
        state['h'] = h
        try:
            execute(case.fn, h, case.params)
        except (PathAbort, Unsupported, Inconclusive):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-3:]
            h.obligations.append(Obligation('unexpected %s: %s (%s)' % (type(e).__name__, str(e).split('\n')[0][:160], ' < '.join(reversed(where))),
                                            ('not', z3.BoolVal(False)), h._pc()))
        return h

    ex = Explorer(max_paths=case.max_paths, feas_timeout=case.feas)
    try:
        for pc, h in ex.explore(once):
            out.paths += 1
            if not h.obligations:
                out.inconclusive.append('a path reached no assertion')
                continue
            if out.vacuity < 2:
                fs = list(pc)
                r, _ = query(fs + cone(fs, core.BASE_TAGS), 8000)
                if r == 'unsat':
                    out.infeasible += 1
                    continue
                out.vacuity += 1
            for ob in h.obligations:
                out.obligations += 1
                verdict, models = decide(ob, case.qtime)
                if verdict == 'unsat':
                    out.discharged += 1
                    if out.sample is None:
                        out.sample = ob.name
                    continue
                hit = try_replay(case, ob, verdict, models, seed)
                if hit:
                    out.violation = hit
                    return out
                out.inconclusive.append('%s: %s not reproduced on the real code' % (ob.name, verdict))
                if len(out.inconclusive) > 3:
                    return out
            if deadline and time.time() > deadline:
                out.inconclusive.append('out of time after %d paths' % out.paths)
                return out
    except (Unsupported, Inconclusive) as e:
        tb = traceback.extract_tb(e.__traceback__)
        out.inconclusive.append('%s: %s (%s)' % (type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])))
        return out
    if out.infeasible and not out.vacuity:
        out.inconclusive.append('no input reaches an assertion')
    out.race_pairs = getattr(STATS, 'race_pairs', 0)
    if case.validate:
        validate(case, out, seed)
    return out


def try_replay(case, ob, verdict, models, seed):
    cands = [model_values(m) for m in nice_models(ob, models, case.qtime, 3)]
    cands += [{n: (v if CTX.inputs[n][1]['integer'] else None) for n, v in c.items()} for c in cands[:1]]
    cands += [{}] * case.replays
    edges = ob.edges
    for n, vals in enumerate(cands):
        vals = {k: v for k, v in vals.items() if v is not None}
        deep = 0 if n == 0 else 1
        h = replay_once(case, vals, seed + n, deep, edges)
        if h is not None and h.failures:
            return dict(case=case.name, obligation=ob.name, verdict=verdict, values=h.used, seed=seed + n, failures=h.failures[:5],
                        from_solver=bool(vals), deep=deep, edges=edges)
    return hunt(case, ob, verdict, seed)


HUNTED = set()


def hunt(case, ob, verdict, seed):
    """The counterexample did not reproduce as it is (it lives in the contracts of the decompositions): look for a concrete one on
    larger and longer runs of the same case."""
    key = case.name, tuple(ob.edges)
    if key in HUNTED:
        return None
    HUNTED.add(key)
    seed += zlib.crc32(case.name.encode()) % 1000 * 100
    t = time.time()
    for s in range(max([n for _, _, n in case.hunts] or [0])):
        for params, style, n in case.hunts:
            if s >= n or time.time() - t > case.hunt_time:
                continue
            full = dict(case.params, **params)
            h = replay_once(case, {}, seed + s, 1, ob.edges, full, style)
            if h is not None and h.failures:
                return dict(case=case.name, obligation=ob.name, verdict=verdict, values=h.used, seed=seed + s, failures=h.failures[:5],
                            from_solver=False, deep=1, edges=ob.edges, params=params, style=style)
    return None


def replay_once(case, vals, seed, deep=0, edges=(), params=None, style=None):
    h = H('real', vals, seed)
    h.style = style
    h.deep, h.edges = deep, [tuple(e) for e in edges]
    try:
        execute(case.fn, h, case.params if params is None else params)
    except PathAbort:
        pass
    except Mismatch:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        h.failures.append('unexpected %s: %s (%s)' % (type(e).__name__, str(e).split('\n')[0][:200],
                                                     ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))))
    return h


def validate(case, out, seed):
    for n in range(3):
        before = out.validated, out.validation_mismatch, out.violation
        validate1(case, out, seed + 100 * n)
        if before != (out.validated, out.validation_mismatch, out.violation):
            return


def validate1(case, out, seed):
    """Translation validation: the encoding, evaluated on numbers, against the real code on the same numbers."""
    CTX.reset_all()
    hi = H('interp', seed=seed)
    try:
        execute(case.fn, hi, case.params)
    except PathAbort:
        return
    except Unsupported as e:
        return
    hr = H('real', hi.values, seed)
    execute(case.fn, hr, case.params)
    a, b = hi.observed, hr.observed
    if not a and not b:
        return
    if hr.failures:
        out.violation = dict(case=case.name, obligation='concrete validation run', verdict='validation', values=hr.used, seed=seed,
                             failures=hr.failures[:5], from_solver=False)
        return
    same = len(a) == len(b)
    if same:
        for x, y in zip(a, b):
            if math.isfinite(x) and math.isfinite(y) and abs(x - y) > 2e-3 * max(1.0, abs(x), abs(y)):
                same = False
    if same:
        out.validated += 1
    else:
        out.validation_mismatch += 1
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if abs(x - y) > 2e-3 * max(1.0, abs(x), abs(y))), -1)
        out.inconclusive.append('translation validation: %d/%d values, first difference at %d (%s)' % (
            len(a), len(b), k, (a[k], b[k]) if k >= 0 else ''))
