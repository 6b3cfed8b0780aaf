"""A symbolic tf.Session: executes the subgraph a run needs, operation by operation, over symbolic values.

Reference variables follow the semantics of TensorFlow 1 (checked against the installed runtime): a read (Identity and the
other buffer-forwarding operations) aliases the variable's buffer, so the value is the one present when the CONSUMER runs.
A reader and a writer of one variable that no data or control dependency orders may run in either order: both orders are
explored (a path fork per unordered pair)."""
import itertools

from tensorflow.python.framework import tensor_conversion_registry

from .boot import np, tf1, z3
from . import core, tfsem
from .core import R, B, Unsupported, CTX, STATS, obj, has_symbols, is_sym
from .tfsem import isfloat, dt

VAR_OPS = ('VariableV2', 'Variable', 'TemporaryVariable')
RES_OPS = ('VarHandleOp',)
ALIAS = ('Identity', 'Reshape', 'ExpandDims', 'Squeeze', 'RefIdentity', 'StopGradient', 'EnsureShape')
REF_WRITE = ('Assign', 'AssignAdd', 'AssignSub', 'ScatterUpdate', 'ScatterAdd', 'ScatterSub', 'ScatterMul', 'ScatterNdUpdate',
             'ScatterNdAdd')
RES_WRITE = ('AssignVariableOp', 'AssignAddVariableOp', 'AssignSubVariableOp')
RANDOM = ('RandomUniform', 'RandomStandardNormal', 'TruncatedNormal', 'RandomUniformInt', 'StatelessRandomUniform',
          'StatelessRandomUniformV2', 'StatelessRandomNormal', 'StatelessRandomNormalV2')


class Alias:
    """A value that aliases a variable's buffer, seen through a chain of buffer-forwarding operations."""

    def __init__(self, cell, f=None):
        self.cell, self.f = cell, f

    def get(self):
        v = self.cell.value
        if v is None:
            raise tf1.errors.FailedPreconditionError(None, None, 'Attempting to use uninitialized value ' + self.cell.name)
        return self.f(v) if self.f else v


class Cell:
    def __init__(self, name):
        self.name, self.value = name, None


class RunRecord:
    def __init__(self, fetches, values, order):
        self.fetches, self.values, self.order = fetches, values, order


# settings of the current harness
class Conf:
    cut = True               # assignments introduce named intermediate values (SSA)
    forced_rnd = None        # callable(op, count, shape) -> array or None
    sched = None
    log = None               # list collecting (session, run index, ops executed)
    on_run = None            # called before every run
    fault = None             # (run index) -> exception raised instead of running
    races = None             # list collecting (reader, writer, variable)
    record = None
    draws = None             # random draws, in order: (operation, count, array)
    smt_order = False        # decide the order of conflicting accesses with the solver
    rnd_name = None          # (random operation, count) -> the name of its values, where several graphs have to agree
    summaries = None         # list collecting the written summaries: (path, step, [(tag, value)])


CONF = Conf()


def flatten_fetches(g, f):
    """(structure rebuilder, list of tensors/ops)."""
    leaves = []

    def go(x):
        if isinstance(x, dict):
            ks = list(x)
            subs = [go(x[k]) for k in ks]
            return lambda vals: type(x)((k, s(vals)) for k, s in zip(ks, subs))
        if isinstance(x, (list, tuple)) and not isinstance(x, (tf1.SparseTensor, tf1.SparseTensorValue)):
            subs = [go(y) for y in x]
            if hasattr(x, '_fields'):
                return lambda vals: type(x)(*[s(vals) for s in subs])
            return lambda vals: type(x)(s(vals) for s in subs) if isinstance(x, tuple) else [s(vals) for s in subs]
        if isinstance(x, tf1.SparseTensor):
            subs = [go(y) for y in (x.indices, x.values, x.dense_shape)]
            return lambda vals: tf1.SparseTensorValue(*[s(vals) for s in subs])
        if x is None:
            raise TypeError("Fetch argument None has invalid type <class 'NoneType'>")
        e = g.as_graph_element(x, allow_tensor=True, allow_operation=True)
        i = len(leaves)
        leaves.append(e)
        return lambda vals: vals[i]
    s = go(f)
    return s, leaves


def order_ops(leaves, fed):
    """The operations a run executes, in creation order, with their dependency sets."""
    need, todo = {}, []
    for e in leaves:
        if isinstance(e, tf1.Operation):
            todo.append(e)
        elif e not in fed:
            todo.append(e.op)
    while todo:
        o = todo.pop()
        if o.name in need:
            continue
        deps = []
        for t in o.inputs:
            if tkey(t) not in fed:
                deps.append(t.op)
        deps.extend(o.control_inputs)
        need[o.name] = (o, deps)
        todo.extend(deps)
    return need


def tkey(t):
    return t.name


class SymSession:
    _stack = []

    def __init__(self, target='', graph=None, config=None):
        self.graph = graph if graph is not None else tf1.get_default_graph()
        self.cells = {}
        self.counts = {}
        self.runs = 0
        self.closed = False
        self.sess_str = target
        self._ctx = None
        if CONF.log is not None:
            CONF.log.append(self)

    # -- context manager / default-session protocol
    def as_default(self):
        from tensorflow.python.framework import stack
        return stack.default_session(self)

    def __enter__(self):
        self._ctx = self.as_default()
        self._gctx = self.graph.as_default()
        self._gctx.__enter__()
        self._ctx.__enter__()
        return self

    def __exit__(self, *a):
        self._ctx.__exit__(*a)
        self._gctx.__exit__(*a)
        self.close()

    def close(self):
        self.closed = True

    def list_devices(self):
        return []

    def partial_run(self, *a, **k):
        raise Unsupported('partial_run')

    def make_callable(self, fetches, feed_list=None, accept_options=False):
        def call(*args):
            return self.run(fetches, feed_dict=dict(zip(feed_list or [], args)))
        return call

    # -- execution
    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if self.closed:
            raise RuntimeError('Attempted to use a closed Session.')
        idx = self.runs
        self.runs += 1
        if CONF.on_run is not None:
            CONF.on_run(self, idx)
        if CONF.fault is not None:
            CONF.fault(self, idx)
        rebuild, leaves = flatten_fetches(self.graph, fetches)
        fed = {}
        for k, v in (feed_dict or {}).items():
            t = self.graph.as_graph_element(k, allow_tensor=True, allow_operation=False)
            if isinstance(v, tf1.Tensor):
                raise TypeError('The value of a feed cannot be a tf.Tensor object.')
            a = np.asarray(v) if not isinstance(v, R) else tfsem.wrap0(v)
            if not t.get_shape().is_compatible_with(a.shape):
                raise ValueError('Cannot feed value of shape %r for Tensor %s, which has shape %s' % (a.shape, t.name, t.get_shape()))
            fed[tkey(t)] = tfsem.settle(obj(a) if isfloat(dt(t)) else a, dt(t))
        for t, v in FEEDS.values():
            if t.graph is self.graph:
                fed.setdefault(tkey(t), v)
        vals = self._execute(leaves, fed, idx)
        if CONF.record is not None:
            CONF.record.append((self, idx, leaves, vals))
        return rebuild(vals)

    def cell(self, o):
        if o.name not in self.cells:
            self.cells[o.name] = Cell(o.name)
        return self.cells[o.name]

    def _execute(self, leaves, fed, idx):
        leaf_fed = {tkey(e) for e in leaves if not isinstance(e, tf1.Operation) and tkey(e) in fed}
        need = order_ops([e for e in leaves if isinstance(e, tf1.Operation) or tkey(e) not in leaf_fed], fed)
        extra = self._schedule(need, fed, idx)
        order = topo(need, extra)
        vals = {}
        STATS.states = getattr(STATS, 'states', 0) + 1
        for o in order:
            ins = []
            for i, t in enumerate(o.inputs):
                ins.append(fed[tkey(t)] if tkey(t) in fed else vals[tkey(t)])
            outs = self._exec_op(o, ins)
            for t, v in zip(o.outputs, outs):
                vals[tkey(t)] = v
        res = []
        for e in leaves:
            if isinstance(e, tf1.Operation):
                res.append(None)
                continue
            v = fed[tkey(e)] if tkey(e) in fed else vals[tkey(e)]
            v = deref(v)
            res.append(publish(v, e))
        return res

    def _exec_op(self, o, ins):
        ty = o.type
        if ty in VAR_OPS:
            STATS.ops += 1
            return [Alias(self.cell(o))]
        if ty in RES_OPS:
            STATS.ops += 1
            return [self.cell(o)]
        if ty in ALIAS and ins and isinstance(ins[0], Alias):
            STATS.ops += 1
            a = ins[0]
            if ty in ('Identity', 'RefIdentity', 'StopGradient', 'EnsureShape'):
                return [a]
            rest = [deref(x) for x in ins[1:]]
            prev = a.f

            def f(v, o=o, rest=rest, prev=prev):
                return tfsem.apply_op(o, [prev(v) if prev else v] + rest)[0]
            a.get()
            return [Alias(a.cell, f)]
        if ty == 'ReadVariableOp':
            STATS.ops += 1
            v = ins[0].value
            if v is None:
                raise tf1.errors.FailedPreconditionError(None, None, 'uninitialized variable ' + ins[0].name)
            return [v]
        if ty == 'VarIsInitializedOp':
            return [np.array(ins[0].value is not None)]
        if ty == 'IsVariableInitialized':
            return [np.array(ins[0].cell.value is not None)]
        if ty in REF_WRITE:
            STATS.ops += 1
            STATS.op_types[ty] = STATS.op_types.get(ty, 0) + 1
            ref = ins[0]
            rhs = [deref(x) for x in ins[1:]]
            if ty == 'Assign':
                v = rhs[0]
                if tfsem.attr(o, 'validate_shape') and not o.inputs[0].get_shape().is_compatible_with(np.shape(v)):
                    raise ValueError('Assign requires shapes of both tensors to match')
            elif ty in ('AssignAdd', 'AssignSub'):
                sgn = 1 if ty == 'AssignAdd' else -1
                v = tfsem.ew(lambda x, y: x + y * sgn, ref.get(), rhs[0])
                v = tfsem.settle(v, dt(o.inputs[0]))
            elif ty in ('ScatterUpdate', 'ScatterAdd', 'ScatterSub'):
                cur, ii = ref.get(), np.asarray(rhs[0])
                up = np.asarray(rhs[1])
                if ty == 'ScatterSub':
                    up = -up
                tfsem.check_range(ii.reshape(-1, 1), cur.shape)
                v = tfsem.scatter(ii.reshape(-1, 1), up.reshape((-1,) + cur.shape[1:]), cur.shape,
                                  'set' if ty == 'ScatterUpdate' else 'add', cur)
            else:
                raise Unsupported(ty)
            ref.cell.value = self._cut(v, o, dt(o.inputs[0]))
            return [Alias(ref.cell)]
        if ty in RES_WRITE:
            STATS.ops += 1
            c = ins[0]
            v = deref(ins[1])
            if ty != 'AssignVariableOp':
                sgn = 1 if ty == 'AssignAddVariableOp' else -1
                v = tfsem.ew(lambda x, y: x + y * sgn, c.value, v)
            c.value = self._cut(v, o, dt(o.inputs[1]))
            return []
        if ty in RANDOM:
            n = self.counts.get(o.name, 0)
            self.counts[o.name] = n + 1
            return [random_value(o, n, [deref(x) for x in ins])]
        if ty == 'Placeholder':
            raise tf1.errors.InvalidArgumentError(None, None, 'You must feed a value for placeholder tensor %r' % o.name)
        return tfsem.apply_op(o, [deref(x) for x in ins])

    def _cut(self, v, o, dtype):
        v = np.array(v, dtype=object) if is_sym(v) else np.array(v)
        if not CONF.cut or not is_sym(v) or core.NUMERIC[0] or v.ndim == 0:
            return v
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = cut(v[i], o.inputs[0].op.name)
        return out

    # -- scheduling of unordered readers and writers
    def _schedule(self, need, fed, idx):
        acc = accesses(need, fed)
        extra = {}
        if CTX.explorer is not None:
            CTX.explorer.needs.append(need.keys())
        if not acc:
            return extra
        pairs = []
        ordered = self._smt_order(need) if CONF.smt_order else None
        reach = None if ordered else reachability(need)
        for var, (readers, writers) in acc.items():
            for w in writers:
                for r in list(readers) + [x for x in writers if x > w]:
                    if r == w:
                        continue
                    STATS.race_pairs = getattr(STATS, 'race_pairs', 0) + 1
                    if ordered(r, w) if ordered else (w in reach[r] or r in reach[w]):
                        continue
                    pairs.append((r, w, var))
        if not pairs:
            return extra
        if CONF.races is not None:
            CONF.races.extend(pairs)
        if CONF.sched == 'creation' or CTX.explorer is None:
            return extra
        glob = None
        if len(pairs) > 2:
            glob = core.branch(z3.Bool('sched!%d!all' % idx))
        for r, w, var in sorted(pairs):
            first = glob if glob is not None else core.branch(z3.Bool('sched!%d!%s!%s' % (idx, r, w)))
            a, b = (r, w) if first else (w, r)      # a runs before b
            if creates_cycle(need, extra, a, b):
                a, b = b, a
                if creates_cycle(need, extra, a, b):
                    continue
            extra.setdefault(b, set()).add(a)
            CTX.explorer.edges.append((a, b))
        return extra


def smt_order(need):
    """ordered(a, b): does the solver refute one of the two relative orders of a and b in every execution of these operations?"""
    key = ('smt', frozenset(need))
    if key in CTX.memo:
        return CTX.memo[key]
    import time
    pos = {n: z3.Int('pos!' + n) for n in need}
    s = z3.Solver()
    s.set('timeout', 20000)
    for n, (o, deps) in need.items():
        for d in deps:
            s.add(pos[d.name] < pos[n])
    known = {}

    def ask(a, b):
        if (a, b) not in known:
            t = time.time()
            s.push()
            s.add(pos[a] < pos[b])
            known[a, b] = s.check()
            s.pop()
            STATS.queries += 1
            STATS.schedule_queries += 1
            STATS.solver_s += time.time() - t
            STATS.unsat += known[a, b] == z3.unsat
            STATS.sat += known[a, b] == z3.sat
        return known[a, b] != z3.unsat      # possible?

    def ordered(a, b):
        return not (ask(a, b) and ask(b, a))
    CTX.memo[key] = ordered
    return ordered


SymSession._smt_order = staticmethod(smt_order)


def _tf_tensor(self, dtype=None, name=None):
    d = getattr(self, 'tf_dtype', None)
    if dtype is not None and d is not None and isfloat(d) and not tf1.as_dtype(dtype).is_floating:
        raise TypeError('Cannot convert %s values to %s' % (d, dtype))
    return as_tensor(self, dtype, name or 'const')


core.SymArray.__tf_tensor__ = _tf_tensor
core.R.__tf_tensor__ = _tf_tensor
core.NONNEG = lambda e: nonneg(e)



def _list_tensor(v, dtype=None, name=None, as_ref=False):
    """A Python list holding symbolic numbers (lists of tensors are TensorFlow's own business)."""
    def kinds(x):
        for y in x:
            if isinstance(y, (list, tuple)):
                yield from kinds(y)
            else:
                yield y
    ks = list(kinds(v))
    if not any(isinstance(x, core.R) for x in ks) or any(tf1.is_tensor(x) for x in ks) or any(isinstance(x, np.ndarray) for x in ks):
        return NotImplemented
    a = np.array(v, dtype=object)
    d = 'int64' if all(isinstance(x, (int, np.integer)) or (isinstance(x, core.R) and x.e is not None and x.e.sort() == z3.IntSort()) for x in ks) else 'float64'
    return _tf_tensor(core.symarray(a, d), dtype, name)


tensor_conversion_registry.register_tensor_conversion_function((list, tuple), _list_tensor, 50)

FEEDS = {}      # tensors made from symbolic numpy arrays: name -> (tensor, value)


def deref(v):
    if isinstance(v, Alias):
        return v.get()
    return v


def publish(v, t):
    """What Session.run returns: a scalar for rank 0, an array otherwise."""
    v = np.asarray(v)
    if v.dtype == object and v.ndim == 0:
        return v[()]
    if v.dtype == object:
        return np.array(v, dtype=object).view(core.SymArray)
    if v.ndim == 0:
        return v[()]
    return v


def topo(need, extra):
    """Creation order, refined by the extra edges."""
    order, state = [], {}
    names = sorted(need, key=lambda n: need[n][0]._id)

    def visit(n0):
        stack = [(n0, iter([d.name for d in need[n0][1]] + sorted(extra.get(n0, ()))))]
        state[n0] = 1
        while stack:
            n, it = stack[-1]
            for d in it:
                if d not in state:
                    state[d] = 1
                    stack.append((d, iter([x.name for x in need[d][1]] + sorted(extra.get(d, ())))))
                    break
                if state[d] == 1:
                    raise Unsupported('cyclic graph')
            else:
                stack.pop()
                state[n] = 2
                order.append(need[n][0])
    for n in names:
        if n not in state:
            visit(n)
    return order


def reachability(need):
    """name -> set of names it (transitively) depends on."""
    reach = {}
    for o in topo(need, {}):
        s = set()
        for d in need[o.name][1]:
            s.add(d.name)
            s |= reach[d.name]
        reach[o.name] = s
    return reach


def creates_cycle(need, extra, a, b):
    """Would running a before b contradict the dependencies?"""
    seen, todo = set(), [a]
    while todo:
        n = todo.pop()
        if n == b:
            return True
        if n in seen:
            continue
        seen.add(n)
        todo.extend(d.name for d in need[n][1])
        todo.extend(extra.get(n, ()))
    return False


def accesses(need, fed):
    """variable -> (reader operations, writer operations) among the executed operations."""
    src = {}        # tensor name -> variable it aliases
    acc = {}
    for o in topo(need, {}):
        ins = [None if tkey(t) in fed else src.get(tkey(t)) for t in o.inputs]
        if o.type in VAR_OPS or o.type in RES_OPS:
            src[tkey(o.outputs[0])] = o.name
            acc.setdefault(o.name, (set(), set()))
            continue
        if o.type in REF_WRITE or o.type in RES_WRITE:
            v = ins[0]
            if v is not None:
                acc[v][1].add(o.name)
                if o.outputs:
                    src[tkey(o.outputs[0])] = v
            for x in ins[1:]:
                if x is not None:
                    acc[x][0].add(o.name)
            continue
        if o.type in ALIAS and ins and ins[0] is not None and o.outputs:
            src[tkey(o.outputs[0])] = ins[0]
            for x in ins[1:]:
                if x is not None:
                    acc[x][0].add(o.name)
            continue
        if o.type == 'NoOp':
            continue
        for x in ins:
            if x is not None:
                acc[x][0].add(o.name)
    return {v: rw for v, rw in acc.items() if rw[1]}


# ---------------------------------------------------------------- named intermediate values
def cut(x, hint=''):
    """A fresh name for an expression; the same expression always gets the same name."""
    if not isinstance(x, R) or x.e is None:
        return x
    e = x.e
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return x
    if core._size(e, 8) < 6:
        return x
    k = ('cut', e.get_id())
    if k in CTX.memo:
        return CTX.memo[k][1]
    e0, e = e, core.canon(e)
    k2 = ('cut', e.get_id())
    if k2 in CTX.memo:
        CTX.memo[k] = (e0, CTX.memo[k2][1])
        return CTX.memo[k2][1]
    if z3.is_const(e):
        r = core.mk(e.as_fraction()) if z3.is_rational_value(e) else R(e)
        CTX.memo[k] = (e0, r)
        return r
    v, n = CTX.fresh('c:' + hint)
    CTX.defs[n] = (v, e)
    CTX.raw[n] = e0
    if nonneg(e0) or nonneg(e):
        CTX.add_fact([n], v >= 0, 'core')
    r = R(v)
    CTX.memo[k] = (e0, r)
    CTX.memo[k2] = (e, r)
    return r


def is_neg_of(b, a):
    d = z3.simplify(a + b)
    return z3.is_rational_value(d) and d.as_fraction() == 0


def is_nonneg_fact(f, e):
    """Is f one of e >= c, e > c, c <= e, c < e with a constant c >= 0?"""
    if not z3.is_app(f) or f.num_args() != 2:
        return False
    k, (a, b) = f.decl().kind(), f.children()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        a, b = b, a
    elif k not in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return False
    if a.get_id() != e.get_id():
        return False
    return (z3.is_rational_value(b) and b.as_fraction() >= 0) or (z3.is_int_value(b) and b.as_long() >= 0)


def nonneg(e, depth=0):
    """A sound syntactic sign analysis (only used to prune infeasible paths)."""
    if depth > 60:
        return False
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    if not z3.is_app(e):
        return False
    k = ('nonneg', e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    kind = e.decl().kind()
    ch = e.children()
    r = False
    if kind == z3.Z3_OP_UNINTERPRETED and not ch:
        n = e.decl().name()
        r = n.startswith(('sqrt!', 'sv!', 'root')) or any(is_nonneg_fact(f, e) for f, _ in CTX.facts.get(n, ()))
        r = r or n in CTX.cache.get('nonneg_atoms', {})
    elif kind == z3.Z3_OP_ADD:
        r = all(nonneg(c, depth + 1) for c in ch)
    elif kind == z3.Z3_OP_MUL:
        from collections import Counter
        cnt = Counter(c.get_id() for c in ch)
        r = all(n % 2 == 0 or nonneg(next(c for c in ch if c.get_id() == i), depth + 1) for i, n in cnt.items())
    elif kind == z3.Z3_OP_ITE:
        c, a, b = ch
        if nonneg(a, depth + 1) and nonneg(b, depth + 1):
            r = True
        elif z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT):
            l, rr = c.children() if c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT) else reversed(c.children())
            # max(l, r)
            if l.get_id() == a.get_id() and rr.get_id() == b.get_id():
                r = nonneg(a, depth + 1) or nonneg(b, depth + 1)
            # |l|
            elif z3.is_rational_value(rr) and rr.as_fraction() == 0 and l.get_id() == a.get_id() and is_neg_of(b, a):
                r = True
    CTX.cache[k] = (e, r)
    return r


def expand(e, keep=(), depth=50):
    """Replaces named intermediate values by their definitions, except the names in `keep`."""
    keep = set(keep)
    for _ in range(depth):
        names = [n for n in core.atoms(e) if n in CTX.defs and n not in keep]
        if not names:
            return e
        e = z3.substitute(e, *[(CTX.defs[n][0], CTX.defs[n][1]) for n in names])
    raise Unsupported('unbounded expansion')


# ---------------------------------------------------------------- random values
def rnd_name(o, n):
    return (CONF.rnd_name(o, n) if CONF.rnd_name else None) or 'rnd:%s:%d' % (o.name, n)


def random_value(o, n, ins):
    v = _random_value(o, n, ins)
    if CONF.draws is not None:
        CONF.draws.append((o.name, n, v))
    return v


def _random_value(o, n, ins):
    shape = tfsem.ints(ins[0])
    name = rnd_name(o, n)
    if CONF.forced_rnd is not None:
        v = CONF.forced_rnd(o, n, shape, ins)
        if v is not None:
            return v
    out = np.empty(shape, dtype=object)
    integer = o.type == 'RandomUniformInt'
    for i in np.ndindex(*shape):
        nm = '%s%s' % (name, list(i) if shape else '')
        if integer:
            lo, hi = ints1(ins[1]), ints1(ins[2])
            out[i] = core.new_input(nm, lo=lo, hi=hi - 1, integer=True)
        elif 'Uniform' in o.type:
            x = core.new_input(nm, lo=0, hi=1)
            out[i] = x
        else:
            out[i] = core.new_input(nm)
    return out


def ints1(x):
    x = np.asarray(x)[()]
    return int(x.c) if isinstance(x, R) else int(x)


class NullWriter:
    def __init__(self, logdir=None, *a, **k):
        self.closed, self.path = False, logdir

    def add_summary(self, summary, global_step=None):
        if CONF.summaries is None:
            return
        if isinstance(summary, bytes):
            summary = tf1.Summary.FromString(summary)
        if isinstance(summary, tf1.Summary):
            rows = [(v.tag, R(float(v.simple_value if v.HasField('simple_value') else tf1.make_ndarray(v.tensor)))) for v in summary.value]
        else:
            rows = list(summary.rows)
        CONF.summaries.append((self.path, global_step, rows))

    def add_run_metadata(self, *a, **k):
        pass

    def add_graph(self, *a, **k):
        pass

    def flush(self):
        pass

    def close(self):
        pass


# ---------------------------------------------------------------- installation
_REAL = {}


def install():
    """tf.Session and tf.constant of the code under test become symbolic."""
    if _REAL:
        return
    _REAL['Session'] = tf1.Session
    _REAL['constant'] = tf1.constant
    _REAL['FileWriter'] = tf1.summary.FileWriter
    tf1.Session = SymSession
    tf1.summary.FileWriter = NullWriter

    def constant(value, dtype=None, shape=None, name='Const', verify_shape=False):
        if is_sym_value(value):
            return as_tensor(value, dtype, name, shape)
        return _REAL['constant'](value, dtype=dtype, shape=shape, name=name, verify_shape=verify_shape)
    tf1.constant = constant


def uninstall():
    if not _REAL:
        return
    tf1.Session = _REAL['Session']
    tf1.constant = _REAL['constant']
    tf1.summary.FileWriter = _REAL['FileWriter']
    _REAL.clear()


def is_sym_value(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(isinstance(x, (R, B)) for x in v.flat)
    if isinstance(v, (R, B)):
        return True
    if isinstance(v, (list, tuple)):
        return any(is_sym_value(x) for x in v)
    return False


def as_tensor(v, dtype=None, name='const', shape=None):
    """A tensor holding symbolic values: a placeholder fed in every run."""
    want = getattr(v, 'tf_dtype', None)
    if isinstance(v, (R, B)):
        v = tfsem.wrap0(v)
    a = np.asarray(v, dtype=object)
    if shape is not None:
        a = a.reshape(shape)
    d = tf1.as_dtype(dtype) if dtype is not None else tf1.as_dtype(want or infer_dtype(a))
    t = tf1.placeholder(d.base_dtype, shape=a.shape, name='sym_' + 'const')
    FEEDS[id(t)] = (t, tfsem.settle(a, dt(t)))
    return t


def infer_dtype(a):
    for x in a.flat:
        if isinstance(x, R) and x.e is not None and x.e.sort() == z3.IntSort():
            return 'int64'
    return 'float64'
