"""Symbolic scalars over z3, facts (contracts of stubbed operations), queries and path exploration."""
import itertools
import sys
import time
from fractions import Fraction

from .boot import np, z3


class Unsupported(Exception):
    """The encoding does not cover something the code under test does: the check is inconclusive."""


class Inconclusive(Exception):
    pass


class PathAbort(BaseException):
    """Ends the current path (infeasible)."""


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.facts = {}          # atom name -> list of (z3 bool, tag)
        self.defs = {}           # cut atom name -> z3 expr
        self.raw = {}            # cut atom name -> the expression as it was computed
        self.inputs = {}         # name -> (z3 const, meta)
        self.cache = {}
        self.memo = {}
        self.fn_memo = {}
        self.keep = []
        self.explorer = None
        self.counter = itertools.count()
        self.float_ok = 0
        self.assumed = []        # global assumptions on inputs

    def fresh(self, prefix, sort='real'):
        n = '%s!%d' % (prefix, next(self.counter))
        return (z3.Int(n) if sort == 'int' else z3.Bool(n) if sort == 'bool' else z3.Real(n)), n

    def add_fact(self, names, expr, tag='core'):
        for n in names:
            self.facts.setdefault(n, []).append((expr, tag))


CTX = Ctx()


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.feas = 0
        self.paths = 0
        self.forks = 0
        self.ops = 0
        self.op_types = {}
        self.functions = set()
        self.schedule_queries = 0


STATS = Stats()


# ---------------------------------------------------------------- numbers
def nice(x):
    """The rational a floating-point constant stands for (0.1 -> 1/10, 0.33333334f -> 1/3)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    is32 = isinstance(x, (np.float32, np.float16))
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant')
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(2000)
    if g != 0 and abs(f - g) <= abs(f) * Fraction(1, 10 ** 7 if is32 else 10 ** 13):
        return g
    return f


def z3num(f):
    return z3.RealVal(str(f.numerator) if f.denominator == 1 else '%d/%d' % (f.numerator, f.denominator))


class R:
    """A number: concrete (Fraction, or float in numeric mode) or a z3 arithmetic expression."""
    __slots__ = ('c', 'e')
    __array_priority__ = -1

    def __init__(self, v):
        if isinstance(v, R):
            self.c, self.e = v.c, v.e
        elif isinstance(v, z3.ExprRef):
            self.c, self.e = None, v
        elif isinstance(v, float):
            self.c, self.e = (v if NUMERIC[0] else nice(v)), None
        else:
            self.c, self.e = (nice(v) if not NUMERIC[0] else float(v)), None

    # -- helpers
    @property
    def concrete(self):
        return self.e is None

    def z(self):
        if self.e is not None:
            return self.e
        c = self.c
        return z3num(c if isinstance(c, Fraction) else Fraction(c))

    def zi(self, o):
        """z(), as an integer when o is an integer term."""
        if self.e is None and o.e is not None and o.e.sort() == z3.IntSort() and self.c == int(self.c):
            return z3.IntVal(int(self.c))
        return self.z()

    def __repr__(self):
        return 'R(%s)' % self.c if self.e is None else '<sym>'

    __hash__ = object.__hash__

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.e is None:
            if o.e is None:
                return mk(self.c + o.c)
            if self.c == 0:
                return o
        elif o.e is None and o.c == 0:
            return self
        return R(self.zi(o) + o.zi(self))

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return mk(-self.c) if self.e is None else R(-self.e)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.e is None and o.e is None:
            return mk(self.c - o.c)
        if o.e is None and o.c == 0:
            return self
        if self.e is None and self.c == 0:
            return -o
        return R(self.zi(o) - o.zi(self))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        if isinstance(o, B):
            o = o.num()
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.e is None:
            if o.e is None:
                return mk(self.c * o.c)
            if self.c == 0:
                return self
            if self.c == 1:
                return o
        elif o.e is None:
            if o.c == 0:
                return o
            if o.c == 1:
                return self
        return R(self.z() * o.z())

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        return floor_(div(self, lift(o)))

    def __mod__(self, o):
        o = lift(o)
        return self - o * floor_(div(self, o))

    def __pow__(self, p):
        return power(self, lift(p))

    def __rpow__(self, p):
        return power(lift(p), self)

    def __abs__(self):
        if self.e is None:
            return mk(abs(self.c))
        return R(z3.If(self.e >= 0, self.e, -self.e))

    # numpy calls these method names for ufuncs on object arrays
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def absolute(self):
        return abs(self)

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def astype(self, *a, **k):
        return self

    # -- comparisons
    def _cmp(self, o, f, pyf):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.e is None and o.e is None:
            return pyf(self.c, o.c)
        return mkb(f(self.z(), o.z()))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- conversions
    def __index__(self):
        if self.e is None:
            if isinstance(self.c, Fraction) and self.c.denominator == 1:
                return int(self.c)
            if float(self.c).is_integer():
                return int(self.c)
            raise TypeError('not an integer')
        return concretize(self)

    def __int__(self):
        if self.e is None:
            return int(self.c)
        return concretize(self)

    def __float__(self):
        if self.e is None:
            return float(self.c)
        # only printf-style formatting may look at a symbolic number (its text is never the subject of a property)
        import dis
        fr = sys._getframe(1)
        op = fr.f_code.co_code[fr.f_lasti]
        arg = fr.f_code.co_code[fr.f_lasti + 1]
        if dis.opname[op] == 'BINARY_OP' and arg in (6, 19):
            return 0.0
        raise Unsupported('float() of a symbolic number in %s:%d' % (fr.f_code.co_filename, fr.f_lineno))

    def __format__(self, spec):
        if self.e is None:
            return format(float(self.c), spec)
        return '<sym>'

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic number')


NUMERIC = [False]     # numeric (interpretation) mode: concrete numbers are floats


def mk(c):
    r = R.__new__(R)
    r.c, r.e = c, None
    return r


def lift(o):
    if type(o) is R:
        return o
    if isinstance(o, (int, float, Fraction, np.integer, np.floating, np.bool_)):
        return R(o) if not isinstance(o, np.float32) else R(float(o) if NUMERIC[0] else nice(o))
    if isinstance(o, B):
        return o.num()
    if isinstance(o, z3.ArithRef):
        return R(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return branch(self.e)

    def __and__(self, o):
        return mkb(z3.And(self.e, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, bz(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, bz(o)))

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def num(self):
        return R(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __eq__(self, o):
        return mkb(self.e == bz(o))

    def __ne__(self, o):
        return mkb(self.e != bz(o))
    __hash__ = object.__hash__

    def __repr__(self):
        return 'B(%s)' % self.e


def bz(o):
    if isinstance(o, B):
        return o.e
    if isinstance(o, z3.BoolRef):
        return o
    return z3.BoolVal(bool(o))


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return B(e)


def ite(c, a, b):
    """a if c else b, without forking."""
    if isinstance(c, B):
        if isinstance(a, (bool, np.bool_, B)) and isinstance(b, (bool, np.bool_, B)):
            return mkb(z3.If(c.e, bz(a), bz(b)))
        a, b = lift(a), lift(b)
        if a.e is None and b.e is None and a.c == b.c:
            return a
        return R(z3.If(c.e, a.z(), b.z()))
    return a if c else b


# ---------------------------------------------------------------- derived numbers
def som(e):
    return z3.simplify(e, som=True, hoist_ite=False, sort_sums=True, som_blowup=1000000)


def _size(e, cap=4000):
    seen, todo = set(), [e]
    while todo and len(seen) < cap:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return len(seen)


def canon(e):
    """A canonical form for memoisation (sum of monomials when the expression is small)."""
    k = ('canon', e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    r = som(e) if _size(e) < 3000 else z3.simplify(e)
    CTX.cache[k] = (e, r)
    return r


def _memo(fn, args, build):
    """Functional consistency of derived atoms: the same (canonical) arguments give the same atom; otherwise earlier
    applications of fn whose arguments the solver proves equal are reused."""
    keys = tuple(canon(a) for a in args)
    k = (fn,) + tuple(x.get_id() for x in keys)
    if k in CTX.memo:
        return CTX.memo[k][1]
    lst = CTX.fn_memo.setdefault(fn, [])
    for okeys, val in lst:
        if len(okeys) == len(keys) and _same_num_vars(okeys, keys) and all(equal_terms(x, y) for x, y in zip(okeys, keys)):
            CTX.memo[k] = (keys, val)
            return val
    val = build(*keys)
    lst.append((keys, val))
    CTX.memo[k] = (keys, val)
    return val


def _same_num_vars(xs, ys):
    def vs(es):
        s = set()
        for e in es:
            s |= atoms(e)
        return s
    return vs(xs) == vs(ys)


CMP = {z3.Z3_OP_GE: ('ge', 1), z3.Z3_OP_LE: ('ge', -1), z3.Z3_OP_GT: ('gt', 1), z3.Z3_OP_LT: ('gt', -1)}


def norm_ite(e):
    """The polynomial of e over its atoms, with every if-then-else replaced by a name that depends only on the normalised
    condition and branches: equal results are equal functions."""
    k = ('nite', e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    if not _has_ite(e):
        r = som(e)
    else:
        r = som(_no_ite(e))
    CTX.cache[k] = (e, r)
    return r


def _no_ite(e):
    k = ('noite', e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    if not _has_ite(e):
        r = e
    elif e.decl().kind() == z3.Z3_OP_ITE and e.sort() != z3.BoolSort():
        c, a, b = e.children()
        ck, a2, b2 = _cond_key(c), norm_ite(a), norm_ite(b)
        if a2.get_id() == b2.get_id():
            r = a2
        else:
            mk_ = ('ite', ck, a2.get_id(), b2.get_id())
            if mk_ not in CTX.memo:
                CTX.memo[mk_] = ((c, a2, b2), z3.Const('ite!%d' % next(CTX.counter), e.sort()))
            r = CTX.memo[mk_][1]
    else:
        r = e.decl()(*[_no_ite(x) for x in e.children()])
    CTX.cache[k] = (e, r)
    return r


def _cond_key(c):
    kind = c.decl().kind()
    if kind in CMP and c.arg(0).sort() != z3.BoolSort():
        nm, sg = CMP[kind]
        d = norm_ite(c.arg(0) - c.arg(1) if sg > 0 else c.arg(1) - c.arg(0))
        CTX.keep.append(d)
        return (nm, d.get_id())
    if kind == z3.Z3_OP_NOT:
        x = _cond_key(c.arg(0))
        if x[0] in ('ge', 'gt') and len(x) == 2 and isinstance(x[1], int):
            a = c.arg(0)
            sg = CMP[a.decl().kind()][1]
            d = norm_ite(a.arg(1) - a.arg(0) if sg > 0 else a.arg(0) - a.arg(1))
            CTX.keep.append(d)
            return ('gt' if x[0] == 'ge' else 'ge', d.get_id())
        return ('not', x)
    if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return (kind,) + tuple(sorted((_cond_key(x) for x in c.children()), key=str))
    CTX.keep.append(c)
    return ('c', c.get_id())


def _indicator(c):
    """(name, negated): the 0/1 name of a condition; a condition and its negation share one."""
    kind = c.decl().kind()
    if kind == z3.Z3_OP_NOT:
        n, g = _indicator(c.arg(0))
        return n, not g
    if kind == z3.Z3_OP_DISTINCT and c.num_args() == 2:
        n, g = _indicator(c.arg(0) == c.arg(1))
        return n, not g
    neg = False
    if kind in CMP and c.arg(0).sort() != z3.BoolSort():
        nm, sg = CMP[kind]
        if nm == 'gt':
            sg, neg = -sg, True
        d = norm_ite(c.arg(0) - c.arg(1) if sg > 0 else c.arg(1) - c.arg(0))
        key = ('ind', 'ge', d.get_id())
    elif kind == z3.Z3_OP_EQ and c.arg(0).sort() != z3.BoolSort():
        ds = [norm_ite(c.arg(0) - c.arg(1)), norm_ite(c.arg(1) - c.arg(0))]
        CTX.keep.extend(ds)
        zero = next((t for t in ds if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED), None)
        d = zero if zero is not None else min(ds, key=lambda t: t.get_id())
        key = ('ind', 'eq', d.get_id())
    else:
        d = c
        key = ('ind',) + tuple(map(str, _cond_key(c)))
    CTX.keep.append(d)
    if key not in CTX.memo:
        CTX.memo[key] = z3.Real('ind!%d' % next(CTX.counter))
        if key[1] == 'eq' and z3.is_const(d):
            CTX.cache['ind0', CTX.memo[key].decl().name()] = d.get_id()
    return CTX.memo[key], neg


def _ind_form(e, small=False):
    k = ('indform', small, e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    if not _has_ite(e):
        r = e
    elif small and e.decl().kind() == z3.Z3_OP_ITE and e.sort() == z3.RealSort() and _size(e.arg(0), 30) >= 20:
        r = _no_ite(e)
    elif e.decl().kind() == z3.Z3_OP_ITE and e.sort() == z3.RealSort():
        c, a, b = e.children()
        n, neg = _indicator(c)
        a, b = _ind_form(a, small), _ind_form(b, small)
        if neg:
            a, b = b, a
        r = b + n * (a - b)
    else:
        r = e.decl()(*[_ind_form(x, small) for x in e.children()])
    CTX.cache[k] = (e, r)
    return r


def ind_zero(e):
    """Is e identically zero as a polynomial over its atoms and the 0/1 indicators of its conditions?"""
    n = _size(e, 20000)
    if n >= 20000 or e.sort() != z3.RealSort():
        return False
    return n < 2000 and _ind_zero(e, False) or _ind_zero(e, True)


def _ind_zero(e, small):
    p = z3.simplify(_ind_form(e, small), som=True, hoist_ite=False, sort_sums=True, som_blowup=50000 if small else 5000)
    acc = {}
    for t in (p.children() if p.decl().kind() == z3.Z3_OP_ADD else [p]):
        coef, names = Fraction(1), []
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_rational_value(x):
                coef *= x.as_fraction()
            elif x.decl().kind() == z3.Z3_OP_MUL:
                todo.extend(x.children())
            elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)):
                todo.extend([x.arg(0)] * int(x.arg(1).as_fraction()))
            elif x.decl().kind() == z3.Z3_OP_ADD:
                return False
            else:
                names.append(x)
        inds = {x.decl().name() for x in names if z3.is_const(x) and x.decl().name().startswith('ind!')}
        rest = sorted(x.get_id() for x in names if not (z3.is_const(x) and x.decl().name().startswith('ind!')))
        if any(CTX.cache.get(('ind0', n)) in rest for n in inds):
            continue        # x times [x = 0]
        k = (tuple(sorted(inds)), tuple(rest))
        acc[k] = acc.get(k, 0) + coef
    return all(v == 0 for v in acc.values())


def equal_terms(x, y):
    if x.get_id() == y.get_id():
        return True
    if (_has_ite(x) or _has_ite(y)) and norm_ite(x).get_id() == norm_ite(y).get_id():
        return True
    d = som(x - y)
    if z3.is_rational_value(d):
        return d.as_fraction() == 0
    if _has_ite(d):
        if ind_zero(x - y):
            return True
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(d != 0)
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unsat:
            STATS.unsat += 1
        return r == z3.unsat
    return False


def _has_ite(e):
    k = ('hasite', e.get_id())
    if k in CTX.cache:
        return CTX.cache[k][1]
    seen, todo, r = set(), [e], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            r = True
            break
        todo.extend(x.children())
    CTX.cache[k] = (e, r)
    return r


NONNEG = None       # set by session: a sound sign analysis


def div(a, b):
    if b.e is None:
        if b.c == 0:
            if NUMERIC[0]:
                return mk(float('nan') if a.e is None and a.c == 0 else float('inf'))
            return R(CTX.fresh('undef')[0])      # nothing is known about it
        if a.e is None:
            return mk(a.c / b.c)
        return R(a.e * z3num(1 / b.c))
    if a.e is None and a.c == 0:
        return a

    def build(y):
        # one atom per denominator: x / y is x * inv(y), so quotients expand and cancel like products
        q, n = CTX.fresh('inv')
        CTX.add_fact([n], y != 0, 'defined')
        CTX.add_fact([n], q * y == 1, 'core')
        if NONNEG is not None and NONNEG(b.z()):
            CTX.add_fact([n], q >= 0, 'core')
            CTX.cache.setdefault('nonneg_atoms', {})[n] = True
        return q
    inv = R(_memo('inv', (b.z(),), build))
    return inv if a.e is None and a.c == 1 else a * inv


def square_content(x):
    """k if the coefficients of the polynomial x have the common factor k*k (so that sqrt(x) is k*sqrt(x/(k*k)))."""
    import math
    ms = x.children() if z3.is_add(x) else [x]
    if len(ms) > 40:
        return None
    num, den = 0, 1
    for m in ms:
        c = m if z3.is_rational_value(m) else m.arg(0) if z3.is_mul(m) and z3.is_rational_value(m.arg(0)) else None
        f = c.as_fraction() if c is not None else Fraction(1)
        num, den = math.gcd(num, abs(f.numerator)), math.lcm(den, f.denominator)
    if not num:
        return None
    if num * den > 10 ** 9:
        n, d = math.isqrt(num), math.isqrt(den)
        return Fraction(n, d) if n * n == num and d * d == den else None
    k, rest, f = 1, num * den, 2
    while f * f <= rest:
        while rest % (f * f) == 0:
            k, rest = k * f, rest // (f * f)
        f += 1
    return Fraction(k, den)


def sqrt(a):
    a = lift(a)
    if a.e is None:
        c = a.c
        if isinstance(c, float):
            return mk(c ** 0.5 if c >= 0 else float('nan'))
        if c < 0:
            raise Unsupported('square root of a negative constant')
        import math
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return mk(Fraction(p, q))

    k = square_content(canon(a.z()))
    if k is not None and k != 1:
        return mk(k) * sqrt(R(som(a.z() / z3num(k * k))))

    def build(x):
        # sqrt(y*y) etc. is left to the solver
        r, n = CTX.fresh('sqrt')
        CTX.add_fact([n], r >= 0, 'core')
        CTX.add_fact([n], r * r == x, 'core' if _size(x, 200) < 120 else 'heavy')
        return r
    return R(_memo('sqrt', (a.z(),), build))


def root(a, n):
    if a.e is None and isinstance(a.c, float):
        return mk(a.c ** (1.0 / n))

    def build(x):
        r, nm = CTX.fresh('root%d' % n)
        p = r
        for _ in range(n - 1):
            p = p * r
        CTX.add_fact([nm], z3.And(r >= 0, p == x), 'core')
        return r
    return R(_memo('root%d' % n, (a.z(),), build))


def ufun(name, a):
    """An uninterpreted (deterministic) real function."""
    if a.e is None and isinstance(a.c, float):
        import math
        return mk(getattr(math, name)(a.c))
    f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
    return R(f(canon(a.z())))


def power(a, p):
    if p.e is not None:
        raise Unsupported('symbolic exponent')
    c = p.c
    if a.e is None and isinstance(a.c, float):
        return mk(float(a.c) ** float(c))
    c = Fraction(c)
    if c.denominator == 1:
        n = int(c)
        if n < 0:
            return div(R(1), power(a, R(-n)))
        r = R(1)
        for _ in range(n):
            r = r * a
        return r
    if c == Fraction(1, 2):
        return sqrt(a)
    if c.denominator <= 12:
        b = power(root(a, c.denominator), R(abs(c.numerator)))
        return b if c > 0 else div(R(1), b)
    raise Unsupported('exponent %s' % c)


def floor_(a):
    if a.e is None:
        import math
        return R(math.floor(a.c))
    return R(z3.ToReal(z3.ToInt(a.e)) if a.e.sort() == z3.RealSort() else a.e)


def trunc_(a):
    if a.e is None:
        return R(int(a.c))
    if a.e.sort() == z3.IntSort():
        return a
    return R(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e))))


def rmax(a, b):
    a, b = lift(a), lift(b)
    if a.e is None and b.e is None:
        return a if a.c >= b.c or a.c != a.c else b
    o = _sv_order(a, b)
    if o is not None:
        return a if o else b
    return R(z3.If(a.z() >= b.z(), a.z(), b.z()))


def _sv_order(a, b):
    """True if a is known to be the larger one (singular values of one matrix), False if b, None if unknown."""
    if (a.e is None) != (b.e is None):
        c, v = (a, b) if a.e is None else (b, a)
        if c.c <= 0 and NONNEG is not None and NONNEG(v.e):
            return v is a
    t = CTX.cache.get('sv')
    if not t:
        return None
    if a.e is None or b.e is None:
        # singular values are not negative
        c, v = (a, b) if a.e is None else (b, a)
        if v.e is not None and z3.is_const(v.e) and v.e.decl().name() in t and c.c <= 0:
            return v is a
        return None
    if not z3.is_const(a.e) or not z3.is_const(b.e):
        return None
    x, y = t.get(a.e.decl().name()), t.get(b.e.decl().name())
    return x[1] <= y[1] if x and y and x[0] == y[0] else None


def rmin(a, b):
    a, b = lift(a), lift(b)
    if a.e is None and b.e is None:
        return a if a.c <= b.c or a.c != a.c else b
    o = _sv_order(a, b)
    if o is not None:
        return b if o else a
    return R(z3.If(a.z() <= b.z(), a.z(), b.z()))


def rsum(xs):
    c, es = None, []
    for x in xs:
        x = lift(x)
        if x.e is None:
            c = x.c if c is None else c + x.c
        else:
            es.append(x.e)
    if not es:
        return mk(c) if c is not None else R(0)
    if c is not None and c != 0:
        es.append(mk(c).z())
    return R(es[0] if len(es) == 1 else z3.Sum(es))


def sumsq(xs):
    """The sum of the squares of xs, as the square of its square root (the form tf.norm gives it)."""
    s = rsum([x * x for x in xs])
    if s.e is None:
        return s
    r = sqrt(s)
    return r * r


# ---------------------------------------------------------------- atoms and facts of an expression
def atoms(*es):
    out = set()
    for e in es:
        k = ('atoms', e.get_id())
        if k in CTX.cache:
            out |= CTX.cache[k][1]
            continue
        seen, todo, res = set(), [e], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                res.add(x.decl().name())
            else:
                todo.extend(x.children())
        CTX.cache[k] = (e, res)
        out |= res
    return out


def cone(es, tags, defs=()):
    """Facts about the atoms reachable from es, restricted to the given tags."""
    done, out, seen = set(), [], set()
    todo = set(atoms(*es))
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        for f, tag in CTX.facts.get(n, ()):
            if tag in tags and f.get_id() not in seen:
                seen.add(f.get_id())
                out.append(f)
                todo |= atoms(f) - done
        if n in defs and n in CTX.defs:
            pass
    return out


BASE_TAGS = frozenset(['core', 'defined', 'input', 'scalar'])


def query(assertions, timeout_ms=20000, tactic=None):
    """One solver query; returns ('unsat', None) | ('sat', model) | ('unknown', None)."""
    t = time.time()
    STATS.queries += 1
    if tactic:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*assertions)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.solver_s += time.time() - t
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


# ---------------------------------------------------------------- path exploration
def _sign_conflict(cond):
    """cond says that a syntactically non-negative term is below a non-positive constant."""
    neg = False
    while z3.is_not(cond):
        neg, cond = not neg, cond.arg(0)
    if not z3.is_app(cond) or cond.num_args() != 2:
        return False
    k = cond.decl().kind()
    l, r = cond.children()
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        l, r, k = r, l, (z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE)
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        return False
    if neg:      # not (l < r): r <= l
        l, r, k = r, l, (z3.Z3_OP_LE if k == z3.Z3_OP_LT else z3.Z3_OP_LT)
    if not z3.is_rational_value(r) and z3.is_rational_value(z3.simplify(r)):
        r = z3.simplify(r)
    if z3.is_rational_value(r):
        c = r.as_fraction()
        return (c < 0 or (c == 0 and k == z3.Z3_OP_LT)) and NONNEG(l)
    return False


def _lit_keys(cond):
    """Normal forms of a branch condition and of its negation."""
    k = ('lits', cond.get_id())
    if k not in CTX.cache:
        if _size(cond, 6000) >= 5000:
            CTX.cache[k] = (cond, None, None)
        else:
            n = z3.Not(cond)
            CTX.keep.append(n)
            CTX.cache[k] = (cond, _cond_key(cond), _cond_key(n))
    return CTX.cache[k][1:]


class Explorer:
    """Depth-first exploration by re-execution; branch conditions are solver expressions."""

    def __init__(self, max_paths=20000, feas_timeout=5000):
        self.prefix = []
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout

    def explore(self, fn):
        """Runs fn once per feasible path; yields (path condition, result)."""
        stack = [[]]
        n = 0
        while stack:
            self.prefix = stack.pop()
            self.taken = []
            self.pc = []
            self.alts = []
            self.edges, self.needs, self.lits = [], [], set()
            old, CTX.explorer = CTX.explorer, self
            try:
                try:
                    res = fn()
                except PathAbort:
                    res = PathAbort
            finally:
                CTX.explorer = old
            n += 1
            STATS.paths += 1
            if n > self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            stack.extend(reversed(self.alts))
            if res is not PathAbort:
                yield list(self.pc), res

    def feasible(self, cond):
        if len(self.pc) < 200 and self._linear_conflict(cond):
            return False
        cons = [x for x in self.pc] + [cond]
        cons += cone(cons, BASE_TAGS)
        STATS.feas += 1
        r, _ = query(cons, self.feas_timeout)
        return r != 'unsat'

    def _linear_conflict(self, cond):
        if NONNEG is not None and _sign_conflict(cond):
            return True
        # the condition against the facts about its own atoms only
        cons = [cond]
        for n in atoms(cond):
            for f, tag in CTX.facts.get(n, ()):
                if tag in ('core', 'input') and _size(f, 12) < 8:
                    cons.append(f)
        r, _ = query(cons, 300)
        return r == 'unsat'

    def branch(self, cond):
        i = len(self.taken)
        key, nkey = _lit_keys(cond)
        if i < len(self.prefix):
            v = self.prefix[i]
        elif key is not None and key in self.lits:
            v = True
        elif nkey is not None and nkey in self.lits:
            v = False
        else:
            STATS.forks += 1
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.alts.append(self.taken + [False])
                v = True
            else:
                v = t
        self.taken.append(v)
        if isinstance(v, tuple):
            self.pc.append(v[1])
            return v
        k = key if v else nkey
        if k is not None and k in self.lits:
            return v
        self.pc.append(cond if v else z3.Not(cond))
        if k is not None:
            self.lits.add(k)
        return v

    def choose_int(self, e):
        """Fork over every feasible value of an integer expression."""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.pc.append(v[1])
            return v[0]
        vals, own = [], cone([e == 0], ('input',))
        cons = list(self.pc)
        cons += cone(cons + [e == 0], BASE_TAGS)
        while True:
            r, m = query(cons + [e != v for v in vals], self.feas_timeout)
            if r == 'unsat':
                break
            if r == 'unknown' and len(cons) > len(own):
                cons, vals = own, []        # an over-approximation: only what is known about the index itself
                continue
            if r == 'unknown' or len(vals) > 64:
                raise Inconclusive('cannot enumerate the values of an index')
            vals.append(m.eval(e, model_completion=True).as_long()
                        if e.sort() == z3.IntSort() else int(m.eval(e, model_completion=True).as_fraction()))
        if not vals:
            raise PathAbort()
        vals.sort()
        STATS.forks += 1
        for v in vals[1:]:
            self.alts.append(self.taken + [(v, e == v)])
        self.taken.append((vals[0], e == vals[0]))
        self.pc.append(e == vals[0])
        return vals[0]


def branch(cond):
    if CTX.explorer is None:
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported('a branch on a symbolic condition outside path exploration')
    return CTX.explorer.branch(cond)


def concretize(r):
    if CTX.explorer is None:
        raise Unsupported('a symbolic integer used as an index outside path exploration')
    return CTX.explorer.choose_int(r.e)


# ---------------------------------------------------------------- arrays
class SymArray(np.ndarray):
    """An object array of R, converted by TensorFlow to a fed placeholder."""
    tf_dtype = 'float64'

    def __array_finalize__(self, o):
        self.tf_dtype = getattr(o, 'tf_dtype', 'float64')

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, index(i))

    def __setitem__(self, i, v):
        if isinstance(i, np.ndarray) and i.dtype == object and i.shape == self.shape and i.size and isinstance(i.flat[0], (B, bool)) and np.ndim(v) == 0:
            for j in np.ndindex(*i.shape):      # a masked assignment, without a path per mask
                m = np.ndarray.__getitem__(i, j)
                if isinstance(m, B):
                    np.ndarray.__setitem__(self, j, ite(m, lift(v), lift(np.ndarray.__getitem__(self, j))))
                elif m:
                    np.ndarray.__setitem__(self, j, v)
            return
        np.ndarray.__setitem__(self, index(i), v)


def index(i):
    """An index with its symbolic numbers and truth values settled (one path per value)."""
    if type(i) is int or type(i) is slice:
        return i
    if isinstance(i, tuple):
        return tuple([index(x) for x in i])
    if isinstance(i, (list, np.ndarray)):
        a = i if isinstance(i, np.ndarray) else None
        if a is None and any(isinstance(x, (R, B)) for x in i):
            a = np.array([x for x in i], dtype=object)
        if a is not None and a.dtype == object and a.size:
            f, t = (bool, bool) if isinstance(a.flat[0], (B, bool, np.bool_)) else (int, np.intp)
            out = np.empty(a.shape, dtype=t)
            for j in np.ndindex(*a.shape):
                out[j] = f(np.ndarray.__getitem__(a, j))
            return out
    return i


def symarray(a, dtype='float64'):
    v = np.asarray(a, dtype=object).view(SymArray)
    v.tf_dtype = dtype
    return v


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def obj(a):
    """Object array of R for any numeric array."""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    f32 = a.dtype in (np.float32, np.float16)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = R(float(x)) if NUMERIC[0] else (mk(nice(x)) if f32 else R(x if not isinstance(x, np.generic) else x.item()))
    return out


def has_symbols(a):
    if not is_sym(a):
        return False
    for x in a.flat:
        if isinstance(x, B) or (isinstance(x, R) and x.e is not None):
            return True
    return False


def new_input(name, lo=None, hi=None, integer=False, nonzero=False):
    """A symbolic input (a universally quantified variable of the property)."""
    v = z3.Int(name) if integer else z3.Real(name)
    if name not in CTX.inputs:
        CTX.inputs[name] = (v, dict(lo=lo, hi=hi, integer=integer))
        if lo is not None:
            CTX.add_fact([name], v >= (lo if integer else z3num(Fraction(lo))), 'input')
        if hi is not None:
            CTX.add_fact([name], v <= (hi if integer else z3num(Fraction(hi))), 'input')
        if nonzero:
            CTX.add_fact([name], v != 0, 'input')
    return R(v)


def branch_assume(c):
    """Adds an assumption to the current path; False if it is infeasible."""
    if CTX.explorer is None:
        return True
    ex = CTX.explorer
    ex.taken.append(True) if len(ex.taken) >= len(ex.prefix) else ex.taken.append(ex.prefix[len(ex.taken)])
    ex.pc.append(c)
    return ex.feasible(z3.BoolVal(True))
