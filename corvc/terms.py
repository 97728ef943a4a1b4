"""Terms of the verifier: integers, booleans, extended reals and functional arrays on top of z3.

Machine integers are mathematical integers; overflow is a proof obligation at every checked operation.
f64 values are reals plus (optional) nan/+inf/-inf flags; rounding and overflow to infinity are not modelled
(see DESIGN.md, trusted base).
"""
import struct
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """A construct the verifier has no model for: the unit is undecided (never a violation)."""


# ---------------------------------------------------------------- bool / int
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def band(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def bimp(a, b):
    return bor(bnot(a), b)


def beq(a, b):
    if isinstance(a, bool): return b if a else bnot(b)
    if isinstance(b, bool): return a if b else bnot(a)
    if a.eq(b): return True
    return a == b


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else bnot(c)
    return bor(band(c, a), band(bnot(c), b)) if (isinstance(a, bool) or isinstance(b, bool)) else (a if a.eq(b) else z3.If(c, a, b))


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def isimp(x):
    if isinstance(x, int): return x
    x = z3.simplify(x, som=True)
    return x.as_long() if z3.is_int_value(x) else x


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return isimp(zi(a) + zi(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return isimp(zi(a) - zi(b))


def itree(t, n=4):
    """leaves of a conditional tree with integer constant leaves: f(leaf function) or None"""
    if isinstance(t, int): return ('c', t)
    if z3.is_int_value(t): return ('c', t.as_long())
    if n and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        x, y = itree(t.arg(1), n - 1), itree(t.arg(2), n - 1)
        if x is not None and y is not None: return ('i', t.arg(0), x, y)
    return None


def tree_map(t, f, ite):
    return f(t[1]) if t[0] == 'c' else ite(t[1], tree_map(t[2], f, ite), tree_map(t[3], f, ite))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    x, y = itree(a), itree(b)
    if x is not None and y is not None: return tree_map(x, lambda p: tree_map(y, lambda q: p * q, iite), iite)
    return isimp(zi(a) * zi(b))


def icmp(op, a, b):
    """op in lt le gt ge eq ne; python bool when decidable syntactically."""
    if not (isinstance(a, int) and isinstance(b, int)):
        x, y = itree(a), itree(b)
        if x is not None and y is not None: return tree_map(x, lambda p: tree_map(y, lambda q: icmp(op, p, q), bite), bite)
    d = isub(a, b)
    if isinstance(d, int):
        return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[op]
    a, b = zi(a), zi(b)
    return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
            'eq': lambda: a == b, 'ne': lambda: a != b}[op]()


def iite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return z3.If(c, zi(a), zi(b))


# ---------------------------------------------------------------- floats
class Fl:
    __slots__ = ('v', 'nan', 'pinf', 'ninf', 'nz')

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf

    @property
    def finite(self):
        return bnot(bor(self.nan, self.pinf, self.ninf))

    @property
    def flagged(self):
        return not (self.nan is False and self.pinf is False and self.ninf is False)

    def __repr__(self):
        return 'Fl(%s%s)' % (self.v, ', flagged' if self.flagged else '')


XREAL = [False]  # division by zero produces nan/inf flags when set


def rv(x):
    """real constant from int/Fraction/str"""
    if isinstance(x, Fraction): return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
    return z3.RealVal(x)


def fc(x):
    return Fl(rv(x))


def f64_exact(x):
    """exact rational of a python float"""
    if x != x: return Fl(rv(0), nan=True)
    if x == float('inf'): return Fl(rv(0), pinf=True)
    if x == float('-inf'): return Fl(rv(0), ninf=True)
    return Fl(rv(Fraction(x)))


def f64_bits(bits):
    return f64_exact(struct.unpack('<d', struct.pack('<Q', bits))[0])


def cv(t):
    """constant value (Fraction) of a real term or None"""
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def radd(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return rv(x + y)
    if x == 0: return b
    if y == 0: return a
    return a + b


def rneg(a):
    x = cv(a)
    return rv(-x) if x is not None else -a


def rsub(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return rv(x - y)
    if y == 0: return a
    return a - b


def rmul(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return rv(x * y)
    if x == 1: return b
    if y == 1: return a
    if x == 0 or y == 0: return rv(0)
    for p, q in ((a, b), (b, a)):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and cv(p.arg(1)) is not None and cv(p.arg(2)) is not None:
            return rite(p.arg(0), rmul(p.arg(1), q), rmul(p.arg(2), q))
    return a * b


def rdiv(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None and y != 0: return rv(x / y)
    if y == 1: return a
    return a / b


def rlt(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return x < y
    if a.eq(b): return False
    return a < b


def rle(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return x <= y
    if a.eq(b): return True
    return a <= b


def req(a, b):
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return x == y
    if a.eq(b): return True
    return a == b


def rite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a.eq(b): return a
    return z3.If(c, a, b)


def pos_sign(x):
    """value > 0 or +inf (sign of zero not tracked: zero counts as positive)"""
    return bor(x.pinf, band(bnot(x.ninf), bnot(x.nan), rle(rv(0), x.v)))


def fadd(a, b):
    v = radd(a.v, b.v)
    if not (a.flagged or b.flagged): return Fl(v)
    nan = bor(a.nan, b.nan, band(a.pinf, b.ninf), band(a.ninf, b.pinf))
    nn = bnot(nan)
    return Fl(v, nan, band(nn, bor(a.pinf, b.pinf)), band(nn, bor(a.ninf, b.ninf)))


def fround32(a):
    """nearest f32"""
    c = cv(a.v)
    if c is not None:
        import struct
        try: return Fl(rv(Fraction(struct.unpack('f', struct.pack('f', float(c)))[0])), a.nan, a.pinf, a.ninf)
        except OverflowError: pass
    return Fl(z3.Function('round32', R, R)(a.v), a.nan, a.pinf, a.ninf)


def fneg(a):
    return Fl(rneg(a.v), a.nan, a.ninf, a.pinf)


def fsub(a, b):
    if not (a.flagged or b.flagged): return Fl(rsub(a.v, b.v))
    r = fadd(a, fneg(b))
    return Fl(rsub(a.v, b.v), r.nan, r.pinf, r.ninf)


def _inf(a): return bor(a.pinf, a.ninf)
def _zero(a): return band(a.finite, req(a.v, rv(0)))
def _neg(a): return bor(a.ninf, band(a.finite, rlt(a.v, rv(0))))
def _pos(a): return bor(a.pinf, band(a.finite, rlt(rv(0), a.v)))


def fmul(a, b):
    v = rmul(a.v, b.v)
    if not (a.flagged or b.flagged): return Fl(v)
    nan = bor(a.nan, b.nan, band(_inf(a), _zero(b)), band(_zero(a), _inf(b)))
    inf = band(bnot(nan), bor(_inf(a), _inf(b)))
    neg = bor(band(_neg(a), _pos(b)), band(_pos(a), _neg(b)))
    return Fl(v, nan, band(inf, bnot(neg)), band(inf, neg))


def fdiv(a, b):
    v = rdiv(a.v, b.v)
    y = cv(b.v)
    if not (a.flagged or b.flagged):
        if not XREAL[0] or (y is not None and y != 0):
            return Fl(v)
        z = req(b.v, rv(0))
        if z is False: return Fl(v)
        # sign of zero is not tracked: x/0 is +-inf by an uninterpreted sign
        s = z3.Function('sgnzero', R, B)(b.v)
        inf = band(z, bnot(req(a.v, rv(0))))
        return Fl(v, band(z, req(a.v, rv(0))), band(inf, s), band(inf, bnot(s)))
    nan = bor(a.nan, b.nan, band(_inf(a), _inf(b)), band(_zero(a), _zero(b)))
    s = z3.Function('sgnzero', R, B)(b.v)
    inf = band(bnot(nan), bor(_inf(a), _zero(b)))
    neg = bor(band(_neg(a), bor(_pos(b), band(_zero(b), s))), band(_pos(a), bor(_neg(b), band(_zero(b), bnot(s)))))
    zero_by_inf = band(bnot(nan), _inf(b))
    return Fl(rite(zb(zero_by_inf) if not isinstance(zero_by_inf, bool) else zero_by_inf, rv(0), v), nan,
              band(inf, bnot(neg)), band(inf, neg))


def flt(a, b):
    if not (a.flagged or b.flagged): return rlt(a.v, b.v)
    nn = bnot(bor(a.nan, b.nan))
    return band(nn, bor(band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf)), band(a.finite, b.finite, rlt(a.v, b.v))))


def feq(a, b):
    if not (a.flagged or b.flagged): return req(a.v, b.v)
    return band(bnot(bor(a.nan, b.nan)), bor(band(a.pinf, b.pinf), band(a.ninf, b.ninf), band(a.finite, b.finite, req(a.v, b.v))))


def fle(a, b):
    if not (a.flagged or b.flagged): return rle(a.v, b.v)
    return bor(flt(a, b), feq(a, b))


def fsame(a, b):
    """identical values (nan equals nan): specification equality"""
    if not (a.flagged or b.flagged): return req(a.v, b.v)
    return bor(band(a.nan, b.nan), feq(a, b))


def fite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    return Fl(rite(c, a.v, b.v), bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))


def fmax(a, b):
    """f64::max: the other operand if one is nan"""
    r = fite(flt(a, b), b, a)
    if a.nan is not False: r = fite(a.nan, b, r)
    return r


def fmin(a, b):
    r = fite(flt(b, a), b, a)
    if a.nan is not False: r = fite(a.nan, b, r)
    return r


def fabs(a):
    return Fl(rite(rlt(a.v, rv(0)), rneg(a.v), a.v), a.nan, bor(a.pinf, a.ninf), False)


_sqrt, _exp, _ln, _log10, _powi = (z3.Function('sqrt', R, R), z3.Function('exp', R, R), z3.Function('ln', R, R),
                                   z3.Function('log10', R, R), z3.Function('powi', R, I, R))


def fsqrt(a):
    x = cv(a.v)
    if x is not None and x >= 0:
        import math
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator: return Fl(rv(Fraction(n, d)), a.nan, a.pinf, a.ninf)
    if not a.flagged and not XREAL[0]: return Fl(_sqrt(a.v))
    return Fl(_sqrt(a.v), bor(a.nan, a.ninf, band(a.finite, rlt(a.v, rv(0)))), a.pinf, False)


def fexp(a):
    if not a.flagged: return Fl(_exp(a.v))
    return Fl(rite(zb(a.ninf), rv(0), _exp(a.v)), a.nan, a.pinf, False)


def fln(a):
    if not a.flagged and not XREAL[0]: return Fl(_ln(a.v))
    return Fl(_ln(a.v), bor(a.nan, a.ninf, band(a.finite, rlt(a.v, rv(0)))), a.pinf, _zero(a))


def sign_positive(a):
    """f64::is_sign_positive; the sign of a zero is the uninterpreted predicate poszero"""
    z = z3.Function('poszero', R, B)(a.v)
    s = bor(rlt(rv(0), a.v), band(req(a.v, rv(0)), z))
    if not a.flagged: return s
    nans = z3.Function('posnan', R, B)(a.v)
    return bor(a.pinf, band(a.finite, s), band(a.nan, nans))


def ffrom_int(n):
    if isinstance(n, int): return fc(n)
    x = itree(n)
    return Fl(tree_map(x, rv, rite)) if x is not None else Fl(z3.ToReal(n))


# axioms for the uninterpreted functions, instantiated on the applications that occur
def uf_apps(exprs):
    seen, out, stack = set(), [], [e for e in exprs if is_z3(e)]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0: out.append(e)
            stack.extend(e.children())
    return out


def axioms(exprs):
    out, apps = [], uf_apps(exprs)
    by = {}
    for a in apps:
        n = a.decl().name()
        x = a.arg(0)
        by.setdefault(n, []).append(a)
        if n == 'sqrt':
            out += [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]
        elif n == 'exp':
            out += [a > 0, z3.Implies(x <= 0, a <= 1), z3.Implies(x >= 0, a >= 1)]
        elif n == 'ln':
            out += [z3.Implies(z3.And(x > 0, x < 1), a < 0), z3.Implies(x == 1, a == 0), z3.Implies(x > 1, a > 0)]
    return out


# ---------------------------------------------------------------- arrays
def idx_eq(a, b):
    return band(*[icmp('eq', x, y) for x, y in zip(a, b)])


def ite_val(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, Fl): return fite(c, a, b)
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a): return bite(c, a, b)
    if isinstance(a, int) or z3.is_int(a): return iite(c, a, b)
    raise Unsupported('ite of %r' % (a,))


class Arr:
    """functional array: shape (tuple of ints/terms) and element function"""
    def get(self, idx): raise NotImplementedError


class BaseArr(Arr):
    """symbolic input array: one uninterpreted function per array (plus flag functions if flagged)"""
    def __init__(self, name, shape, flagged=False):
        self.name, self.shape, self.flagged = name, tuple(shape), flagged
        ar = [I] * len(self.shape)
        self.f = z3.Function(name, *ar, R)
        if flagged:
            self.fn = [z3.Function(name + s, *ar, B) for s in ('!nan', '!pinf', '!ninf')]

    def get(self, idx):
        ix = [zi(x) for x in idx]
        if not self.flagged: return Fl(self.f(*ix))
        n, p, m = [f(*ix) for f in self.fn]
        return Fl(self.f(*ix), n, band(z3.Not(n), p), band(z3.Not(n), z3.Not(p), m))


class StoreArr(Arr):
    def __init__(self, base, idx, val):
        self.base, self.idx, self.val, self.shape = base, tuple(idx), val, base.shape

    def get(self, idx):
        # iterative walk down the store chain
        conds = []
        a = self
        while isinstance(a, StoreArr):
            c = idx_eq(idx, a.idx)
            if c is True: break
            if c is not False: conds.append((c, a.val))
            a = a.base
        r = a.val if isinstance(a, StoreArr) else a.get(idx)
        for c, v in reversed(conds): r = ite_val(c, v, r)
        return r


class LamArr(Arr):
    def __init__(self, shape, fn):
        self.shape, self.fn, self.memo = tuple(shape), fn, {}

    def get(self, idx):
        k = tuple(x if isinstance(x, int) else ('t', x.get_id()) for x in idx)
        m = self.memo.get(k)
        if m is None:
            m = (self.fn(tuple(idx)), idx)   # keep idx alive so that ids stay valid
            self.memo[k] = m
        return m[0]


class TrackArr(Arr):
    """wrapper that logs reads (loop summaries)"""
    def __init__(self, base, log):
        self.base, self.log, self.shape = base, log, base.shape

    def get(self, idx):
        self.log(tuple(idx))
        return self.base.get(idx)


def const_arr(shape, val):
    return LamArr(shape, lambda idx: val)


def map_arr(f, *arrs):
    return LamArr(arrs[0].shape, lambda idx: f(*[a.get(idx) for a in arrs]))
