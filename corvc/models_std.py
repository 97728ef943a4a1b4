"""Models of std and ndarray functions which /repo does not call today but which a rewrite of its code may call."""
import json
from models import *
from models import F1, M, ND, ND2, NDC, OPTION, RESULT

OPT, RES, VEC = 'std::option::Option::<T>::', 'std::result::Result::<T, E>::', 'std::vec::Vec::<T, A>::'
IT, SL, STR = 'std::iter::Iterator::', 'core::slice::<impl [T]>::', 'std::string::String::'
ORD = 'std::cmp::Ordering'
HUGE = 2 ** 64


def is_bool(v): return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def fork(eng, st, c):
    """[(state, truth)] of a condition"""
    if isinstance(c, bool): return [(st, c)]
    c = simp(c)
    if isinstance(c, bool): return [(st, c)]
    out = []
    for truth, g in ((True, c), (False, bnot(c))):
        s = st.clone(); s.assume(g)
        if eng.feasible(s): out.append((s, truth))
    return out


def then(outs, f):
    """results of f(state, value) on every returning outcome"""
    res = []
    for o in outs:
        if o[1] == 'ret': res += f(o[0], o[2])
        else: res.append(o)
    return res


def call(eng, st, f, args): return call_f(eng, st, eng.ref_to(st, f, True) if not isinstance(f, Ref) else f, args)


# ---------------------------------------------------------------- Option, Result, bool
def ok(v): return v.var == (0 if v.key == RESULT else 1)


@model(OPT + 'map_or', RES + 'map_or')
def _(eng, st, args, targs, site): return call(eng, st, args[2], [args[0].fields[0]]) if ok(args[0]) else ret(st, args[1])


@model(OPT + 'map_or_else', RES + 'map_or_else')
def _(eng, st, args, targs, site):
    v = args[0]
    return call(eng, st, args[2], [v.fields[0]]) if ok(v) else call(eng, st, args[1], list(v.fields))


@model(OPT + 'unwrap_or', RES + 'unwrap_or')
def _(eng, st, args, targs, site): return ret(st, args[0].fields[0] if ok(args[0]) else args[1])


@model(OPT + 'unwrap_or_else', RES + 'unwrap_or_else')
def _(eng, st, args, targs, site): return ret(st, args[0].fields[0]) if ok(args[0]) else call(eng, st, args[1], list(args[0].fields))


@model(OPT + 'unwrap_or_default', RES + 'unwrap_or_default')
def _(eng, st, args, targs, site):
    return ret(st, args[0].fields[0]) if ok(args[0]) else M['std::default::Default::default'](eng, st, [], targs[:1], site)


@model(OPT + 'and_then')
def _(eng, st, args, targs, site): return call(eng, st, args[1], [args[0].fields[0]]) if ok(args[0]) else ret(st, args[0])


@model(OPT + 'or_else', RES + 'or_else')
def _(eng, st, args, targs, site): return ret(st, args[0]) if ok(args[0]) else call(eng, st, args[1], list(args[0].fields))


@model(OPT + 'or')
def _(eng, st, args, targs, site): return ret(st, args[0] if ok(args[0]) else args[1])


@model(OPT + 'and')
def _(eng, st, args, targs, site): return ret(st, args[1] if ok(args[0]) else args[0])


@model(OPT + 'xor')
def _(eng, st, args, targs, site):
    a, b = args
    return ret(st, NONE if ok(a) == ok(b) else (a if ok(a) else b))


@model(OPT + 'zip')
def _(eng, st, args, targs, site):
    a, b = args
    return ret(st, Some(tup(a.fields[0], b.fields[0])) if ok(a) and ok(b) else NONE)


@model(OPT + 'filter')
def _(eng, st, args, targs, site):
    v = args[0]
    if not ok(v): return ret(st, v)
    return then(call(eng, st, args[1], [eng.ref_to(st, v.fields[0])]), lambda s, c: [(s2, 'ret', v if t else NONE) for s2, t in fork(eng, s, c)])


@model(OPT + 'ok_or')
def _(eng, st, args, targs, site): return ret(st, Ok(args[0].fields[0]) if ok(args[0]) else Err(args[1]))


@model(OPT + 'ok_or_else')
def _(eng, st, args, targs, site):
    if ok(args[0]): return ret(st, Ok(args[0].fields[0]))
    return then(call(eng, st, args[1], []), lambda s, e: ret(s, Err(e)))


def is_and(want, none):
    def m(eng, st, args, targs, site):
        v = args[0]
        if ok(v) != want: return ret(st, none)
        return call(eng, st, args[1], [v.fields[0]])
    return m


M[OPT + 'is_some_and'] = M[RES + 'is_ok_and'] = is_and(True, False)
M[RES + 'is_err_and'] = is_and(False, False)


@model(OPT + 'is_none_or')
def _(eng, st, args, targs, site): return call(eng, st, args[1], [args[0].fields[0]]) if ok(args[0]) else ret(st, True)


@model(OPT + 'as_ref', RES + 'as_ref', OPT + 'as_mut', RES + 'as_mut', OPT + 'as_deref', OPT + 'as_deref_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    if not v.fields: return ret(st, v)
    inner = v.fields[0]
    if isinstance(inner, (Ref, BoxV)): return ret(st, Adt(v.key, v.var, (inner if isinstance(inner, Ref) else Ref(inner.cell, (), args[0].mut),)))
    if args[0].mut: raise Unsupported('as_mut')
    return ret(st, Adt(v.key, v.var, (eng.ref_to(st, inner),)))


@model(OPT + 'copied', OPT + 'cloned', RES + 'copied', RES + 'cloned')
def _(eng, st, args, targs, site):
    v = args[0]
    if not ok(v): return ret(st, v)
    return then(clone_val(eng, st, eng.deref(st, v.fields[0])), lambda s, x: ret(s, Adt(v.key, v.var, (x,))))


@model(OPT + 'take')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    eng.write(st, r, NONE)
    return ret(st, v)


@model(OPT + 'replace')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    eng.write(st, r, Some(args[1]))
    return ret(st, v)


@model(RES + 'ok')
def _(eng, st, args, targs, site): return ret(st, Some(args[0].fields[0]) if ok(args[0]) else NONE)


@model(RES + 'err')
def _(eng, st, args, targs, site): return ret(st, NONE if ok(args[0]) else Some(args[0].fields[0]))


@model(RES + 'unwrap_err', RES + 'expect_err')
def _(eng, st, args, targs, site):
    v = args[0]
    eng.oblige(st, 'no panic: unwrap_err of Ok (line %s)' % line(site), not ok(v), kind='no-panic')
    return [] if ok(v) else ret(st, v.fields[0])


@model('core::bool::<impl bool>::then')
def _(eng, st, args, targs, site):
    res = []
    for s, t in fork(eng, st, args[0]):
        res += then(call(eng, s, args[1], []), lambda s2, v: ret(s2, Some(v))) if t else ret(s, NONE)
    return res


@model('core::bool::<impl bool>::then_some')
def _(eng, st, args, targs, site): return [(s, 'ret', Some(args[1]) if t else NONE) for s, t in fork(eng, st, args[0])]


# ---------------------------------------------------------------- numbers
M['std::cmp::max'] = M['std::cmp::Ord::max']
M['std::cmp::min'] = M['std::cmp::Ord::min']
M['std::convert::identity'] = lambda eng, st, args, targs, site: ret(st, args[0])
M['std::cmp::Ord::clamp'] = lambda eng, st, args, targs, site: ret(st, imin(imax(args[0], args[1]), args[2]))
both('hypot', lambda a, b: fsqrt(fadd(fmul(a, a), fmul(b, b))))


def ordering(eng, st, a, b):
    res = []
    if isinstance(a, Fl): lt, eq = flt(a, b), feq(a, b)
    else: lt, eq = icmp('lt', a, b), icmp('eq', a, b)
    for s, t in fork(eng, st, lt):
        if t: res.append((s, Adt(ORD, 0, ())))
        else: res += [(s2, Adt(ORD, 1 if u else 2, ())) for s2, u in fork(eng, s, eq)]
    return res


@model('std::cmp::Ord::cmp')
def _(eng, st, args, targs, site):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    if not (isinstance(a, int) or is_z3(a)) or is_bool(a): raise Unsupported('cmp')
    return [(s, 'ret', v) for s, v in ordering(eng, st, a, b)]


@model('std::cmp::PartialOrd::partial_cmp')
def _(eng, st, args, targs, site):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    if is_bool(a) or not (isinstance(a, (int, Fl)) or is_z3(a)): raise Unsupported('partial_cmp')
    if isinstance(a, Fl):
        res = []
        for s, t in fork(eng, st, bor(a.nan, b.nan)): res += ret(s, NONE) if t else [(s2, 'ret', Some(v)) for s2, v in ordering(eng, s, a, b)]
        return res
    return [(s, 'ret', Some(v)) for s, v in ordering(eng, st, a, b)]


for n, vs in (('is_lt', (0,)), ('is_le', (0, 1)), ('is_gt', (2,)), ('is_ge', (1, 2)), ('is_eq', (1,)), ('is_ne', (0, 2))):
    M[ORD + '::' + n] = lambda eng, st, args, targs, site, vs=vs: ret(st, args[0].var in vs)
M[ORD + '::reverse'] = lambda eng, st, args, targs, site: ret(st, Adt(ORD, 2 - args[0].var, ()))


def checked(f, ty):
    def m(eng, st, args, targs, site):
        lo, hi = eng.RNG[ty]
        r = f(*args)
        return [(s, 'ret', Some(r) if t else NONE) for s, t in fork(eng, st, band(icmp('le', lo, r), icmp('le', r, hi)))]
    return m


def saturating(f, ty):
    def m(eng, st, args, targs, site):
        lo, hi = eng.RNG[ty]
        return ret(st, imax(lo, imin(f(*args), hi)))
    return m


def wrapping(f, ty, flag=False):
    def m(eng, st, args, targs, site):
        lo, hi = eng.RNG[ty]
        r = f(*args); m = hi - lo + 1
        g = band(icmp('le', lo, r), icmp('le', r, hi))
        v = r if g is True or eng.valid(st, g) else (r - lo) % m + lo if isinstance(r, int) else isimp((zi(r) - lo) % m + lo)
        return ret(st, tup(v, bnot(g)) if flag else v)
    return m


def ipow(a, n):
    if not isinstance(n, int): raise Unsupported('pow')
    r = 1
    for _ in range(n): r = imul(r, a)
    return r


def ilog10(a):
    if isinstance(a, int): return len(str(a)) - 1
    return isimp(z3.ToInt(z3.Function('log10', R, R)(z3.ToReal(a))))


for w in ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'i16', 'i8', 'isize'):
    P = 'core::num::<impl %s>::' % w
    for nm, f in (('add', iadd), ('sub', isub), ('mul', imul)):
        M[P + 'checked_' + nm] = checked(f, w)
        if P + 'saturating_' + nm not in M: M[P + 'saturating_' + nm] = saturating(f, w)
        M[P + 'strict_' + nm] = None
        M[P + 'wrapping_' + nm] = wrapping(f, w)
        M[P + 'overflowing_' + nm] = wrapping(f, w, True)

    def pw(eng, st, args, targs, site, w=w):
        r = ipow(*args); lo, hi = eng.RNG[w]
        eng.oblige(st, 'no panic: pow overflows (line %s)' % line(site), band(icmp('le', lo, r), icmp('le', r, hi)), kind='no-panic')
        return ret(st, r)
    M[P + 'pow'] = pw

    def il(eng, st, args, targs, site):
        g = icmp('lt', 0, args[0])
        eng.oblige(st, 'no panic: logarithm of zero (line %s)' % line(site), g, kind='no-panic')
        st.assume(g)
        return ret(st, ilog10(args[0]))
    M[P + 'ilog10'] = il
    if w[0] == 'i':
        def iabs(eng, st, args, targs, site, w=w):
            eng.oblige(st, 'no panic: absolute value overflows (line %s)' % line(site), icmp('gt', args[0], eng.RNG[w][0]), kind='no-panic')
            return ret(st, imax(args[0], isub(0, args[0])))
        M[P + 'abs'] = iabs
        M[P + 'unsigned_abs'] = pure(lambda a: imax(a, isub(0, a)))
        M[P + 'signum'] = pure(lambda a: imax(-1, imin(a, 1)))
        M[P + 'is_negative'] = pure(lambda a: icmp('lt', a, 0))
        M[P + 'is_positive'] = pure(lambda a: icmp('lt', 0, a))

    def euclid(eng, st, args, targs, site, rem=False):
        a, b = args
        if not isinstance(b, int): raise Unsupported('division by an unknown number')
        eng.oblige(st, 'no panic: division by zero (line %s)' % line(site), b != 0, kind='no-panic')
        if b == 0: return []
        if isinstance(a, int): return ret(st, a - abs(b) * (a // abs(b)) if rem else (a // abs(b)) * (1 if b > 0 else -1))
        return ret(st, isimp(zi(a) % zi(b) if rem else zi(a) / zi(b)))
    M[P + 'div_euclid'] = euclid
    M[P + 'rem_euclid'] = lambda eng, st, args, targs, site, e=euclid: e(eng, st, args, targs, site, True)
    M[P + 'checked_ilog10'] = lambda eng, st, args, targs, site: [(s, 'ret', Some(ilog10(args[0])) if t else NONE) for s, t in fork(eng, st, icmp('lt', 0, args[0]))]
    M[P + 'is_multiple_of'] = lambda eng, st, args, targs, site: (
        [(s, 'ret', icmp('eq', args[0], 0) if t else icmp('eq', eng.binop(s, None, 'Rem', args[0], args[1], 'usize'), 0)) for s, t in fork(eng, st, icmp('eq', args[1], 0))])
    M[P + 'div_ceil'] = lambda eng, st, args, targs, site: (
        ret(st, -(-args[0] // args[1])) if isinstance(args[0], int) and isinstance(args[1], int) and args[1] > 0 else unsupported('div_ceil'))
for k in [k for k, v in M.items() if v is None]: del M[k]


def unsupported(what): raise Unsupported(what)


@model('std::mem::take')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); x = eng.read(st, r)
    res = []
    for s, k, v in M['std::default::Default::default'](eng, st, [], targs[:1], site):
        eng.write(s, r, v); res.append((s, 'ret', x))
    return res


RI = '$RangeInclusive of floats'


@model('std::ops::RangeInclusive::<Idx>::new')
def _(eng, st, args, targs, site):
    if isinstance(args[0], Fl): return ret(st, Adt(RI, 0, args))
    return ret(st, Adt('std::ops::Range', 0, (args[0], iadd(args[1], 1))))


@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains', 'std::ops::RangeFrom::<Idx>::contains', 'std::ops::RangeTo::<Idx>::contains',
       'std::ops::RangeToInclusive::<Idx>::contains', 'std::ops::RangeBounds::contains')
def _(eng, st, args, targs, site):
    r, x = eng.deref(st, args[0]), eng.deref(st, args[1])
    k = r.key.split('::')[-1]
    le = (lambda a, b: fle(a, b)) if isinstance(x, Fl) else (lambda a, b: icmp('le', a, b))
    lt = (lambda a, b: flt(a, b)) if isinstance(x, Fl) else (lambda a, b: icmp('lt', a, b))
    if r.key == RI: return ret(st, band(le(r.fields[0], x), le(x, r.fields[1])))
    if k == 'Range': return ret(st, band(le(r.fields[0], x), lt(x, r.fields[1])))
    if k == 'RangeFrom': return ret(st, le(r.fields[0], x))
    if k == 'RangeTo': return ret(st, lt(x, r.fields[0]))
    if k == 'RangeToInclusive': return ret(st, le(x, r.fields[0]))
    raise Unsupported('contains of %s' % r.key)


@model('std::ops::Range::<Idx>::is_empty', 'std::ops::RangeInclusive::<Idx>::is_empty')
def _(eng, st, args, targs, site):
    r = eng.deref(st, args[0])
    if r.key != 'std::ops::Range': raise Unsupported('is_empty')
    return ret(st, icmp('ge', r.fields[0], r.fields[1]))


# ---------------------------------------------------------------- arrays, vectors, strings
@model('std::array::from_fn')
def _(eng, st, args, targs, site):
    n = targs[1]
    while isinstance(n, (list, tuple)): n = n[1]
    outs = [(st, [])]
    for i in range(n): outs = [(o[0], acc + [o[2]]) for s, acc in outs for o in call(eng, s, args[0], [i]) if o[1] == 'ret']
    return [(s, 'ret', ListV(a)) for s, a in outs]


def map_list(eng, st, items, f):
    outs = [(st, [])]
    for x in items:
        nxt = []
        for s, acc in outs:
            for o in call(eng, s, f, [x]):
                if o[1] != 'ret': raise Unsupported('panic in an adapter')
                nxt.append((o[0], acc + [o[2]]))
        outs = nxt
    return outs


@model('std::array::<impl [T; N]>::map')
def _(eng, st, args, targs, site): return [(s, 'ret', ListV(a)) for s, a in map_list(eng, st, args[0].items, args[1])]


M['std::array::<impl [T; N]>::as_slice'] = lambda eng, st, args, targs, site: ret(st, args[0])


@model('std::vec::from_elem')
def _(eng, st, args, targs, site):
    if isinstance(args[1], int) and args[1] <= 200: return ret(st, ListV([args[0]] * args[1]))
    raise Unsupported('vec![x; n]')


def vec(eng, st, r):
    r = eng.strip(st, r); v = eng.read(st, r)
    if not isinstance(v, ListV): raise Unsupported('vector operation on %r' % (v,))
    return r, v


def in_list(eng, st, i, n, site, what):
    eng.oblige(st, 'no panic: %s in bounds (line %s)' % (what, line(site)), band(icmp('le', 0, i), icmp('lt', i, n)), kind='no-panic')
    if not isinstance(i, int): raise Unsupported(what + ' at a symbolic index')
    return 0 <= i < n


@model(VEC + 'insert')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0]); i = args[1]
    if not in_list(eng, st, i, len(v.items) + 1, site, 'insert'): return []
    eng.write(st, r, ListV(v.items[:i] + (args[2],) + v.items[i:]))
    return ret(st, UNIT)


@model(VEC + 'remove')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0]); i = args[1]
    if not in_list(eng, st, i, len(v.items), site, 'remove'): return []
    eng.write(st, r, ListV(v.items[:i] + v.items[i + 1:]))
    return ret(st, v.items[i])


@model(VEC + 'pop')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0])
    if not v.items: return ret(st, NONE)
    eng.write(st, r, ListV(v.items[:-1]))
    return ret(st, Some(v.items[-1]))


@model(VEC + 'truncate')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0])
    if not isinstance(args[1], int): raise Unsupported('truncate')
    eng.write(st, r, ListV(v.items[:args[1]]))
    return ret(st, UNIT)


@model(VEC + 'clear')
def _(eng, st, args, targs, site):
    eng.write(st, eng.strip(st, args[0]), ListV(()))
    return ret(st, UNIT)


M[VEC + 'reserve'] = M[VEC + 'reserve_exact'] = M[VEC + 'shrink_to_fit'] = M[STR + 'reserve'] = lambda eng, st, args, targs, site: ret(st, UNIT)


@model(VEC + 'resize')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0]); n = args[1]
    if not isinstance(n, int) or n > 200: raise Unsupported('resize')
    eng.write(st, r, ListV((v.items + (args[2],) * n)[:n]))
    return ret(st, UNIT)


@model(VEC + 'extend_from_slice')
def _(eng, st, args, targs, site): return extend(eng, st, args[0], to_iter(eng, st, eng.deref(st, args[1])))


@model(VEC + 'append')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[1])
    eng.write(st, r, ListV(()))
    return extend(eng, st, args[0], to_iter(eng, st, v))


def extend(eng, st, dst, it):
    r = eng.strip(st, dst)
    text = isinstance(eng.read(st, r), StrV)

    def add(s, v):
        v = eng.deref(s, v)
        if text:
            if isinstance(v, int): v = StrV(chr(v))
            eng.write(s, r, StrV(eng.read(s, r), v))
        else: eng.write(s, r, grown(eng.read(s, r), v))
    idx = conc(it)
    if idx is not None:
        outs = [st]
        for i in idx:
            nxt = []
            for s in outs:
                for s2, v in it_item(eng, s, it, i): add(s2, v); nxt.append(s2)
            outs = nxt
        return [(s, 'ret', UNIT) for s in outs]
    bs = it_base(it)

    def step(s, i):
        res = []
        for s2, v in it_item(eng, s, it, i): add(s2, v); res.append(s2)
        return res
    return ret(eng.summarize(st, bs.lo, bs.hi, bs.rev, set(), step), UNIT)


@model('std::iter::Extend::extend')
def _(eng, st, args, targs, site): return extend(eng, st, args[0], to_iter(eng, st, args[1]))


def slice_of(eng, st, v):
    v = eng.deref(st, v)
    if not isinstance(v, ListV): raise Unsupported('slice operation on %r' % (v,))
    return v


@model(SL + 'contains')
def _(eng, st, args, targs, site):
    return ret(st, bor(*[deep_eq(eng, st, x, args[1]) for x in slice_of(eng, st, args[0]).items]))


def elem(r, i, mut=False): return Ref(r.cell, r.path + (('e', (i,)),), mut)


@model(SL + 'get', SL + 'get_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r); i = args[1]
    if not isinstance(v, ListV): raise Unsupported('get of %r' % (v,))
    n = len(v.items)
    if isinstance(i, Adt): raise Unsupported('get of a range')
    return [(s, 'ret', Some(elem(r, i, args[0].mut)) if t else NONE) for s, t in fork(eng, st, icmp('lt', i, n))]


@model(SL + 'first', SL + 'last')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    if not isinstance(v, ListV): raise Unsupported('first of %r' % (v,))
    if not v.items: return ret(st, NONE)
    return ret(st, Some(elem(r, 0 if site[2][1][1][1].endswith('first') else len(v.items) - 1)))


@model(SL + 'reverse')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0])
    eng.write(st, r, ListV(v.items[::-1]))
    return ret(st, UNIT)


@model(SL + 'swap')
def _(eng, st, args, targs, site):
    r, v = vec(eng, st, args[0]); a, b = args[1:]
    if not (in_list(eng, st, a, len(v.items), site, 'swap') and in_list(eng, st, b, len(v.items), site, 'swap')): return []
    l = list(v.items); l[a], l[b] = l[b], l[a]
    eng.write(st, r, ListV(l))
    return ret(st, UNIT)


@model(SL + 'windows', SL + 'chunks', SL + 'chunks_exact')
def _(eng, st, args, targs, site):
    v = slice_of(eng, st, args[0]); n = args[1]
    if not isinstance(n, int) or n < 1: raise Unsupported('windows')
    l, name = v.items, site[2][1][1][1].split('::')[-1]
    if name == 'windows': parts = [l[k:k + n] for k in range(len(l) - n + 1)]
    else: parts = [l[k:k + n] for k in range(0, len(l), n) if name == 'chunks' or k + n <= len(l)]
    return ret(st, SymIt(0, len(parts), lambda e, s, i: e.ref_to(s, ListV(parts[i]))))


def str_len(eng, st, v):
    """number of bytes; of opaque parts an arbitrary non-negative number"""
    n = 0
    for p in v.parts:
        if isinstance(p, str): n = iadd(n, len(p.encode())); continue
        x = z3.Int('len!' + str(p.data if p.tag == 'sym' else p))
        st.assume(x >= 0)
        if p.tag == 'sym': st.assume((x == 0) == z3.Bool('empty!' + str(p.data)))
        n = iadd(n, x)
    return n


@model(STR + 'len', 'core::str::<impl str>::len')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if not isinstance(v, StrV): raise Unsupported('length of %r' % (v,))
    return ret(st, str_len(eng, st, v))


@model(STR + 'clear')
def _(eng, st, args, targs, site):
    eng.write(st, eng.strip(st, args[0]), StrV(''))
    return ret(st, UNIT)


@model(STR + 'insert', STR + 'insert_str')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    x = eng.deref(st, args[2])
    if isinstance(x, int): x = StrV(chr(x))
    if args[1] != 0 or not isinstance(v, StrV): raise Unsupported('insert into a text')
    eng.write(st, r, StrV(x, v))
    return ret(st, UNIT)


@model('std::str::<impl str>::repeat', 'alloc::str::<impl str>::repeat')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if not isinstance(args[1], int) or args[1] > 1000 or not isinstance(v, StrV): raise Unsupported('repeat')
    return ret(st, StrV(*[v] * args[1]))


# ---------------------------------------------------------------- iterators
def eager(eng, st, it):
    """[(state, items)] of an iterator of known length, all elements taken"""
    idx = conc(it)
    if idx is None: return None
    outs = [(st, [])]
    for i in idx: outs = [(s2, acc + [v]) for s, acc in outs for s2, v in it_item(eng, s, it, i)]
    return outs


def known(eng, st, v, what):
    it = eng.read(st, eng.strip(st, v)) if isinstance(v, Ref) else v
    outs = eager(eng, st, to_iter(eng, st, it))
    if outs is None: raise Unsupported('%s of an iterator of unknown length' % what)
    return outs


def from_list(l): return SymIt(0, len(l), lambda e, s, i: l[i])


def at_pos(it, k):
    b = it_base(it)
    return iadd(b.lo, k) if not b.rev else isub(isub(b.hi, 1), k)


def length(it):
    b = it_base(it)
    n = isub(b.hi, b.lo)
    return n if isinstance(n, int) else imax(n, 0)


@model(IT + 'chain')
def _(eng, st, args, targs, site):
    a, b = to_iter(eng, st, args[0]), to_iter(eng, st, args[1])
    n, m = length(a), length(b)
    if not (isinstance(n, int) and isinstance(m, int)): raise Unsupported('chain of iterators of unknown length')
    return ret(st, PyIt(SymIt(0, n + m, lambda e, s, i: i), lambda e, s, k, _v: it_item(e, s, a, at_pos(a, k)) if k < n else it_item(e, s, b, at_pos(b, k - n))))


def total(f, one):
    def m(eng, st, args, targs, site):
        it = to_iter(eng, st, args[0])
        outs = eager(eng, st, it)
        if outs is None:
            if 'f64' not in targs[1:]: raise Unsupported('sum over an unknown number of elements')
            # not described: any number
            return ret(st, anyfl(eng, 'total') if XREAL[0] else Fl(eng.fresh('total', R)))
        res = []
        for s, items in outs:
            items = [eng.deref(s, v) for v in items]
            isf = any(isinstance(v, Fl) for v in items) or (not items and 'f64' in str(targs))
            acc = fc(one) if isf else one
            for v in items: acc = f[0](acc, v) if isf else f[1](acc, v)
            if not isf and items:
                eng.oblige(s, 'no panic: sum overflows (line %s)' % line(site), icmp('le', acc, eng.RNG['usize'][1]), kind='no-panic')
            res.append((s, 'ret', acc))
        return res
    return m


M[IT + 'sum'] = total((fadd, iadd), 0)
M[IT + 'product'] = total((fmul, imul), 1)


@model(IT + 'count', 'std::iter::ExactSizeIterator::len')
def _(eng, st, args, targs, site):
    v = args[0]
    it = to_iter(eng, st, eng.read(st, eng.strip(st, v)) if isinstance(v, Ref) else v)
    if effects(it) and not isinstance(v, Ref): return [(s, 'ret', len(l)) for s, l in known(eng, st, it, 'count')]
    return ret(st, length(it))


@model(IT + 'last')
def _(eng, st, args, targs, site): return [(s, 'ret', Some(l[-1]) if l else NONE) for s, l in known(eng, st, args[0], 'last')]


@model(IT + 'nth')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); it = to_iter(eng, st, eng.read(st, r)); k = args[1]
    idx = conc(it)
    if idx is None or not isinstance(k, int) or effects(it): raise Unsupported('nth')
    b = it_base(it)
    n = min(k + 1, len(idx))
    eng.write(st, r, rebase(it, b.lo, isub(b.hi, n)) if b.rev else rebase(it, iadd(b.lo, n), b.hi))
    if k >= len(idx): return ret(st, NONE)
    return [(s, 'ret', Some(v)) for s, v in it_item(eng, st, it, idx[k])]


@model(IT + 'step_by')
def _(eng, st, args, targs, site):
    it, k = to_iter(eng, st, args[0]), args[1]
    n = length(it)
    if k == 1: return ret(st, it)
    if not (isinstance(n, int) and isinstance(k, int)) or k < 1 or effects(it): raise Unsupported('step_by')
    return ret(st, PyIt(SymIt(0, -(-n // k), lambda e, s, i: i), lambda e, s, i, _v: it_item(e, s, it, at_pos(it, i * k))))


@model(IT + 'reduce')
def _(eng, st, args, targs, site):
    it, f = to_iter(eng, st, args[0]), args[1]
    outs = eager(eng, st, it)
    if outs is not None:
        res = []
        for s, l in outs:
            if not l: res.append((s, 'ret', NONE)); continue
            cur = [(s, 'ret', l[0])]
            for v in l[1:]: cur = then(cur, lambda s2, a, v=v: call(eng, s2, f, [a, v]))
            res += then(cur, lambda s2, a: ret(s2, Some(a)))
        return res
    b = it_base(it)
    n = length(it)

    def step(s, acc, j):
        outs = []
        for s2, v in it_item(eng, s, it, iadd(b.lo, j[0])): outs += call(eng, s2, f, [acc, v])
        return outs
    res = []
    for s, t in fork(eng, st, icmp('lt', 0, n)):
        if not t: res += ret(s, NONE); continue
        # folding maxima, minima, conjunctions: meeting the first element twice changes nothing
        for s2, v0 in it_item(eng, s, it, at_pos(it, 0)):
            v0 = eng.deref(s2, v0)
            if not isinstance(v0, Fl): raise Unsupported('reduce')
            res += then(fold_rule(eng, s2, (n,), v0, step), lambda s3, a: ret(s3, Some(a)))
    return res


def extremum(pick):
    def m(eng, st, args, targs, site):
        res = []
        for s, l in known(eng, st, args[0], 'maximum'):
            if not l: res += ret(s, NONE); continue
            vs = [eng.deref(s, v) for v in l]
            if not all(isinstance(v, int) or is_z3(v) for v in vs): raise Unsupported('maximum')
            acc = vs[0]
            for v in vs[1:]: acc = pick(acc, v)
            res += ret(s, Some(eng.ref_to(s, acc) if isinstance(l[0], Ref) else acc))
        return res
    return m


M[IT + 'max'] = extremum(imax)
M[IT + 'min'] = extremum(imin)


def pairwise(isf):
    """max_by, min_by with a comparison function"""
    def m(eng, st, args, targs, site):
        res = []
        for s, l in known(eng, st, args[0], 'maximum'):
            if not l: res += ret(s, NONE); continue
            cur = [(s, 'ret', l[0])]
            for v in l[1:]:
                cur = then(cur, lambda s2, a, v=v: then(call(eng, s2, args[1], [eng.ref_to(s2, a), eng.ref_to(s2, v)]),
                                                        lambda s3, o: ret(s3, (v if o.var <= 1 else a) if isf else (a if o.var <= 1 else v))))
            res += then(cur, lambda s2, a: ret(s2, Some(a)))
        return res
    return m


M[IT + 'max_by'] = pairwise(True)
M[IT + 'min_by'] = pairwise(False)


def selecting(name):
    """filter, take_while, skip_while, position, find: over a known number of elements, the predicate tried on each in turn"""
    byref = name not in ('position',)

    def m(eng, st, args, targs, site):
        res = []
        for s, l in known(eng, st, args[0], name):
            cur = [(s, [], False, None)]
            for n, v in enumerate(l):
                nxt = []
                for s1, kept, stop, found in cur:
                    if stop: nxt.append((s1, kept + ([v] if name == 'skip_while' else []), stop, found)); continue
                    for o in call(eng, s1, args[1], [eng.ref_to(s1, v) if byref else v]):
                        if o[1] != 'ret': raise Unsupported('panic in an adapter')
                        for s2, t in fork(eng, o[0], o[2]):
                            if name == 'filter': nxt.append((s2, kept + [v] if t else kept, False, None))
                            elif name == 'take_while': nxt.append((s2, kept + [v] if t else kept, not t, None))
                            elif name == 'skip_while': nxt.append((s2, kept if t else kept + [v], not t, None))
                            else: nxt.append((s2, kept, t, (n if name == 'position' else v) if t else None))
                cur = nxt
            for s1, kept, stop, found in cur:
                if name in ('find', 'position'): res += ret(s1, NONE if found is None else Some(found))
                else: res += ret(s1, from_list(kept))
        return res
    return m


for nm in ('filter', 'take_while', 'skip_while', 'position', 'find'): M[IT + nm] = selecting(nm)


@model(IT + 'filter_map')
def _(eng, st, args, targs, site):
    res = []
    for s, l in known(eng, st, args[0], 'filter_map'):
        for s2, vs in map_list(eng, s, l, args[1]): res += ret(s2, from_list([v.fields[0] for v in vs if v.var == 1]))
    return res


@model(IT + 'flat_map', IT + 'flatten')
def _(eng, st, args, targs, site):
    res = []
    for s, l in known(eng, st, args[0], 'flat_map'):
        for s2, vs in (map_list(eng, s, l, args[1]) if len(args) > 1 else [(s, l)]):
            cur = [(s2, [])]
            for v in vs: cur = [(s4, acc + items) for s3, acc in cur for s4, items in known(eng, s3, to_iter(eng, s3, v), 'flat_map')]
            res += [(s3, 'ret', from_list(acc)) for s3, acc in cur]
    return res


@model(IT + 'inspect')
def _(eng, st, args, targs, site):
    it = to_iter(eng, st, args[0])

    def f(e, s, i, v):
        outs = []
        for o in call(e, s, args[1], [e.ref_to(s, v)]):
            if o[1] != 'ret': raise Unsupported('panic in an adapter')
            outs.append((o[0], v))
        return outs
    m = MapIt(it, None)
    return ret(st, PyIt(it, f))


@model(IT + 'try_fold')
def _(eng, st, args, targs, site):
    live, done = [(st, args[1])], []
    key = None
    outs = known(eng, st, args[0], 'try_fold')
    if len(outs) != 1: raise Unsupported('try_fold')
    live, done = [(outs[0][0], args[1])], []
    for v in outs[0][1]:
        nxt = []
        for s, acc in live:
            for o in call(eng, s, args[2], [acc, v]):
                if o[1] != 'ret': done.append(o); continue
                key = o[2].key
                if ok(o[2]): nxt.append((o[0], o[2].fields[0]))
                else: done.append(o)
        live = nxt
    wrap = Some if key == OPTION else Ok
    return [(s, 'ret', wrap(a)) for s, a in live] + done


M['std::iter::once'] = lambda eng, st, args, targs, site: ret(st, from_list([args[0]]))
M['std::iter::repeat'] = lambda eng, st, args, targs, site: ret(st, SymIt(0, HUGE, lambda e, s, i: args[0]))
M['std::iter::repeat_n'] = lambda eng, st, args, targs, site: ret(st, SymIt(0, args[1], lambda e, s, i: args[0]))
M['std::iter::empty'] = lambda eng, st, args, targs, site: ret(st, from_list([]))
M[IT + 'by_ref'] = lambda eng, st, args, targs, site: ret(st, args[0])
for nm in ('for_each', 'map', 'all', 'any', 'collect'):
    if 'rayon::iter::ParallelIterator::' + nm not in M: M['rayon::iter::ParallelIterator::' + nm] = M[IT + nm]
for nm in ('enumerate', 'zip'): M.setdefault('rayon::iter::IndexedParallelIterator::' + nm, M[IT + nm])


# ---------------------------------------------------------------- ndarray
LIN = 'ndarray::linalg::impl_linalg::<impl ndarray::ArrayBase<S, D>>::'
NUM = 'ndarray::numeric::impl_numeric::<impl ndarray::ArrayBase<S, D>>::'
IX1 = 'ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::'


@model(LIN + 'scaled_add')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0]); a = view_arr(eng, st, v)
    k = args[1]; b = broadcast(eng, st, arr_of(eng, st, args[2]), v.shape, site)
    write_view(eng, st, v, lambda i: fadd(a.get(i), fmul(k, b.get(i))))
    return ret(st, UNIT)


@model(ND + 'zip_mut_with')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0])
    return zip_for_each(eng, st, [v, broadcast(eng, st, arr_of(eng, st, args[1]), v.shape, site)], args[2], site)


def axis_items(eng, st, v, ax, mut):
    if mut:
        w = to_view(eng, st, v)
        return SymIt(0, w.shape[ax], lambda e, s, i: sub_view(w, axis_spec(ax, i, len(w.shape))))
    a = arr_of(eng, st, v)

    def item(e, s, i):
        w = sub_view(ViewMut(None, a.shape, lambda k: k, None), axis_spec(ax, i, len(a.shape)))
        return LamArr(w.shape, lambda idx: a.get(w.fwd(idx)))
    return SymIt(0, a.shape[ax], item)


def one_axis(ax, mut, row=False):
    def m(eng, st, args, targs, site):
        k = ax
        if k is None: k = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
        a = to_view(eng, st, args[0]) if mut else arr_of(eng, st, args[0])
        if row and len(a.shape) != 2: raise Unsupported('rows of a %dd array' % len(a.shape))
        if len(a.shape) == 1: raise Unsupported('axis iteration over a 1d array')
        return ret(st, axis_items(eng, st, args[0], k, mut))
    return m


for nm, ax, row in (('outer_iter', 0, False), ('axis_iter', None, False), ('rows', 0, True), ('columns', 1, True)):
    M[ND + nm] = one_axis(ax, False, row)
    M[ND + nm + '_mut'] = one_axis(ax, True, row)


@model(ND + 'dim')
def _(eng, st, args, targs, site):
    s = arr_of(eng, st, args[0]).shape
    return ret(st, s[0] if len(s) == 1 else tup(*s))


@model(ND + 'raw_dim')
def _(eng, st, args, targs, site): return ret(st, Adt('ndarray::Dim', 0, (ListV(arr_of(eng, st, args[0]).shape),)))


M[ND + 'ndim'] = lambda eng, st, args, targs, site: ret(st, len(arr_of(eng, st, args[0]).shape))
M[ND + 'is_empty'] = lambda eng, st, args, targs, site: ret(st, bor(*[icmp('eq', n, 0) for n in arr_of(eng, st, args[0]).shape]))


@model(ND + 'first', ND + 'last')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0])
    isf = site[2][1][1][1].endswith('first')
    res = []
    for s, t in fork(eng, st, band(*[icmp('lt', 0, n) for n in a.shape])):
        res += ret(s, Some(eng.ref_to(s, a.get(tuple(0 if isf else isub(n, 1) for n in a.shape)))) if t else NONE)
    return res


@model(ND + 'get')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0]); idx = shape_of(eng, st, args[1])
    g = band(*[band(icmp('le', 0, i), icmp('lt', i, n)) for i, n in zip(idx, a.shape)])
    return [(s, 'ret', Some(eng.ref_to(s, a.get(tuple(idx)))) if t else NONE) for s, t in fork(eng, st, g)]


@model(ND + 'get_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); a = eng.read(st, r); idx = shape_of(eng, st, args[1])
    g = band(*[band(icmp('le', 0, i), icmp('lt', i, n)) for i, n in zip(idx, a.shape)])
    return [(s, 'ret', Some(elem_ref(eng, s, r, tuple(idx))) if t else NONE) for s, t in fork(eng, st, g)]


@model(ND + 'uget', ND + 'uget_mut')
def _(eng, st, args, targs, site): return M['std::ops::Index::index'](eng, st, args, targs, site)


@model(ND + 'swap')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0]); a = view_arr(eng, st, v)
    i, j = tuple(shape_of(eng, st, args[1])), tuple(shape_of(eng, st, args[2]))
    bounds(eng, st, i, v.shape, site); bounds(eng, st, j, v.shape, site)
    eq = lambda x, y: band(*[icmp('eq', p, q) for p, q in zip(x, y)])
    write_view(eng, st, v, lambda k: ite_val(eq(k, i), a.get(j), ite_val(eq(k, j), a.get(i), a.get(k))))
    return ret(st, UNIT)


@model(ND + 'indexed_iter')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0])
    if len(a.shape) != 1: raise Unsupported('flat iteration over a 2d array')
    return ret(st, SymIt(0, a.shape[0], lambda e, s, i: tup(i, e.ref_to(s, a.get((i,))))))


@model(ND + 'indexed_iter_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); a = eng.read(st, r)
    if len(a.shape) != 1: raise Unsupported('flat iteration over a 2d array')
    return ret(st, SymIt(0, a.shape[0], lambda e, s, i: tup(i, elem_ref(e, s, r, (i,)))))


@model(ND + 'windows')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0]); w = shape_of(eng, st, args[1])
    if len(a.shape) != 1 or not isinstance(w[0], int) or w[0] < 1: raise Unsupported('windows')
    k = w[0]
    hi = isub(a.shape[0], k - 1)
    if not isinstance(hi, int) and not eng.valid(st, zb(icmp('le', 0, hi))): hi = imax(hi, 0)
    return ret(st, SymIt(0, max(hi, 0) if isinstance(hi, int) else hi, lambda e, s, i: LamArr((k,), lambda j: a.get((iadd(i, j[0]),)))))


def flat(f, one):
    def m(eng, st, args, targs, site):
        a = arr_of(eng, st, args[0])
        n = 1
        for x in a.shape: n = imul(n, x)
        if not isinstance(n, int) or n > 60: return ret(st, anyfl(eng, 'total') if XREAL[0] else Fl(eng.fresh('total', R)))
        acc = fc(one)
        import itertools
        for idx in itertools.product(*[range(x) for x in a.shape]): acc = f(acc, a.get(idx))
        return ret(st, acc)
    return m


M[NUM + 'sum'] = flat(fadd, 0)
M[NUM + 'product'] = flat(fmul, 1)


@model(NUM + 'sum_axis')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0]); ax = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
    n = a.shape[ax]
    if not isinstance(n, int) or n > 60: raise Unsupported('sum over an unknown number of elements')

    def get(idx):
        acc = fc(0)
        for k in range(n): acc = fadd(acc, a.get(tuple(idx[:ax]) + (k,) + tuple(idx[ax:])))
        return acc
    return ret(st, LamArr(a.shape[:ax] + a.shape[ax + 1:], get))


for q in ("&'a A", "&'a mut A"):
    def split(eng, st, args, targs, site, mut='mut' in q):
        ax = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
        k = args[2]
        a = to_view(eng, st, args[0]) if mut else arr_of(eng, st, args[0])
        n = a.shape[ax]
        g = band(icmp('le', 0, k), icmp('le', k, n))
        eng.oblige(st, 'no panic: split in bounds (line %s)' % line(site), g, kind='no-panic')
        st.assume(g)
        spec = lambda lo, m: [('rng', lo, m) if d == ax else ('all',) for d in range(len(a.shape))]
        out = []
        for lo, m in ((0, k), (k, isub(n, k))):
            if mut: out.append(sub_view(a, spec(lo, m)))
            else:
                w = sub_view(ViewMut(None, a.shape, lambda i: i, None), spec(lo, m))
                out.append(LamArr(w.shape, lambda idx, w=w: a.get(w.fwd(idx))))
        return ret(st, tup(*out))
    M['ndarray::impl_views::splitting::<impl ndarray::ArrayBase<ndarray::ViewRepr<%s>, D>>::split_at' % q] = split


@model(IX1 + 'from_iter')
def _(eng, st, args, targs, site): return array_from(eng, st, to_iter(eng, st, args[0]))


def array_from(eng, st, it):
    outs = eager(eng, st, it) if isinstance(length(it), int) else None
    if outs is not None: return [(s, 'ret', LamArr((len(l),), lambda idx, l=l, s=s: eng.proj(s, ListV([eng.deref(s, v) for v in l]), ('e', idx)))) for s, l in outs]
    n = length(it)

    def run(s, j):
        return [(s2, 'ret', eng.deref(s2, v)) for s2, v in it_item(eng, s, it, at_pos(it, j[0]))]
    j, v, s2, ch = generic(eng, st, (n,), run)
    if ch: raise Unsupported('side effect in an iterator')
    return ret(st, LamArr((n,), lambda idx: at(eng, v, j, idx)))


old_vec = M[IX1 + 'from_vec']


@model(IX1 + 'from_vec', 'ndarray::arr1', 'ndarray::aview1')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    return ret(st, v) if isinstance(v, Arr) else old_vec(eng, st, args, targs, site)


@model(NDC + 'default')
def _(eng, st, args, targs, site):
    t = targs[1] if len(targs) > 1 else None
    if 'f64' not in (t, targs[0] if targs else None) and not (isinstance(targs[0], list) and 'f64' in json.dumps(targs[0])): raise Unsupported('default array of %r' % (t,))
    return ret(st, const_arr(shape_of(eng, st, args[0]), fc(0)))


old_collect = M[IT + 'collect']


@model(IT + 'collect')
def _(eng, st, args, targs, site):
    t = targs[1] if len(targs) > 1 else None
    if isinstance(t, list) and t[0] == 'adt':
        it = to_iter(eng, st, args[0])
        if t[1] == 'ndarray::ArrayBase': return array_from(eng, st, it)
        if t[1] in (RESULT, OPTION) and conc(it) is not None:
            wrap = Ok if t[1] == RESULT else Some
            live, done = [(st, [])], []
            for i in conc(it):
                nxt = []
                for s, acc in live:
                    for s2, v in it_item(eng, s, it, i):
                        if ok(v): nxt.append((s2, acc + [v.fields[0]]))
                        else: done.append((s2, 'ret', v))
                live = nxt
            inner = t[2][0] if len(t) > 2 else None
            unit = isinstance(inner, list) and inner[0] == 'tuple' and not inner[1]
            return [(s, 'ret', wrap(UNIT if unit else ListV(acc))) for s, acc in live] + done
        if t[1] == 'std::boxed::Box':
            return old_collect(eng, st, args, [targs[0], ['adt', 'std::vec::Vec', []]], site)
    return old_collect(eng, st, args, targs, site)


M['rayon::iter::ParallelIterator::collect'] = M[IT + 'collect']


# references in options and the constructors under their prelude names
def _opt_copied(eng, st, args, targs, site):
    v = args[0]
    return ret(st, v if v.var == 0 else Adt(v.key, 1, (eng.deref(st, v.fields[0]),)))
for _t in ('&T', '&mut T'):
    for _n in ('copied', 'cloned'): M['std::option::Option::<%s>::%s' % (_t, _n)] = _opt_copied
for _p in ('std::prelude::v1::', 'std::option::Option::', 'std::option::Option::<T>::', 'std::result::Result::', 'std::result::Result::<T, E>::'):
    if 'Result' not in _p: M[_p + 'Some'] = lambda eng, st, args, targs, site: ret(st, Some(args[0]))
    if 'Option' not in _p:
        M[_p + 'Ok'] = lambda eng, st, args, targs, site: ret(st, Ok(args[0]))
        M[_p + 'Err'] = lambda eng, st, args, targs, site: ret(st, Err(args[0]))


# atomic numbers: other calls may have changed them in between, so a read gives any value of the type
def _atomic(eng, st, args, targs, site):
    x = eng.fresh('atomic', I); st.assume(zb(band(icmp('le', 0, x), icmp('le', x, 2 ** 64 - 1))))
    return ret(st, x)
for _t in ('usize', 'u64'):
    for _n in ('fetch_add', 'fetch_sub', 'load', 'swap', 'fetch_max', 'fetch_min'):
        M['std::sync::atomic::Atomic::<%s>::%s' % (_t, _n)] = _atomic
    M['std::sync::atomic::Atomic::<%s>::store' % _t] = lambda eng, st, args, targs, site: ret(st, UNIT)
for _n in ('load', 'swap', 'fetch_or', 'fetch_and'): M['std::sync::atomic::Atomic::<bool>::' + _n] = lambda eng, st, args, targs, site: ret(st, eng.fresh('atomic', B))
M['std::sync::atomic::Atomic::<bool>::store'] = lambda eng, st, args, targs, site: ret(st, UNIT)


# values shared between calls (statics, thread locals): their history is unknown, so a read gives any value of the type;
# cells made by the function itself are exact
def any_value(eng, st, ty, name):
    ty = eng.subst(ty, {})
    if isinstance(ty, list) and ty[0] == 'tuple':
        acc = [(st, ())]
        for i, t in enumerate(ty[1]): acc = [(s2, vs + (v,)) for s, vs in acc for s2, v in any_value(eng, s, t, '%s.%d' % (name, i))]
        return [(s, tup(*vs)) for s, vs in acc]
    if isinstance(ty, list) and ty[0] == 'adt' and ty[1] == OPTION:
        return [(st.clone(), NONE)] + [(s, Some(v)) for s, v in any_value(eng, st.clone(), ty[2][0], name)]
    v = Unspec(eng, name, ty).get(eng, st)
    if isinstance(v, Unspec): raise Unsupported('arbitrary value of %r' % (ty,))
    return [(st, v)]


CELL = 'std::cell::Cell'


def own_cell(eng, st, a):
    """reference to the content of a cell made in this function, or None"""
    if not isinstance(a, Ref): return None
    r = eng.strip(st, a); v = eng.read(st, r)
    if isinstance(v, Adt) and v.key == CELL: return Ref(r.cell, r.path + (('f', 0),), True)
    if isinstance(v, (Opaque, Unspec)): return None
    raise Unsupported('cell %r' % (v,))


def _cell_get(eng, st, args, targs, site):
    r = own_cell(eng, st, args[0])
    return ret(st, eng.read(st, r)) if r else [(s, 'ret', v) for s, v in any_value(eng, st, targs[0], 'cell')]


def _cell_set(eng, st, args, targs, site):
    r = own_cell(eng, st, args[0])
    if r: eng.write(st, r, args[1])
    return ret(st, UNIT)


def _cell_replace(eng, st, args, targs, site):
    out = _cell_get(eng, st, args, targs, site)
    for s, _, _v in out: _cell_set(eng, s, args, targs, site)
    return out


for _P in ('std::cell::Cell::<T>::', 'std::thread::LocalKey::<std::cell::Cell<T>>::'):
    M[_P + 'get'], M[_P + 'set'], M[_P + 'replace'] = _cell_get, _cell_set, _cell_replace
M['std::cell::Cell::<T>::new'] = lambda eng, st, args, targs, site: ret(st, Adt(CELL, 0, (args[0],)))


@model('std::thread::LocalKey::<T>::with')
def _(eng, st, args, targs, site):
    return call(eng, st, args[1], [eng.ref_to(st, Opaque('thread local'))])


# cells and locks whose content is reached by a guard: the guard is a reference to the content
GUARDED = {'std::cell::RefCell', 'std::sync::Mutex', 'std::sync::RwLock'}


def guarded(eng, st, a, ty):
    """[(state, reference to the content)]"""
    r = eng.strip(st, a) if isinstance(a, Ref) else a
    v = eng.read(st, r) if isinstance(r, Ref) else r
    if isinstance(v, Adt) and v.key in GUARDED: return [(st, Ref(r.cell, r.path + (('f', 0),), True))]
    if isinstance(v, (Opaque, Unspec)): return [(s, eng.ref_to(s, x, True)) for s, x in any_value(eng, st, ty, 'shared')]
    raise Unsupported('guarded %r' % (v,))


def _guard(wrap):
    def m(eng, st, args, targs, site): return [(s, 'ret', wrap(r)) for s, r in guarded(eng, st, args[0], targs[0])]
    return m


for _t in GUARDED: M[_t + '::<T>::new'] = lambda eng, st, args, targs, site, t=_t: ret(st, Adt(t, 0, (args[0],)))
for _n in ('borrow', 'borrow_mut'): M['std::cell::RefCell::<T>::' + _n] = _guard(lambda r: Adt('guard', 0, (r,)))
for _n in ('Mutex::<T>::lock', 'RwLock::<T>::read', 'RwLock::<T>::write'): M['std::sync::' + _n] = _guard(lambda r: Ok(Adt('guard', 0, (r,))))
for _n in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut'):
    def _deref(eng, st, args, targs, site, f=M[_n]):
        v = eng.read(st, args[0]) if isinstance(args[0], Ref) else None
        return ret(st, v.fields[0]) if isinstance(v, Adt) and v.key == 'guard' else f(eng, st, args, targs, site)
    M[_n] = _deref


@model('std::cell::RefCell::<T>::replace')
def _(eng, st, args, targs, site):
    res = []
    for s, r in guarded(eng, st, args[0], targs[0]):
        v = eng.read(s, r); eng.write(s, r, args[1]); res.append((s, 'ret', v))
    return res


for _n in ('with_borrow', 'with_borrow_mut'):
    M['std::thread::LocalKey::<std::cell::RefCell<T>>::' + _n] = lambda eng, st, args, targs, site: (
        [o for s, r in guarded(eng, st, Opaque('thread local'), targs[0]) for o in call(eng, s, args[1], [r])])


# the environment of the process and the clock may answer anything
def _text(eng): return StrV(Opaque('anytext', eng.fresh_name()))


M['std::env::var'] = lambda eng, st, args, targs, site: [(st.clone(), 'ret', Ok(_text(eng))), (st, 'ret', Err(Opaque('err', None)))]
M['std::env::var_os'] = lambda eng, st, args, targs, site: [(st.clone(), 'ret', Some(_text(eng))), (st, 'ret', NONE)]
for _t in ('std::time::Instant', 'std::time::SystemTime'): M[_t + '::now'] = lambda eng, st, args, targs, site: ret(st, Opaque('time'))
M['std::time::Instant::elapsed'] = M['std::time::Instant::duration_since'] = lambda eng, st, args, targs, site: ret(st, Opaque('duration'))


def _secs(eng, st, args, targs, site):
    x = eng.fresh('secs', R); st.assume(x >= 0)
    return ret(st, Fl(x))


def _ticks(eng, st, args, targs, site):
    x = eng.fresh('ticks', I); st.assume(z3.And(x >= 0, x < 2 ** 64))
    return ret(st, x)


for _t in ('std::time::Duration', 'core::time::Duration'):
    M[_t + '::as_secs_f64'] = _secs
    for _n in ('as_secs', 'as_millis', 'as_micros', 'as_nanos'): M[_t + '::' + _n] = _ticks


def is_static(eng, st, a):
    try: return isinstance(a, Opaque) or isinstance(a, Ref) and isinstance(eng.read(st, a), Opaque)
    except (KeyError, Unsupported): return False


@model('std::sync::OnceLock::<T>::get_or_init')
def _(eng, st, args, targs, site):
    if not is_static(eng, st, args[0]): raise Unsupported('OnceLock that is no static')
    res = []
    for s, k, v in call(eng, st.clone(), args[1], []):
        res.append((s, k, eng.ref_to(s, v) if k == 'ret' else v))
    c = args[1]
    if not (isinstance(c, Clos) and not c.ups and not c.targs):
        # the first call may have been one with other captured values or type arguments
        res += [(s, 'ret', eng.ref_to(s, v)) for s, v in any_value(eng, st.clone(), targs[0], 'once')]
    return res


@model('std::sync::OnceLock::<T>::get')
def _(eng, st, args, targs, site):
    if not is_static(eng, st, args[0]): raise Unsupported('OnceLock that is no static')
    return [(st.clone(), 'ret', NONE)] + [(s, 'ret', Some(eng.ref_to(s, v))) for s, v in any_value(eng, st, targs[0], 'once')]


def known_order(eng, st, f, items, what):
    """keys of list elements, all of them constants"""
    ks = []
    for it in items:
        outs = call_f(eng, st, eng.ref_to(st, f, True), [eng.ref_to(st, it)])
        outs = [o for o in outs if o[1] == 'ret']
        if len(outs) != 1 or eng.diff_cells(st, outs[0][0]): raise Unsupported(what)
        k = plain_key(eng, outs[0][0], outs[0][2])
        if k is None: raise Unsupported(what + ': key not known')
        ks.append(k)
    return ks


def plain_key(eng, s, v):
    v = eng.deref(s, v)
    if isinstance(v, (bool, int)): return v
    if isinstance(v, Adt):
        ks = [plain_key(eng, s, x) for x in v.fields]
        return None if any(k is None for k in ks) else (v.var,) + tuple(ks)
    if isinstance(v, StrV) and all(isinstance(p, str) for p in v.parts): return ''.join(v.parts)
    return None


def listmut(eng, st, r, what):
    r = eng.strip(st, r); v = eng.read(st, r)
    if not isinstance(v, ListV): raise Unsupported(what + ' of a list of unknown length')
    return r, v


def _sort_by_key(eng, st, args, targs, site):
    r, v = listmut(eng, st, args[0], 'sort')
    ks = known_order(eng, st, args[1], v.items, 'sort_by_key')
    eng.write(st, r, ListV([v.items[i] for i in sorted(range(len(ks)), key=lambda i: ks[i])]))
    return ret(st, UNIT)
for _n in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'): M['std::slice::<impl [T]>::' + _n] = _sort_by_key


@model('std::vec::Vec::<T, A>::dedup_by_key')
def _(eng, st, args, targs, site):
    r, v = listmut(eng, st, args[0], 'dedup')
    ks = known_order(eng, st, args[1], v.items, 'dedup_by_key')
    eng.write(st, r, ListV([x for i, x in enumerate(v.items) if i == 0 or ks[i] != ks[i - 1]]))
    return ret(st, UNIT)


@model('std::vec::Vec::<T, A>::dedup')
def _(eng, st, args, targs, site):
    r, v = listmut(eng, st, args[0], 'dedup')
    ks = [plain_key(eng, st, x) for x in v.items]
    if any(k is None for k in ks): raise Unsupported('dedup: elements not known')
    eng.write(st, r, ListV([x for i, x in enumerate(v.items) if i == 0 or ks[i] != ks[i - 1]]))
    return ret(st, UNIT)


for n in ('abs', 'is_nan', 'is_finite', 'is_infinite', 'is_sign_positive', 'is_sign_negative', 'max', 'min', 'signum', 'copysign', 'clamp'):
    # exact, hence the same in single precision
    for P in ('core::f32::<impl f32>::', 'std::f32::<impl f32>::'):
        if F1 + n in M: M[P + n] = M[F1 + n]
