"""Trusted models of foreign functions (core/std/alloc, ndarray, rayon, eyre) used by the verified code.

Every model is an assumed contract on a dependency and is listed in the evidence of the checks that use it.
"""
import z3
from terms import *
from engine import *

M = {}


def model(*keys):
    def deco(f):
        for k in keys: M[k] = f
        return f
    return deco


def lookup(key):
    f = M.get(key)
    if f: return f
    for pre, fn in PREFIX:
        if key.startswith(pre): return fn
    return None


def ret(st, v): return [(st, 'ret', v)]


def pure(f):
    """model of a pure function of dereferenced scalar arguments"""
    def m(eng, st, args, targs, site):
        return ret(st, f(*[eng.deref(st, a) for a in args]))
    return m


F1 = 'core::f64::<impl f64>::'
F2 = 'std::f64::<impl f64>::'


def both(name, f):
    M[F1 + name] = M[F2 + name] = M['std::' + F1[6:] + name] = pure(f)


both('abs', fabs); both('is_finite', lambda a: a.finite); both('is_nan', lambda a: a.nan)
both('is_infinite', lambda a: bor(a.pinf, a.ninf))
both('is_sign_positive', sign_positive); both('is_sign_negative', lambda a: bnot(sign_positive(a)))
both('max', fmax); both('min', fmin); both('recip', lambda a: fdiv(fc(1), a)); both('sqrt', fsqrt)
both('exp', fexp); both('ln', fln)
both('mul_add', lambda a, b, c: fadd(fmul(a, b), c))
both('clamp', lambda a, lo, hi: fite(flt(a, lo), lo, fite(flt(hi, a), hi, a)))
both('log10', lambda a: Fl(z3.Function('log10', R, R)(a.v), a.nan, a.pinf, a.ninf))
both('signum', lambda a: fite(a.nan, a, fite(sign_positive(a), fc(1), fc(-1))))
both('copysign', lambda a, b: fite(sign_positive(b), fabs(a), fneg(fabs(a))))


def fpowi(a, n):
    if isinstance(n, int) and 0 <= n <= 8:
        r = fc(1)
        for _ in range(n): r = fmul(r, a)
        return r
    if isinstance(n, int) and -8 <= n < 0: return fdiv(fc(1), fpowi(a, -n))
    return Fl(z3.Function('powi', R, I, R)(a.v, zi(n)), a.nan)


both('powi', fpowi)


def fround_like(name):
    def f(a):
        c = cv(a.v)
        fl = z3.ToReal(z3.ToInt(a.v)) if c is None else rv(c.__floor__())
        if name == 'floor': return Fl(fl, a.nan, a.pinf, a.ninf)
        if name == 'ceil':
            v = rneg(z3.ToReal(z3.ToInt(rneg(a.v)))) if c is None else rv(c.__ceil__())
            return Fl(v, a.nan, a.pinf, a.ninf)
        raise Unsupported(name)
    return f


both('floor', fround_like('floor')); both('ceil', fround_like('ceil'))
both('powf', lambda a, b: Fl(z3.Function('powf', R, R, R)(a.v, b.v)))
both('to_bits', lambda a: (_ for _ in ()).throw(Unsupported('to_bits')))


def imin(a, b): return iite(icmp('le', a, b), a, b)
def imax(a, b): return iite(icmp('ge', a, b), a, b)


@model('std::cmp::Ord::min')
def _(eng, st, args, targs, site): return ret(st, imin(*args))


@model('std::cmp::Ord::max')
def _(eng, st, args, targs, site): return ret(st, imax(*args))


for w in ('usize', 'u64', 'u32', 'i32', 'isize'):
    if w[0] == 'u': M['core::num::<impl %s>::saturating_sub' % w] = pure(lambda a, b: imax(isub(a, b), 0))
    M['core::num::<impl %s>::abs_diff' % w] = pure(lambda a, b: iite(icmp('ge', a, b), isub(a, b), isub(b, a)))
    M['core::num::<impl %s>::min' % w] = pure(imin)
    M['core::num::<impl %s>::max' % w] = pure(imax)


def foreign_const(eng, key, ty):
    consts = {'EPSILON': 2.0 ** -52, 'MAX': 1.7976931348623157e308, 'MIN': -1.7976931348623157e308,
              'MIN_POSITIVE': 2.2250738585072014e-308, 'PI': 3.141592653589793}
    n = key.split('::')[-1]
    if 'f64' in key and n in consts: return f64_exact(consts[n])
    if 'f64' in key and n == 'INFINITY': return Fl(rv(0), pinf=True)
    if 'f64' in key and n == 'NEG_INFINITY': return Fl(rv(0), ninf=True)
    if 'f64' in key and n == 'NAN': return Fl(rv(0), nan=True)
    raise Unsupported('foreign constant %s' % key)


# ---------------------------------------------------------------- comparison, conversion, clone
def deep_eq(eng, st, a, b):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if isinstance(a, Fl): return feq(a, b)
    if isinstance(a, (bool, int)) or is_z3(a):
        if isinstance(a, bool) or (is_z3(a) and z3.is_bool(a)): return beq(a, b)
        return icmp('eq', a, b)
    if isinstance(a, ListV):
        if len(a.items) != len(b.items): return False
        return band(*[deep_eq(eng, st, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, StrV) and isinstance(b, StrV):
        if a.lit() is not None and b.lit() is not None: return a.lit() == b.lit()
        return str_eq(a, b)
    if isinstance(a, Adt):
        if a.key in eng.adts:
            # local PartialEq implementation
            o = eng.foreign_trait(st, 'std::cmp::PartialEq::eq', [['adt', a.key, []], ['adt', b.key, []]], [eng.ref_to(st, a), eng.ref_to(st, b)])
            if o and len(o) == 1: return o[0][2]
            raise Unsupported('comparison of %s' % a.key)
        if a.var != b.var: return False
        return band(*[deep_eq(eng, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == 'typeid': return a.data == b.data
    raise Unsupported('comparison of %r' % (a,))


def str_eq(a, b):
    return z3.Function('streq', I, I, B)(str_id(a), str_id(b)) if str(a) != str(b) else True


_sid = {}
def str_id(a): return z3.IntVal(_sid.setdefault(str(a.parts), len(_sid)))


@model('std::cmp::PartialEq::eq')
def _(eng, st, args, targs, site): return ret(st, deep_eq(eng, st, *args))


@model('std::cmp::PartialEq::ne')
def _(eng, st, args, targs, site): return ret(st, bnot(deep_eq(eng, st, *args)))


def cmp_model(f, i):
    def m(eng, st, args, targs, site):
        a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
        if isinstance(a, Fl): return ret(st, f(a, b))
        return ret(st, icmp(i, a, b))
    return m


M['std::cmp::PartialOrd::gt'] = cmp_model(lambda a, b: flt(b, a), 'gt')
M['std::cmp::PartialOrd::ge'] = cmp_model(lambda a, b: fle(b, a), 'ge')
M['std::cmp::PartialOrd::lt'] = cmp_model(flt, 'lt')
M['std::cmp::PartialOrd::le'] = cmp_model(fle, 'le')


@model('std::clone::Clone::clone')
def _(eng, st, args, targs, site):
    return clone_val(eng, st, eng.read(st, args[0]), targs)


def clone_val(eng, st, v, targs=None):
    if isinstance(v, Adt) and v.key in eng.adts:
        ts = targs if targs else None
        im, b = (eng.find_impl('std::clone::Clone', ts[0]) if ts else (None, None))
        if im is None:
            for i in eng.impls:
                if i['trait'] and i['trait'][0] == 'std::clone::Clone' and i['self'][0] == 'adt' and i['self'][1] == v.key: im, b = i, {}
        if im:
            for n, k in im['items']:
                if n == 'clone': return eng.exec_fn(st, k, dict(b), [eng.ref_to(st, v)])
        raise Unsupported('clone of %s' % v.key)
    if isinstance(v, (Fl, bool, int, Arr, StrV, Opaque, Ref, FnV, Clos, SymList)) or is_z3(v): return ret(st, v)
    if isinstance(v, BoxV): return ret(st, BoxV(eng.new_cell(st, st.cells[v.cell])))
    if isinstance(v, (ListV, Adt)):
        items = v.items if isinstance(v, ListV) else v.fields
        outs = [(st, [])]
        for it in items:
            nxt = []
            for s, acc in outs:
                for o in clone_val(eng, s, it):
                    nxt.append((o[0], acc + [o[2]]))
            outs = nxt
        return [(s, 'ret', ListV(a) if isinstance(v, ListV) else Adt(v.key, v.var, a)) for s, a in outs]
    if isinstance(v, SymIt): return ret(st, v)
    raise Unsupported('clone of %r' % (v,))


@model('std::default::Default::default')
def _(eng, st, args, targs, site):
    r = eng.foreign_trait(st, 'std::default::Default::default', targs, args)
    if r is not None: return r
    t = targs[0]
    if t == 'f64': return ret(st, fc(0))
    if isinstance(t, str) and t in eng.RNG: return ret(st, 0)
    if t == 'bool': return ret(st, False)
    if isinstance(t, list) and t[0] == 'adt' and t[1] == 'std::string::String': return ret(st, StrV(''))
    if isinstance(t, list) and t[0] == 'adt' and t[1] == 'std::vec::Vec': return ret(st, ListV(()))
    raise Unsupported('default of %r' % (t,))


@model('std::convert::From::from', 'std::convert::Into::into')
def _(eng, st, args, targs, site):
    r = eng.foreign_trait(st, 'std::convert::From::from', targs, args)
    if r is not None: return r
    v = args[0]
    t = targs[0]
    if isinstance(t, list) and t[0] == 'adt' and t[1].endswith('SliceInfoElem'): return ret(st, v)
    if isinstance(v, StrV): return ret(st, v)
    if isinstance(t, list) and t == (targs[1] if len(targs) > 1 else None): return ret(st, v)
    if t == 'f64' and (isinstance(v, int) or is_z3(v)): return ret(st, ffrom_int(v))
    if isinstance(v, Ref) and isinstance(eng.deref(st, v), StrV): return ret(st, eng.deref(st, v))
    raise Unsupported('From::from %r' % (t,))


# ---------------------------------------------------------------- Result / Option / errors
@model('std::ops::Try::branch')
def _(eng, st, args, targs, site):
    v = args[0]
    if isinstance(v, Adt) and v.key == RESULT:
        return ret(st, Adt(CF, 0, v.fields) if v.var == 0 else Adt(CF, 1, (v,)))
    if isinstance(v, Adt) and v.key == OPTION:
        return ret(st, Adt(CF, 0, v.fields) if v.var == 1 else Adt(CF, 1, (v,)))
    raise Unsupported('Try::branch of %r' % (v,))


@model('std::ops::FromResidual::from_residual')
def _(eng, st, args, targs, site): return ret(st, args[0])


ERR = lambda *c: Err(Opaque('err', c))


@model('color_eyre::eyre::WrapErr::context', 'color_eyre::eyre::WrapErr::wrap_err', 'color_eyre::eyre::WrapErr::wrap_err_with',
       'color_eyre::eyre::WrapErr::with_context', 'color_eyre::eyre::ContextCompat::context', 'std::result::Result::<T, E>::map_err')
def _(eng, st, args, targs, site):
    v = args[0]
    if isinstance(v, Adt) and v.key == RESULT:
        return ret(st, v if v.var == 0 else Err(Opaque('err', (v.fields[0],))))
    raise Unsupported('context of %r' % (v,))


PREFIX = []


def prefix(p):
    def deco(f):
        PREFIX.append((p, f)); return f
    return deco


@prefix('color_eyre::eyre::private::')
def _(eng, st, args, targs, site): return ret(st, Opaque('err', tuple(args)))


@model('color_eyre::eyre::Report::msg', 'color_eyre::eyre::Report::new')
def _(eng, st, args, targs, site): return ret(st, Opaque('err', tuple(args)))


@prefix('core::fmt::rt::')
@prefix('std::fmt::Arguments')
@prefix('std::fmt::format')
@prefix('std::fmt::Formatter')
@prefix('core::fmt::')
def _(eng, st, args, targs, site): return ret(st, Opaque('fmt', tuple(args)))


PREFIX.append(('std::io::_print', lambda eng, st, args, targs, site: ret(st, UNIT)))
PREFIX.append(('std::io::_eprint', lambda eng, st, args, targs, site: ret(st, UNIT)))


@model('std::hint::must_use')
def _(eng, st, args, targs, site): return ret(st, args[0])


@model('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def _(eng, st, args, targs, site):
    v = args[0]
    eng.oblige(st, 'no panic: unwrap of an error (line %s)' % line(site), v.var == 0, kind='no-panic')
    return ret(st, v.fields[0]) if v.var == 0 else []


@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def _(eng, st, args, targs, site):
    v = args[0]
    eng.oblige(st, 'no panic: unwrap of None (line %s)' % line(site), v.var == 1, kind='no-panic')
    return ret(st, v.fields[0]) if v.var == 1 else []


@model('std::result::Result::<T, E>::is_err')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]).var == 1)
@model('std::result::Result::<T, E>::is_ok')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]).var == 0)
@model('std::option::Option::<T>::is_some')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]).var == 1)
@model('std::option::Option::<T>::is_none')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]).var == 0)
@model('std::result::Result::<T, E>::and')
def _(eng, st, args, targs, site): return ret(st, args[1] if args[0].var == 0 else args[0])
@model('std::result::Result::<T, E>::or')
def _(eng, st, args, targs, site): return ret(st, args[0] if args[0].var == 0 else args[1])


@model('std::result::Result::<T, E>::and_then')
def _(eng, st, args, targs, site):
    if args[0].var == 1: return ret(st, args[0])
    return eng.call_value(st, args[1], [args[0].fields[0]])


@model('std::result::Result::<T, E>::map', 'std::option::Option::<T>::map')
def _(eng, st, args, targs, site):
    ok = 0 if args[0].key == RESULT else 1
    if args[0].var != ok: return ret(st, args[0])
    return [(o[0], o[1], Adt(args[0].key, ok, (o[2],)) if o[1] == 'ret' else o[2]) for o in eng.call_value(st, args[1], [args[0].fields[0]])]


def line(site):
    return site[2][-1] if site and site[2] else '?'


@model('std::any::TypeId::of')
def _(eng, st, args, targs, site): return ret(st, Opaque('typeid', type_str(targs[0])))


def type_str(t):
    if is_z3(t): return t.sexpr()
    if isinstance(t, (list, tuple)): return '[' + ','.join(type_str(x) for x in (['c'] + list(t[1:]) if t and t[0] in ('cint', 'cval') else t)) + ']'
    return str(t)


# ---------------------------------------------------------------- closures
@model('std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::FnOnce::call_once')
def _(eng, st, args, targs, site):
    f = args[0]
    sr = None
    while isinstance(f, (Ref, BoxV)):
        sr = f if isinstance(f, Ref) else Ref(f.cell)
        f = eng.deref1(st, f)
    a = args[1].fields if isinstance(args[1], Adt) and args[1].key == '()' else (args[1],)
    if isinstance(f, Clos): return eng.call_closure(st, f, list(a), sr)
    return eng.call_value(st, f, list(a))


# ---------------------------------------------------------------- Box / Vec / slices / strings
@model('std::boxed::Box::<T>::new')
def _(eng, st, args, targs, site): return ret(st, BoxV(eng.new_cell(st, args[0])))


@model('std::boxed::Box::<T>::new_uninit')
def _(eng, st, args, targs, site): return ret(st, BoxV(eng.new_cell(st, UNINIT)))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(eng, st, args, targs, site):
    v = st.cells[args[0].cell]
    while isinstance(v, Adt): v = v.fields[-1]
    return ret(st, v)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def _(eng, st, args, targs, site): return ret(st, ListV(()))


@model('std::string::String::new', 'std::string::String::with_capacity')
def _(eng, st, args, targs, site): return ret(st, StrV(''))


def grown(v, x):
    if isinstance(v, GrowList): return GrowList(v.mark, v.items + (x,))
    if not isinstance(v, ListV): raise Unsupported('push onto %r' % (v,))
    return ListV(v.items + (x,))


@model('std::vec::Vec::<T, A>::push')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    eng.write(st, r, grown(v, args[1]))
    return ret(st, UNIT)


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]))


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str',
       'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'core::str::<impl str>::as_bytes', 'std::vec::Vec::<T, A>::as_mut_slice',
       'std::string::String::as_bytes')
def _(eng, st, args, targs, site): return ret(st, args[0])


@model('std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned', 'std::string::String::from', 'core::str::<impl str>::to_owned')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    return ret(st, v if isinstance(v, StrV) else Opaque('fmt', (v,)))


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if isinstance(v, StrV):
        if v.lit() is not None: return ret(st, v.lit() == '')
    if isinstance(v, StrV) and len(v.parts) == 1 and isinstance(v.parts[0], Opaque) and v.parts[0].tag == 'sym':
        return ret(st, z3.Bool('empty!' + str(v.parts[0].data)))
    raise Unsupported('is_empty')


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if isinstance(v, SymList): return ret(st, icmp('eq', v.n, 0))
    return ret(st, len(v.items) == 0)


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if isinstance(v, ListV): return ret(st, len(v.items))
    if isinstance(v, SymList): return ret(st, v.n)
    return ret(st, v.shape[0])


# ---------------------------------------------------------------- iterators
class SymIt:
    """iterator over item(lo) .. item(hi-1)"""
    def __init__(self, lo, hi, item, rev=False, arr=None, lst=None, lref=None): self.lo, self.hi, self.item, self.rev, self.arr, self.lst, self.lref = lo, hi, item, rev, arr, lst, lref


def list_iter(l, ref=None): return SymIt(0, l.n, None, lst=l, lref=ref)


def list_items(eng, st, l, i, lref=None):
    """[(state, reference to element i)], one per alternative"""
    out = []
    for c, v in l.alts:
        s = st.clone(); g = c(i)
        if g is not True:
            s.assume(g)
            if not eng.feasible(s): continue
        x = v(i)
        r = eng.ref_to(s, x, lref is not None)
        eng.elem_log.append((l, lref, r.cell, x))
        out.append((s, r))
    return out


class MapIt:
    def __init__(self, inner, f, kind='map'): self.inner, self.f, self.kind = inner, f, kind


class PyIt(MapIt):
    """adapter given by a function of (engine, state, base index, item): an item, or a list of (state, item)"""
    def __init__(self, inner, fn): MapIt.__init__(self, inner, None); self.fn = fn


RANGE = ('std::ops::Range', 'std::ops::RangeInclusive')


def to_iter(eng, st, v):
    if isinstance(v, (SymIt, MapIt)): return v
    if isinstance(v, Adt) and v.key == 'std::ops::Range': return SymIt(v.fields[0], v.fields[1], lambda e, s, i: i)
    if isinstance(v, ListV): return SymIt(0, len(v.items), lambda e, s, i: v.items[i])
    if isinstance(v, SymList): return list_iter(v)
    if isinstance(v, Ref):
        r = eng.strip(st, v); w = eng.read(st, r)
        if isinstance(w, (SymIt, MapIt)): return w
        if isinstance(w, SymList): return list_iter(w, r if v.mut else None)
        if isinstance(w, ListV): return SymIt(0, len(w.items), lambda e, s, i: Ref(r.cell, r.path + (('e', (i,)),), v.mut))
        if isinstance(w, Arr):
            return arr_iter(eng, st, r, w, v.mut)
        if isinstance(w, Adt) and w.key == 'std::ops::Range': return SymIt(w.fields[0], w.fields[1], lambda e, s, i: i)
    if isinstance(v, Arr) and len(v.shape) == 1:
        return SymIt(0, v.shape[0], lambda e, s, i: e.ref_to(s, v.get((i,))))
    if isinstance(v, Adt) and v.key == OPTION:
        return SymIt(0, v.var, lambda e, s, i: v.fields[0])
    raise Unsupported('iterator over %r' % (v,))


def arr_iter(eng, st, r, w, mut):
    if isinstance(w, ViewMut):
        if len(w.shape) != 1: raise Unsupported('iteration over a 2d view')
        return SymIt(0, w.shape[0], lambda e, s, i: elem_ref(e, s, r, (i,)))
    if len(w.shape) == 1:
        if mut: return SymIt(0, w.shape[0], lambda e, s, i: Ref(r.cell, r.path + (('e', (i,)),), True))
        return SymIt(0, w.shape[0], lambda e, s, i: e.ref_to(s, w.get((i,))), arr=w)
    if isinstance(w.shape[0], int):
        raise Unsupported('flat iteration over a 2d array')
    raise Unsupported('flat iteration over a 2d array')


@model('std::ops::RangeInclusive::<Idx>::new')
def _(eng, st, args, targs, site): return ret(st, Adt('std::ops::Range', 0, (args[0], iadd(args[1], 1))))


@model('std::iter::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       'ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::iter', 'ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::iter_mut',
       'rayon::iter::IntoParallelRefMutIterator::par_iter_mut', 'rayon::iter::IntoParallelRefIterator::par_iter',
       'rayon::iter::IntoParallelIterator::into_par_iter')
def _(eng, st, args, targs, site): return ret(st, to_iter(eng, st, args[0]))


def with_base(it, g):
    """the iterator with its base replaced by g(base)"""
    if isinstance(it, PyIt): return PyIt(with_base(it.inner, g), it.fn)
    if isinstance(it, MapIt): return MapIt(with_base(it.inner, g), it.f)
    return g(it)


def effects(it):
    """a closure may run once per element of the iterator"""
    while isinstance(it, MapIt):
        if not isinstance(it, PyIt): return True
        it = it.inner
    return False


def resized(b, lo, hi, rev=None): return SymIt(lo, hi, b.item, b.rev if rev is None else rev, b.arr, b.lst, b.lref)


@model('std::iter::Iterator::rev')
def _(eng, st, args, targs, site):
    return ret(st, with_base(to_iter(eng, st, args[0]), lambda b: resized(b, b.lo, b.hi, not b.rev)))


@model('std::iter::Iterator::enumerate')
def _(eng, st, args, targs, site):
    it = to_iter(eng, st, args[0])
    b = it_base(it)
    lo, hi, rev = b.lo, b.hi, b.rev
    pos = lambda i: isub(i, lo) if not rev else isub(isub(hi, 1), i)
    if isinstance(it, SymIt) and not it.lst: return ret(st, SymIt(lo, hi, lambda e, s, i: tup(pos(i), it.item(e, s, i)), rev))
    return ret(st, PyIt(it, lambda e, s, i, v: tup(pos(i), v)))


@model('std::iter::Iterator::zip', 'std::iter::zip')
def _(eng, st, args, targs, site):
    a, b = to_iter(eng, st, args[0]), to_iter(eng, st, args[1])
    x, y = it_base(a), it_base(b)
    n = isub(x.hi, x.lo); m = isub(y.hi, y.lo)
    same = icmp('eq', n, m) is True
    simple = isinstance(a, SymIt) and isinstance(b, SymIt) and not a.lst and not b.lst
    if simple and x.rev == y.rev and (same or not x.rev):
        if not same: n = imin(n, m)
        return ret(st, SymIt(0, n, lambda e, s, i: tup(a.item(e, s, iadd(a.lo, i)), b.item(e, s, iadd(b.lo, i))), a.rev))
    if x.lref is not None or y.lref is not None: raise Unsupported('zip over mutable list elements')
    if not same and (effects(a) or effects(b)): raise Unsupported('zip of mapped iterators of different length')
    if not same: n = imin(n, m)
    at = lambda z, k: iadd(z.lo, k) if not z.rev else isub(isub(z.hi, 1), k)

    def both(e, s, k, _v):
        return [(s2, tup(u, w)) for s1, u in it_item(e, s, a, at(x, k)) for s2, w in it_item(e, s1, b, at(y, k))]
    return ret(st, PyIt(SymIt(0, n, lambda e, s, i: i), both))


@model('std::iter::Iterator::skip')
def _(eng, st, args, targs, site):
    k = args[1]
    if effects(to_iter(eng, st, args[0])): raise Unsupported('skip after map')
    return ret(st, with_base(to_iter(eng, st, args[0]), lambda b: resized(b, imin(iadd(b.lo, k), b.hi), b.hi) if not b.rev else resized(b, b.lo, imax(isub(b.hi, k), b.lo))))


@model('std::iter::Iterator::take')
def _(eng, st, args, targs, site):
    k = args[1]
    return ret(st, with_base(to_iter(eng, st, args[0]), lambda b: resized(b, b.lo, imin(iadd(b.lo, k), b.hi)) if not b.rev else resized(b, imax(isub(b.hi, k), b.lo), b.hi)))


@model('std::iter::Iterator::map')
def _(eng, st, args, targs, site): return ret(st, MapIt(to_iter(eng, st, args[0]), args[1]))


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def _(eng, st, args, targs, site):
    it = to_iter(eng, st, args[0])
    if not isinstance(it, SymIt) or it.lst: return ret(st, PyIt(it, lambda e, s, i, v: e.deref(s, v)))
    return ret(st, SymIt(it.lo, it.hi, lambda e, s, i: e.deref(s, it.item(e, s, i)), it.rev))


def it_item(eng, st, it, i):
    """[(state, item)] of the base index i"""
    if isinstance(it, SymIt):
        if it.lst is not None: return list_items(eng, st, it.lst, i, it.lref)
        return [(st, it.item(eng, st, i))]
    out = []
    for s, v in it_item(eng, st, it.inner, i):
        if isinstance(it, PyIt):
            r = it.fn(eng, s, i, v)
            out += r if isinstance(r, list) else [(s, r)]
            continue
        for o in eng.call_value(s, it.f, [v]):
            if o[1] != 'ret': raise Unsupported('panic in an adapter')
            out.append((o[0], o[2]))
    return out


def it_base(it):
    while isinstance(it, MapIt): it = it.inner
    return it


def rebase(it, lo, hi): return with_base(it, lambda b: resized(b, lo, hi))


def conc(it):
    b = it_base(it)
    if isinstance(b.lo, int) and isinstance(b.hi, int): r = range(b.lo, b.hi)
    else:
        n = isub(b.hi, b.lo)
        if not isinstance(n, int): return None
        r = [iadd(b.lo, k) for k in range(n)] if n <= 200 else range(n)
    if len(r) > 200: raise Unsupported('long loop')
    return list(reversed(r)) if b.rev else list(r)


@model('std::iter::Iterator::next')
def _(eng, st, args, targs, site):
    frame, b, t = site
    ref = eng.strip(st, args[0])
    it = to_iter(eng, st, eng.read(st, ref))
    idx = conc(it)
    bs = it_base(it)
    if idx is not None:
        if not idx: return ret(st, NONE)
        i = idx[0]
        eng.write(st, ref, rebase(it, bs.lo, isub(bs.hi, 1)) if bs.rev else rebase(it, iadd(bs.lo, 1), bs.hi))
        return [(s, 'ret', Some(v)) for s, v in it_item(eng, st, it, i)]
    if frame is None: raise Unsupported('next() on a symbolic range')
    return eng.summarize_for(st, frame, b, t, ref, it)


@model('std::iter::Iterator::for_each')
def _(eng, st, args, targs, site):
    it, f = to_iter(eng, st, args[0]), args[1]
    fref = eng.ref_to(st, f, True) if not isinstance(f, Ref) else f
    idx = conc(it)
    if idx is not None:
        outs = [(st, 'ret', UNIT)]
        for i in idx:
            nxt = []
            for s, k, v in outs:
                if k != 'ret': nxt.append((s, k, v)); continue
                for s2, item in it_item(eng, s, it, i): nxt += call_f(eng, s2, fref, [item])
            outs = nxt
        return [(s, k, UNIT if k == 'ret' else v) for s, k, v in outs]
    bs = it_base(it)

    def step(s, i):
        res = []
        for s2, item in it_item(eng, s, it, i):
            for o in call_f(eng, s2, fref, [item]):
                if o[1] != 'ret': raise Unsupported('panic in for_each')
                res.append(o[0])
        return res
    if bs.lst is not None and eng.list_rule is not None: return ret(eng.list_rule(eng, st, bs, set(), step), UNIT)
    post = eng.summarize(st, bs.lo, bs.hi, bs.rev, set(), step)
    return ret(post, UNIT)


def call_f(eng, st, fref, args):
    sr, f = None, fref
    while isinstance(f, (Ref, BoxV)):
        sr = f if isinstance(f, Ref) else Ref(f.cell)
        f = eng.deref1(st, f)
    if isinstance(f, Clos): return eng.call_closure(st, f, args, sr)
    return eng.call_value(st, f, args)


@model('std::iter::Iterator::try_for_each', 'rayon::iter::ParallelIterator::try_for_each')
def _(eng, st, args, targs, site):
    it = args[0]
    if isinstance(it, Ref): it = eng.read(st, eng.strip(st, it))
    it = to_iter(eng, st, it); f = args[1]
    idx = conc(it)
    if idx is None: return try_all(eng, st, it, f)
    fref = eng.ref_to(st, f, True)
    live, done = [st], []
    for i in idx:
        nxt = []
        for s in live:
            for s2, item in it_item(eng, s, it, i):
                for o in call_f(eng, s2, fref, [item]):
                    if o[1] != 'ret': done.append(o); continue
                    if o[2].var == 0: nxt.append(o[0])
                    else: done.append(o)
        live = nxt
    return [(s, 'ret', Ok(UNIT)) for s in live] + done


def try_all(eng, st, it, f):
    """try_for_each over a symbolic range: all calls return Ok, or one returns an error and all earlier ones Ok"""
    bs = it_base(it)
    fref = eng.ref_to(st, f, True)

    def both(s, i):
        cont, exits = [], []
        for s2, item in it_item(eng, s, it, i):
            for o in call_f(eng, s2, fref, [item]):
                if o[1] == 'ret' and o[2].var == 0: cont.append(o[0])
                else: exits.append(o)
        return cont, exits
    ex = eng.loop_exits(st, bs, set(), set(), both)
    if ex is None: return ret(eng.summarize(st, bs.lo, bs.hi, bs.rev, set(), lambda s, i: both(s, i)[0]), Ok(UNIT))
    return [(ex[0], 'ret', Ok(UNIT))] + ex[1]


@model('std::iter::Iterator::collect')
def _(eng, st, args, targs, site):
    it = to_iter(eng, st, args[0])
    idx = conc(it)
    if idx is None: return collect_list(eng, st, it, targs)
    outs = [(st, [])]
    for i in idx:
        outs = [(s2, acc + [v]) for s, acc in outs for s2, v in it_item(eng, s, it, i)]
    t = targs[1] if len(targs) > 1 else None
    if isinstance(t, list) and t[0] == 'adt' and t[1] == 'std::string::String':
        return [(s, 'ret', StrV(*[eng.deref(s, v) for v in acc])) for s, acc in outs]
    return [(s, 'ret', ListV(acc)) for s, acc in outs]


def collect_list(eng, st, it, targs):
    """collect over a symbolic range: a list, or (Result<Vec<_>>) a list of the successful values or the first error"""
    bs = it_base(it)
    acc = eng.new_cell(st, ListV(()))
    t = targs[1] if len(targs) > 1 else None
    if not (isinstance(t, list) and t[0] == 'adt' and t[1] in ('std::vec::Vec', RESULT, 'std::string::String')): raise Unsupported('collect over a symbolic range')
    res = t[1] == RESULT
    if t[1] == 'std::string::String': st.cells[acc] = StrV('')

    def both(s, i):
        cont, exits = [], []
        for s2, v in it_item(eng, s, it, i):
            if res and v.var != 0: exits.append((s2, 'ret', v)); continue
            if res: v = v.fields[0]
            if t[1] == 'std::string::String': s2.cells[acc] = StrV(s2.cells[acc], eng.deref(s2, v))
            else: s2.cells[acc] = grown(s2.cells[acc], v)
            cont.append(s2)
        return cont, exits
    ex = eng.loop_exits(st, bs, set(), set(), both) if res else None
    post, exits = ex if ex else (eng.summarize(st, bs.lo, bs.hi, bs.rev, set(), lambda s, i: both(s, i)[0]), [])
    v = post.cells.pop(acc)
    return [(post, 'ret', Ok(v) if res else v)] + exits


@model('std::iter::Iterator::fold')
def _(eng, st, args, targs, site):
    it, init, f = to_iter(eng, st, args[0]), args[1], args[2]
    idx = conc(it)
    if idx is not None:
        fref = eng.ref_to(st, f, True)
        outs = [(st, init)]
        for i in idx:
            nxt = []
            for s, acc in outs:
                for s2, v in it_item(eng, s, it, i):
                    for o in call_f(eng, s2, fref, [acc, v]):
                        if o[1] != 'ret': raise Unsupported('panic in fold')
                        nxt.append((o[0], o[2]))
            outs = nxt
        return [(s, 'ret', a) for s, a in outs]
    bs = it_base(it)
    n = isub(bs.hi, bs.lo)
    if isinstance(init, (StrV, ListV)):
        # a text or list carried along: as in a loop that extends it
        c = eng.new_cell(st, init)
        fref = eng.ref_to(st, f, True)

        def extend(s, i):
            res = []
            for s2, item in it_item(eng, s, it, i):
                for o in call_f(eng, s2, fref, [s2.cells[c], item]):
                    if o[1] != 'ret': raise Unsupported('panic in fold')
                    o[0].cells[c] = o[2]; res.append(o[0])
            return res
        post = eng.summarize(st, bs.lo, bs.hi, bs.rev, set(), extend)
        return ret(post, post.cells.pop(c))

    def step(s, acc, j):
        outs = []
        for s2, v in it_item(eng, s, it, iadd(bs.lo, j[0])):
            outs += call_f(eng, s2, eng.ref_to(s2, f, True), [acc, v])
        return outs
    return fold_rule(eng, st, (n,), init, step)


@model('std::iter::Iterator::all', 'std::iter::Iterator::any')
def _(eng, st, args, targs, site): return quant(eng, st, args, True)


M['std::iter::Iterator::any'] = lambda eng, st, args, targs, site: quant(eng, st, args, False)


def quant(eng, st, args, isall):
    it = args[0]
    if isinstance(it, Ref): it = eng.read(st, eng.strip(st, it))
    it = to_iter(eng, st, it); f = args[1]
    idx = conc(it)
    fref = eng.ref_to(st, f, True)
    if idx is not None:
        outs = [(st, isall)]
        for i in idx:
            nxt = []
            for s, acc in outs:
                if acc is (not isall): nxt.append((s, acc)); continue
                for s2, v in it_item(eng, s, it, i):
                    for o in call_f(eng, s2, fref, [v]):
                        nxt.append((o[0], band(acc, o[2]) if isall else bor(acc, o[2])))
            outs = nxt
        return [(s, 'ret', a) for s, a in outs]
    bs = it_base(it)

    def step(s, acc, j):
        outs = []
        for s2, v in it_item(eng, s, it, iadd(bs.lo, j[0])):
            for o in call_f(eng, s2, fref, [v]):
                outs.append((o[0], o[1], band(acc, o[2]) if isall else bor(acc, o[2])))
        return outs
    return fold_rule(eng, st, (isub(bs.hi, bs.lo),), isall, step)


def exhausted(it):
    b = it_base(it)
    return rebase(it, b.hi, b.hi)


# ---------------------------------------------------------------- generic element rules
def in_range(j, shape): return band(*[band(icmp('le', 0, x), icmp('lt', x, n)) for x, n in zip(j, shape)])


def generic(eng, st, shape, run):
    """run(s, j) at a generic index; the unique result and its index variables; nothing else may change"""
    j = tuple(eng.fresh('j', I) for _ in shape)
    for x in j: eng.add_index(x)
    s = st.clone(); s.assume(in_range(j, shape))
    n = len(s.pc)
    outs = eng.merge_outs(run(s, j))
    outs = [o for o in outs if o[1] == 'ret']
    if len(outs) == 0: raise Unsupported('element function never returns')
    if len(outs) > 1: raise Unsupported('element function with several outcomes')
    s2, _, v = outs[0]
    if s2.trace != st.trace: raise Unsupported('ghost event inside an element function')
    ch = [c for c in eng.diff_cells(st, s2)]
    return j, v, s2, ch


def sub_all(eng, v, j, idx):
    for a, b in zip(j, idx):
        v = eng.subst_fl(v, a, b)
    return v


def at(eng, v, j, idx):
    """value v (a function of index variables j) at idx; simultaneous substitution"""
    pairs = [(a, zi(b)) for a, b in zip(j, idx)]
    f = lambda x: (isimp(z3.substitute(x, *pairs)) if z3.is_int(x) else z3.substitute(x, *pairs)) if is_z3(x) else x
    if isinstance(v, Fl): return Fl(f(v.v), f(v.nan), f(v.pinf), f(v.ninf))
    return f(v)


def fold_rule(eng, st, shape, init, step):
    j = tuple(eng.fresh('j', I) for _ in shape)
    for x in j: eng.add_index(x)

    def run(acc):
        s = st.clone(); s.assume(in_range(j, shape))
        outs = [o for o in eng.merge_outs(step(s, acc, j)) if o[1] == 'ret']
        if len(outs) != 1: raise Unsupported('fold function with several outcomes')
        if eng.diff_cells(st, outs[0][0]): raise Unsupported('fold function with side effects')
        return outs[0][0], outs[0][2]
    isb = isinstance(init, bool) or (is_z3(init) and z3.is_bool(init))
    n0 = len(eng.obls)
    if isb:
        s1, rt = run(True)
        n1 = len(eng.obls)
        s0, rf = run(False)
        del eng.obls[n1:]
        rt, rf = simp(rt), simp(rf)
        ok = lambda g: g is True or (is_z3(g) and z3.is_true(g)) or eng.valid(s1, zb(g))
        if rf is False and rt is True: return ret(st, init)
        if rf is False or ok(bnot(rf)):
            A = eng.fresh('all', B)
            w = tuple(eng.fresh('w', I) for _ in shape)
            for x in w: eng.add_index(x)
            g = lambda idx: at(eng, rt, j, idx)
            eng.facts.append(Fact(A, shape, g, 'all-fold'))
            st.assume(z3.Or(A, zb(bnot(init)), zb(band(in_range(w, shape), bnot(g(w))))))
            return ret(st, band(init, A))
        if rt is True or ok(rt):
            A = eng.fresh('none', B)
            w = tuple(eng.fresh('w', I) for _ in shape)
            for x in w: eng.add_index(x)
            g = lambda idx: at(eng, rf, j, idx)
            eng.facts.append(Fact(A, shape, lambda idx: bnot(g(idx)), 'any-fold'))
            st.assume(z3.Or(A, zb(init), zb(band(in_range(w, shape), g(w)))))
            return ret(st, bor(init, bnot(A)))
        raise Unsupported('boolean fold')
    if isinstance(init, Fl):
        if XREAL[0]:
            # not-a-number may be dropped or kept by the fold: the result is arbitrary
            run(anyfl(eng, 'acc'))
            return ret(st, anyfl(eng, 'fold'))
        acc = carried_fl(eng, init)
        s1, r = run(acc)
        n1 = len(eng.obls)
        run(init)
        del eng.obls[n1:]
        m = minmax_fold(eng, st, s1, init, acc, r, shape, j, lambda g, idx: at(eng, g, j, idx))
        if m is not None: return ret(st, m)
    raise Unsupported('fold')


def anyfl(eng, name):
    n, p, m = eng.fresh(name + '!n', B), eng.fresh(name + '!p', B), eng.fresh(name + '!m', B)
    return Fl(eng.fresh(name, R), n, band(bnot(n), p), band(bnot(n), bnot(p), m))


def carried_fl(eng, init):
    """accumulator of a fold that starts with init: a number, or the infinity it starts with"""
    f = lambda b, n: False if b is False else eng.fresh('acc!' + n, B)
    p = f(init.pinf, 'p')
    return Fl(eng.fresh('acc', R), f(init.nan, 'n'), p, False if p is not False else f(init.ninf, 'm'))


def minmax_fold(eng, st, s1, init, acc, r, shape, j, inst):
    """result of folding acc -> r (a term in acc and the index) over the shape, starting with init, when r is max or min of acc and a
    term; None otherwise.  inst(g, idx): the term at an index of the shape"""
    own = [x for x in (acc.v, acc.nan, acc.pinf, acc.ninf) if is_z3(x)]
    for mode in ('max', 'min'):
        f = fmax if mode == 'max' else fmin
        # an infinite start value is neutral or none
        neutral = init.finite is not True
        if neutral and not (init.nan is False and (init.pinf is True if mode == 'min' else init.pinf is False and init.ninf is True)): continue
        # candidates for the folded term: with acc replaced by a very small/large value
        for g in candidates(r, acc, mode):
            if any(eng.mentions(g.v, x) for x in own): continue
            if eng.valid(s1, zb(fsame(r, f(acc, g)))):
                m = Fl(eng.fresh(mode, R))
                w = tuple(eng.fresh('w', I) for _ in shape)
                for x in w: eng.add_index(x)
                gg = lambda idx: inst(g, idx)
                cmpf = (lambda a, b: rle(b, a)) if mode == 'max' else (lambda a, b: rle(a, b))
                eng.facts.append(Fact(True, shape, lambda idx: cmpf(m.v, gg(idx).v), mode + '-fold'))
                if neutral:
                    empty = bnot(band(*[icmp('lt', 0, n) for n in shape]))
                    st.assume(bor(empty, band(in_range(w, shape), req(m.v, gg(w).v))))
                    return Fl(m.v, False, band(init.pinf, empty), band(init.ninf, empty))
                st.assume(cmpf(m.v, init.v))
                st.assume(z3.Or(m.v == init.v, zb(band(in_range(w, shape), req(m.v, gg(w).v)))))
                return m
    return None


def candidates(r, acc, mode):
    """subterms of an ite-tree not mentioning acc (the max/min operand)"""
    out, seen, stack = [], set(), [r.v]
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            stack += [t.arg(1), t.arg(2)]
            for x in (t.arg(1), t.arg(2)): out.append(Fl(x))
    # the non-acc part may itself be an ite (e.g. a max of two terms)
    big = rv(-10 ** 400) if mode == 'max' else rv(10 ** 400)
    g = z3.simplify(z3.substitute(r.v, (acc.v, big)))
    out.append(Fl(z3.substitute(r.v, (acc.v, big))))
    out += ite_free(r.v, acc.v)
    return out


def ite_free(t, acc):
    """drop the acc branch of the outermost decisions"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if a.eq(acc): return [Fl(b)] + ite_free(b, acc)
        if b.eq(acc): return [Fl(a)] + ite_free(a, acc)
    return []


# ---------------------------------------------------------------- ndarray
ND = 'ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::'
ND2 = 'ndarray::impl_2d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 2]>>>::'
NDC = 'ndarray::impl_constructors::<impl ndarray::ArrayBase<S, D>>::'


def shape_of(eng, st, v):
    v = eng.deref(st, v)
    if isinstance(v, int) or is_z3(v): return (v,)
    if isinstance(v, ListV): return v.items
    if isinstance(v, Adt):
        if len(v.fields) == 1 and isinstance(v.fields[0], ListV): return v.fields[0].items
        return v.fields
    raise Unsupported('shape %r' % (v,))


def arr_of(eng, st, v):
    """array value behind v"""
    v = eng.deref(st, v)
    if isinstance(v, ViewMut): return view_arr(eng, st, v)
    if isinstance(v, Arr): return v
    raise Unsupported('array expected, got %r' % (v,))


def view_arr(eng, st, v):
    base = eng.read(st, v.ref)
    return LamArr(v.shape, lambda idx: base.get(v.fwd(idx)))


def to_view(eng, st, v):
    """mutable producer -> ViewMut"""
    if isinstance(v, ViewMut): return v
    if isinstance(v, Ref):
        r = eng.strip(st, v); w = eng.read(st, r)
        if isinstance(w, ViewMut): return w
        return ViewMut(r, w.shape, lambda i: i, lambda i: (True, i))
    raise Unsupported('mutable view of %r' % (v,))


def write_view(eng, st, v, fn):
    base = eng.read(st, v.ref)

    def get(idx):
        c, vi = v.inv(idx)
        if c is False: return base.get(idx)
        return ite_val(c, fn(vi), base.get(idx))
    eng.write(st, v.ref, LamArr(base.shape, get))


def same_shape(eng, st, a, b, what, site):
    if len(a) != len(b): eng.oblige(st, 'no panic: %s dimensions (line %s)' % (what, line(site)), False, kind='no-panic'); return
    g = band(*[icmp('eq', x, y) for x, y in zip(a, b)])
    eng.oblige(st, 'no panic: %s shapes agree (line %s)' % (what, line(site)), g, kind='no-panic')


def bounds(eng, st, idx, shape, site, what='index'):
    g = band(*[band(icmp('le', 0, i), icmp('lt', i, n)) for i, n in zip(idx, shape)])
    eng.oblige(st, 'no panic: array %s in bounds (line %s)' % (what, line(site)), g, kind='no-panic')
    st.assume(g)


@model(NDC + 'zeros')
def _(eng, st, args, targs, site): return ret(st, const_arr(shape_of(eng, st, args[0]), fc(0)))
@model(NDC + 'ones')
def _(eng, st, args, targs, site): return ret(st, const_arr(shape_of(eng, st, args[0]), fc(1)))
@model(NDC + 'from_elem')
def _(eng, st, args, targs, site): return ret(st, const_arr(shape_of(eng, st, args[0]), args[1]))


@model(NDC + 'from_shape_fn')
def _(eng, st, args, targs, site):
    shape = shape_of(eng, st, args[0]); f = args[1]
    fr = eng.ref_to(st, f, True)
    j, v, s2, ch = generic(eng, st, shape, lambda s, j: call_f(eng, s, fr, [j[0] if len(j) == 1 else tup(*j)]))
    if ch: raise Unsupported('side effect in from_shape_fn')
    return ret(st, LamArr(shape, lambda idx: at(eng, v, j, idx)))


@model(NDC + 'from_shape_vec')
def _(eng, st, args, targs, site):
    shape = shape_of(eng, st, args[0]); v = args[1]
    n = 1
    for x in shape: n *= x
    if n != len(v.items): return ret(st, Err(Opaque('err', ())))
    a = const_arr(shape, fc(0))
    if len(shape) == 1: get = lambda idx: eng.proj(st, v, ('e', (idx[0],)))
    else:
        get = lambda idx: eng.proj(st, v, ('e', (iadd(imul(idx[0], shape[1]), idx[1]),)))
    return ret(st, Ok(LamArr(shape, get)))


@model('ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::from_vec', 'ndarray::arr1', 'ndarray::aview1')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    return ret(st, LamArr((len(v.items),), lambda idx: eng.proj(st, v, ('e', idx))))


@model(ND2 + 'row')
def _(eng, st, args, targs, site):
    a, i = arr_of(eng, st, args[0]), args[1]
    bounds(eng, st, (i,), a.shape[:1], site, 'row')
    return ret(st, LamArr(a.shape[1:], lambda idx: a.get((i,) + tuple(idx))))


@model(ND2 + 'column')
def _(eng, st, args, targs, site):
    a, i = arr_of(eng, st, args[0]), args[1]
    bounds(eng, st, (i,), a.shape[1:], site, 'column')
    return ret(st, LamArr(a.shape[:1], lambda idx: a.get((idx[0], i))))


@model(ND2 + 'row_mut')
def _(eng, st, args, targs, site):
    v, i = to_view(eng, st, args[0]), args[1]
    bounds(eng, st, (i,), v.shape[:1], site, 'row')
    return ret(st, sub_view(v, [('at', i), ('all',)]))


@model(ND2 + 'column_mut')
def _(eng, st, args, targs, site):
    v, i = to_view(eng, st, args[0]), args[1]
    bounds(eng, st, (i,), v.shape[1:], site, 'column')
    return ret(st, sub_view(v, [('all',), ('at', i)]))


@model(ND2 + 'nrows')
def _(eng, st, args, targs, site): return ret(st, arr_of(eng, st, args[0]).shape[0])
@model(ND2 + 'ncols')
def _(eng, st, args, targs, site): return ret(st, arr_of(eng, st, args[0]).shape[1])


@model(ND + 'len_of')
def _(eng, st, args, targs, site):
    ax = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
    return ret(st, arr_of(eng, st, args[0]).shape[ax])


@model(ND + 'shape')
def _(eng, st, args, targs, site): return ret(st, eng.ref_to(st, ListV(arr_of(eng, st, args[0]).shape)))


def sub_view(v, spec):
    """spec per dimension: ('at', i) | ('rng', lo, n) | ('all',)"""
    shape = []
    for d, s in enumerate(spec):
        if s[0] == 'all': shape.append(v.shape[d])
        elif s[0] == 'rng': shape.append(s[2])

    def fwd(idx):
        out, k = [], 0
        for s in spec:
            if s[0] == 'at': out.append(s[1])
            elif s[0] == 'all': out.append(idx[k]); k += 1
            else: out.append(iadd(idx[k], s[1])); k += 1
        return v.fwd(tuple(out))

    def inv(bidx):
        c, vi = v.inv(bidx)
        out, cs = [], [c]
        for d, s in enumerate(spec):
            if s[0] == 'at': cs.append(icmp('eq', vi[d], s[1]))
            elif s[0] == 'all': out.append(vi[d])
            else:
                x = isub(vi[d], s[1]); out.append(x)
                cs.append(band(icmp('le', 0, x), icmp('lt', x, s[2])))
        return band(*cs), tuple(out)
    return ViewMut(v.ref, shape, fwd, inv)


def slice_spec(eng, st, shape, info, site):
    v = eng.deref(st, info)
    els = v.items if isinstance(v, ListV) else v.fields
    out = []
    for d, e in enumerate(els):
        e = eng.deref(st, e)
        n = shape[d]
        if isinstance(e, int) or is_z3(e): out.append(('at', neg_fix(e, n)));  bounds(eng, st, (out[-1][1],), (n,), site, 'slice'); continue
        if not isinstance(e, Adt): raise Unsupported('slice element %r' % (e,))
        k = e.key.split('::')[-1]
        if k == 'RangeFull': out.append(('all',)); continue
        if k == 'Range': lo, hi = e.fields
        elif k == 'RangeFrom': lo, hi = e.fields[0], n
        elif k == 'RangeTo': lo, hi = 0, e.fields[0]
        elif k == 'RangeToInclusive': lo, hi = 0, iadd(e.fields[0], 1)
        elif k == 'Slice':
            if e.fields[2] != 1: raise Unsupported('slice step')
            lo = e.fields[0]
            hi = n if e.fields[1].var == 0 else e.fields[1].fields[0]
        else: raise Unsupported('slice element %s' % e.key)
        lo, hi = neg_fix(lo, n), neg_fix(hi, n)
        g = band(icmp('le', 0, lo), icmp('le', lo, n), icmp('le', 0, hi), icmp('le', hi, n))
        eng.oblige(st, 'no panic: slice in bounds (line %s)' % line(site), g, kind='no-panic')
        st.assume(g)
        ln = isub(hi, lo)
        le = icmp('le', lo, hi)
        if le is not True and not eng.valid(st, zb(le)): ln = iite(le, ln, 0)
        out.append(('rng', lo, ln))
    return out


def neg_fix(x, n):
    return iadd(x, n) if isinstance(x, int) and x < 0 else x


@model('ndarray::SliceInfo::<T, Din, Dout>::new_unchecked')
def _(eng, st, args, targs, site): return ret(st, args[0])
@prefix('ndarray::SliceNextDim::')
def _(eng, st, args, targs, site): return ret(st, UNIT)


@model(ND + 'slice')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0])
    r = ViewMut(None, a.shape, lambda i: i, lambda i: (True, i))
    v = sub_view(r, slice_spec(eng, st, a.shape, args[1], site))
    return ret(st, LamArr(v.shape, lambda idx: a.get(v.fwd(idx))))


@model(ND + 'slice_mut')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0])
    return ret(st, sub_view(v, slice_spec(eng, st, v.shape, args[1], site)))


def axis_spec(ax, i, nd): return [('at', i) if d == ax else ('all',) for d in range(nd)]


@model(ND + 'index_axis')
def _(eng, st, args, targs, site):
    a = arr_of(eng, st, args[0]); ax = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
    bounds(eng, st, (args[2],), (a.shape[ax],), site, 'axis index')
    v = sub_view(ViewMut(None, a.shape, lambda i: i, None), axis_spec(ax, args[2], len(a.shape)))
    return ret(st, LamArr(v.shape, lambda idx: a.get(v.fwd(idx))))


@model(ND + 'index_axis_mut')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0]); ax = args[1].fields[0] if isinstance(args[1], Adt) else args[1]
    bounds(eng, st, (args[2],), (v.shape[ax],), site, 'axis index')
    return ret(st, sub_view(v, axis_spec(ax, args[2], len(v.shape))))


@model(ND + 'view', ND + 'to_owned', ND + 'into_owned', ND + 'into_shared')
def _(eng, st, args, targs, site): return ret(st, arr_of(eng, st, args[0]))
@model(ND + 'view_mut')
def _(eng, st, args, targs, site): return ret(st, to_view(eng, st, args[0]))


@model(ND + 'assign')
def _(eng, st, args, targs, site):
    v, a = to_view(eng, st, args[0]), arr_of(eng, st, args[1])
    a = broadcast(eng, st, a, v.shape, site)
    write_view(eng, st, v, a.get)
    return ret(st, UNIT)


def broadcast(eng, st, a, shape, site):
    if len(a.shape) < len(shape):
        k = len(shape) - len(a.shape)
        same_shape(eng, st, a.shape, shape[k:], 'broadcast', site)
        return LamArr(shape, lambda idx: a.get(tuple(idx[k:])))
    same_shape(eng, st, a.shape, shape, 'array', site)
    return a


@model(ND + 'fill')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0])
    write_view(eng, st, v, lambda idx: args[1])
    return ret(st, UNIT)


@model(ND + 'len')
def _(eng, st, args, targs, site):
    a = eng.deref(st, args[0])
    n = 1
    for x in a.shape: n = imul(n, x)
    return ret(st, n)


def do_map(eng, st, a, f, byref):
    fr = eng.ref_to(st, f, True)
    j, v, s2, ch = generic(eng, st, a.shape, lambda s, j: call_f(eng, s, fr, [eng.ref_to(s, a.get(j)) if byref else a.get(j)]))
    if ch: raise Unsupported('side effect in map')
    return LamArr(a.shape, lambda idx: at(eng, v, j, idx))


@model(ND + 'map')
def _(eng, st, args, targs, site): return ret(st, do_map(eng, st, arr_of(eng, st, args[0]), args[1], True))
@model(ND + 'mapv', ND + 'mapv_into')
def _(eng, st, args, targs, site): return ret(st, do_map(eng, st, arr_of(eng, st, args[0]), args[1], False))


@model(ND + 'mapv_inplace', ND + 'map_inplace', ND + 'par_mapv_inplace')
def _(eng, st, args, targs, site):
    v = to_view(eng, st, args[0])
    byref = 'map_inplace' in str(site[2][1]) and 'mapv' not in str(site[2][1])
    if byref: return zip_for_each(eng, st, [v], args[1], site)
    a = view_arr(eng, st, v)
    m = do_map(eng, st, a, args[1], False)
    write_view(eng, st, v, m.get)
    return ret(st, UNIT)


@model(ND + 'fold')
def _(eng, st, args, targs, site):
    a, init, f = arr_of(eng, st, args[0]), args[1], args[2]
    fr = eng.ref_to(st, f, True)
    return fold_rule(eng, st, a.shape, init, lambda s, acc, j: call_f(eng, s, fr, [acc, eng.ref_to(s, a.get(j))]))


# Zip
@model('ndarray::Zip::<(P,), D>::from')
def _(eng, st, args, targs, site): return ret(st, Adt('Zip', 0, (producer(eng, st, args[0]),)))


def producer(eng, st, v):
    if isinstance(v, Ref):
        r = eng.strip(st, v); w = eng.read(st, r)
        if isinstance(w, ViewMut): return w
        return to_view(eng, st, v) if v.mut else w
    if isinstance(v, (ViewMut, Arr)): return v
    raise Unsupported('Zip producer %r' % (v,))


@prefix('ndarray::Zip::')
def _(eng, st, args, targs, site):
    key = site[2][1][1][1]
    name = key.split('::')[-1]
    z = args[0]
    if name == 'and':
        p = producer(eng, st, args[1])
        same_shape(eng, st, z.fields[0].shape, p.shape, 'Zip', site)
        return ret(st, Adt('Zip', 0, z.fields + (p,)))
    if name in ('for_each', 'par_for_each', 'apply', 'par_apply'): return zip_for_each(eng, st, list(z.fields), args[1], site)
    arrs = [view_arr(eng, st, p) if isinstance(p, ViewMut) else p for p in z.fields]
    if name == 'fold':
        fr = eng.ref_to(st, args[2], True)
        return fold_rule(eng, st, arrs[0].shape, args[1], lambda s, acc, j: call_f(eng, s, fr, [acc] + [elem_arg(eng, s, p, j) for p in z.fields]))
    if name in ('all', 'any'):
        fr = eng.ref_to(st, args[1], True)
        isall = name == 'all'

        def step(s, acc, j):
            return [(o[0], o[1], band(acc, o[2]) if isall else bor(acc, o[2])) for o in call_f(eng, s, fr, [elem_arg(eng, s, p, j) for p in z.fields])]
        return fold_rule(eng, st, arrs[0].shape, isall, step)
    if name in ('map_collect', 'par_map_collect'):
        fr = eng.ref_to(st, args[1], True)
        j, v, s2, ch = generic(eng, st, arrs[0].shape, lambda s, j: call_f(eng, s, fr, [elem_arg(eng, s, p, j) for p in z.fields]))
        if ch: raise Unsupported('side effect in map_collect')
        return ret(st, LamArr(arrs[0].shape, lambda idx: at(eng, v, j, idx)))
    raise Unsupported('Zip::%s' % name)


def elem_arg(eng, s, p, j):
    a = view_arr(eng, s, p) if isinstance(p, ViewMut) else p
    return eng.ref_to(s, a.get(j))


@prefix('ndarray::parallel::impl_par_methods::')
def _(eng, st, args, targs, site):
    name = site[2][1][1][1].split('::')[-1]
    if name in ('par_for_each', 'par_apply'): return zip_for_each(eng, st, list(args[0].fields), args[1], site)
    raise Unsupported(name)


def zip_for_each(eng, st, prods, f, site):
    fr = eng.ref_to(st, f, True)
    shape = prods[0].shape
    refs = []

    def run(s, j):
        del refs[:]
        for p in prods:
            refs.append(elem_arg(eng, s, p, j))
        return call_f(eng, s, fr, list(refs))
    j, v, s2, ch = generic(eng, st, shape, run)
    if ch: raise Unsupported('side effect in for_each')
    news = [eng.read(s2, r) for r in refs]
    for p, nv in zip(prods, news):
        if isinstance(p, ViewMut):
            write_view(eng, st, p, lambda idx, nv=nv: at(eng, nv, j, idx))
    return ret(st, UNIT)


def elem_ref(eng, st, r, idx):
    v = eng.read(st, r)
    if isinstance(v, ViewMut): return Ref(v.ref.cell, v.ref.path + (('e', v.fwd(idx)),), True)
    return Ref(r.cell, r.path + (('e', idx),), True)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    i = args[1]
    if isinstance(v, (Arr, ViewMut)):
        idx = shape_of(eng, st, i)
        bounds(eng, st, idx, v.shape, site)
        return ret(st, elem_ref(eng, st, r, tuple(idx)))
    if isinstance(v, ListV):
        if isinstance(i, Adt):
            k = i.key.split('::')[-1]
            n = len(v.items)
            lo, hi = {'Range': lambda: i.fields, 'RangeFrom': lambda: (i.fields[0], n), 'RangeTo': lambda: (0, i.fields[0]), 'RangeFull': lambda: (0, n)}[k]()
            if not (isinstance(lo, int) and isinstance(hi, int)): raise Unsupported('symbolic list slice')
            eng.oblige(st, 'no panic: slice index (line %s)' % line(site), lo <= hi <= n, kind='no-panic')
            return ret(st, eng.ref_to(st, ListV(v.items[lo:hi])))
        eng.oblige(st, 'no panic: index in bounds (line %s)' % line(site), band(icmp('le', 0, i), icmp('lt', i, len(v.items))), kind='no-panic')
        return ret(st, Ref(r.cell, r.path + (('e', (i,)),), True))
    raise Unsupported('index of %r' % (v,))


def arith(f, name):
    def m(eng, st, args, targs, site):
        a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
        if isinstance(a, ViewMut): a = view_arr(eng, st, a)
        if isinstance(b, ViewMut): b = view_arr(eng, st, b)
        if isinstance(a, Fl) and isinstance(b, Fl): return ret(st, f(a, b))
        if isinstance(a, Arr) and isinstance(b, Fl): return ret(st, LamArr(a.shape, lambda i: f(a.get(i), b)))
        if isinstance(a, Fl) and isinstance(b, Arr): return ret(st, LamArr(b.shape, lambda i: f(a, b.get(i))))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) < len(b.shape): a = broadcast(eng, st, a, b.shape, site)
            else: b = broadcast(eng, st, b, a.shape, site)
            return ret(st, LamArr(a.shape, lambda i: f(a.get(i), b.get(i))))
        if isinstance(a, StrV) and isinstance(b, StrV) and name == 'Add': return ret(st, StrV(a, b))
        if isinstance(a, (int,)) or is_z3(a): return ret(st, {'Add': iadd, 'Sub': isub, 'Mul': imul}[name](a, b))
        raise Unsupported('%s of %r' % (name, a))

    def ma(eng, st, args, targs, site):
        r = eng.strip(st, args[0])
        a = eng.read(st, r)
        b = eng.deref(st, args[1])
        if isinstance(b, ViewMut): b = view_arr(eng, st, b)
        if isinstance(a, Fl): eng.write(st, r, f(a, b)); return ret(st, UNIT)
        if isinstance(a, StrV): eng.write(st, r, StrV(a, b)); return ret(st, UNIT)
        v = to_view(eng, st, args[0]); a = view_arr(eng, st, v)
        if isinstance(b, Fl): write_view(eng, st, v, lambda i: f(a.get(i), b))
        else:
            b2 = broadcast(eng, st, b, v.shape, site)
            write_view(eng, st, v, lambda i: f(a.get(i), b2.get(i)))
        return ret(st, UNIT)
    M['std::ops::%s::%s' % (name, name.lower())] = m
    M['std::ops::%sAssign::%s_assign' % (name, name.lower())] = ma


arith(fadd, 'Add'); arith(fsub, 'Sub'); arith(fmul, 'Mul'); arith(fdiv, 'Div')


@model('std::ops::Neg::neg')
def _(eng, st, args, targs, site):
    a = eng.deref(st, args[0])
    if isinstance(a, Fl): return ret(st, fneg(a))
    return ret(st, LamArr(a.shape, lambda i: fneg(a.get(i))))


@model('std::mem::swap')
def _(eng, st, args, targs, site):
    a, b = args
    x, y = eng.read(st, a), eng.read(st, b)
    eng.write(st, a, y); eng.write(st, b, x)
    return ret(st, UNIT)


@model('std::mem::replace')
def _(eng, st, args, targs, site):
    x = eng.read(st, args[0]); eng.write(st, args[0], args[1])
    return ret(st, x)


@model('std::mem::drop', 'std::mem::forget')
def _(eng, st, args, targs, site): return ret(st, UNIT)
