"""Symbolic executor over the dumped MIR, producing proof obligations function by function.

Values:  int | z3 Int, bool | z3 Bool, Fl, Arr, Adt, ListV, Ref, ViewMut, Clos, FnV, BoxV, iterators, Opaque, StrV
State:   cells (id -> value), path condition, ghost trace
Calls:   contracted functions are replaced by their contract, other local functions are inlined, foreign functions
         have trusted models (models.py).
"""
import itertools, re, time
import z3
from terms import *

class Unspec:
    """value of a field which the contracts do not mention: anything of its type"""
    def __init__(self, eng, name, ty):
        self.name, self.ty, self.val = '%s!u%d' % (name, next(_ids)), ty, None
        eng.fresh_n += 1
        eng.unspec[self.name] = self.born = eng.fresh_n

    def __repr__(self): return 'UNSPEC %s' % self.name

    def get(self, eng, st):
        if self.val is None:
            s = st.clone(); n = len(s.pc)
            try: self.val = eng.arbitrary_of(s, self.ty, self.name)
            except Unsupported: return self
            self.facts = s.pc[n:]
        if not any(f is p for f in self.facts for p in st.pc):
            for f in self.facts: st.assume(f)
        return self.val


UNSPEC_NAME = re.compile(r'.*?!u\d+')
UNINIT = type('Uninit', (), {'__repr__': lambda s: 'UNINIT'})()
POISON = type('Poison', (), {'__repr__': lambda s: 'POISON'})()


class Adt:
    __slots__ = ('key', 'var', 'fields')

    def __init__(self, key, var=0, fields=()):
        self.key, self.var, self.fields = key, var, tuple(fields)

    def __repr__(self): return '%s#%s%r' % (self.key.split('::')[-1], self.var, self.fields)


def tup(*xs): return Adt('()', 0, xs)
UNIT = tup()
RESULT, OPTION, CF = 'std::result::Result', 'std::option::Option', 'std::ops::ControlFlow'
def Ok(v): return Adt(RESULT, 0, (v,))
def Err(v): return Adt(RESULT, 1, (v,))
def Some(v): return Adt(OPTION, 1, (v,))
NONE = Adt(OPTION, 0, ())


class ListV:
    """array, slice, Vec: concrete length"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return 'List%r' % (self.items,)


class SymList:
    """vector of arbitrary length: element i is alts[k][1](i) where alts[k][0](i) holds (exactly one k does)"""
    def __init__(self, name, n, alts): self.name, self.n, self.alts = name, n, alts
    def __repr__(self): return 'SymList(%s)' % self.name


class GrowList:
    """list of unknown beginning that is only extended: the elements added since"""
    def __init__(self, mark, items): self.mark, self.items = mark, tuple(items)


class Ref:
    __slots__ = ('cell', 'path', 'mut')
    def __init__(self, cell, path=(), mut=False): self.cell, self.path, self.mut = cell, tuple(path), mut
    def __repr__(self): return '&%s%r' % (self.cell, self.path)


class BoxV:
    __slots__ = ('cell',)
    def __init__(self, cell): self.cell = cell


class ViewMut:
    """mutable array view: base array reference, index maps"""
    def __init__(self, ref, shape, fwd, inv): self.ref, self.shape, self.fwd, self.inv = ref, tuple(shape), fwd, inv


class Clos:
    __slots__ = ('key', 'targs', 'ups')
    def __init__(self, key, targs, ups): self.key, self.targs, self.ups = key, targs, tuple(ups)


class FnV:
    __slots__ = ('key', 'targs')
    def __init__(self, key, targs): self.key, self.targs = key, targs


class Opaque:
    __slots__ = ('tag', 'data')
    def __init__(self, tag, data=None): self.tag, self.data = tag, data
    def __repr__(self): return 'Opaque(%s)' % (self.tag,)


class StrV:
    """String / &str: tuple of parts, python str or Opaque"""
    __slots__ = ('parts',)
    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, StrV): q = p.parts
            else: q = (p,)
            for x in q:
                if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
                elif x != '': out.append(x)
        self.parts = tuple(out)
    def __repr__(self): return 'Str%r' % (self.parts,)
    def lit(self): return ''.join(self.parts) if all(isinstance(p, str) for p in self.parts) else None


class Rep:
    """part of a text: alternatives [(cond, parts)] written once for each lo <= i < hi, in order"""
    def __init__(self, lo, hi, i, alts): self.lo, self.hi, self.i, self.alts = lo, hi, i, alts
    def at(self, eng, x): return [(eng.subst_term(c, self.i, x), [eng.subst_any(p, self.i, x) for p in ps]) for c, ps in self.alts]
    def __repr__(self): return 'Rep(%s..%s: %s)' % (self.lo, self.hi, self.alts)


class Each:
    """ghost event: alternatives [(cond, events)] for every lo <= i < hi"""
    def __init__(self, lo, hi, i, alts): self.lo, self.hi, self.i, self.alts = lo, hi, i, alts
    def __repr__(self): return 'Each(%s..%s: %s)' % (self.lo, self.hi, self.alts)


class SymRangeLoop(Exception):
    pass


class State:
    __slots__ = ('cells', 'pc', 'trace')
    def __init__(self, cells=None, pc=(), trace=()): self.cells, self.pc, self.trace = cells if cells is not None else {}, pc, trace
    def clone(self): return State(dict(self.cells), self.pc, self.trace)
    def assume(self, c):
        if c is True or (is_z3(c) and z3.is_true(c)): return self
        c = zb(c)
        if any(x.eq(c) for x in self.pc): return self
        self.pc = self.pc + (c,)
        return self
    def event(self, *e): self.trace = self.trace + (e,)


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'kind', 'extra', 'status', 'backend', 'time', 'model', 'hints')
    def __init__(self, name, pc, goal, where='', kind='post', extra=()):
        self.name, self.pc, self.goal, self.where, self.kind, self.extra = name, pc, goal, where, kind, extra
        self.status = None; self.backend = ''; self.time = 0.0; self.model = None; self.hints = ()


class Frame:
    __slots__ = ('key', 'body', 'genv', 'cells', 'fn')
    def __init__(self, key, fn, body, genv, cells): self.key, self.fn, self.body, self.genv, self.cells = key, fn, body, genv, cells


class Fact:
    """quantified fact: guard => forall idx in shape: pred(idx)   (instantiated on index terms of the obligation)"""
    def __init__(self, guard, shape, pred, name=''): self.guard, self.shape, self.pred, self.name = guard, tuple(shape), pred, name


_ids = itertools.count(1)


class Engine:
    def __init__(self, dump, models):
        self.d, self.models = dump, models
        self.fns, self.impls, self.traits, self.adts = dump['fns'], dump['impls'], dump['traits'], dump['adts']
        self.trait_item = {}
        for tk, t in self.traits.items():
            for name, key, has in t['items']: self.trait_item[key] = (tk, name, has)
        self.contracts = {}      # fn key -> callable(eng, st, args, genv) -> [(st, val)] ; installed per unit
        self.dyn_contracts = {}
        self.while_rule = None
        self.list_rule = None
        self.counting = set()
        self.io_fails = False    # every file and stream operation fails
        self.text = False        # render formatted text (otherwise it is opaque)
        self.elem_log = []       # (list, reference to it, cell of the element, its value) of list elements handed out
        self.obls = []
        self.facts = []
        self.index_terms = []     # 1-D index terms for instantiation
        self.fresh_n = 0
        self.fresh_names = set()
        self.unspec = {}
        self.natural = None       # (number of equations, number of cells) of the unit: shape of arrays no contract mentions
        self.used_models, self.inlined, self.used_contracts, self.assumptions = set(), set(), set(), set()
        self.solver_time = 0.0
        self.depth = 0
        self.where = []
        self.unit = ''
        self.deadline = None
        self.feas_cache = {}
        self.symmemo = {}

    # ------------------------------------------------------------ misc
    def fresh(self, name, sort=None):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        c = z3.Const(n, sort if sort is not None else I)
        self.fresh_names.add(n)
        return c

    def new_cell(self, st, v):
        c = next(_ids); st.cells[c] = v
        return c

    def ref_to(self, st, v, mut=False):
        return Ref(self.new_cell(st, v), (), mut)

    def oblige(self, st, name, goal, kind='post', extra=()):
        if goal is True or (is_z3(goal) and z3.is_true(goal)):
            o = Obligation(name, st.pc, True, self.loc(), kind); o.status = 'proved'; o.backend = 'syntactic'
            self.obls.append(o)
            return
        self.obls.append(Obligation(name, st.pc, zb(goal), self.loc(), kind, extra))

    def loc(self): return ' > '.join(self.where[-3:])

    def feasible(self, st, extra=None):
        pc = st.pc + ((zb(extra),) if extra is not None else ())
        if not pc: return True
        if any(z3.is_false(c) for c in pc): return False
        k = tuple(c.get_id() for c in pc)
        if k in self.feas_cache: return self.feas_cache[k][0]
        t = time.time()
        last = self.symbols(pc[-1])
        rel = [c for c in pc if self.symbols(c) <= last]
        s = z3.Solver(); s.set('timeout', 150 if last else 800)
        s.add(*rel); s.add(*axioms(rel))
        q = s.check()
        if q != z3.unsat and last and len(rel) < len(pc):
            s = z3.Solver(); s.set('timeout', 150 if q == z3.unknown else 400)
            s.add(*pc); s.add(*axioms(pc))
            q = s.check()
        r = q != z3.unsat
        self.solver_time += time.time() - t
        self.feas_cache[k] = (r, pc)
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the unit exhausted')
        return r

    def symbols(self, e):
        """uninterpreted functions and non-integer constants of a term"""
        k = e.get_id()
        if k not in self.symmemo:
            out, seen, st = set(), set(), [e]
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or not z3.is_int(x)): out.add(x.decl().name())
                    st.extend(x.children())
            self.symmemo[k] = (frozenset(out), e)
        return self.symmemo[k][0]

    def valid(self, st, goal, timeout=2000):
        """quick check used inside rules (not an obligation)"""
        if isinstance(goal, bool): return goal
        s = z3.Solver(); s.set('timeout', timeout)
        s.add(*st.pc); s.add(*axioms(list(st.pc) + [goal])); s.add(z3.Not(goal))
        t = time.time()
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        return r

    # ------------------------------------------------------------ memory
    def read(self, st, ref):
        v = st.cells[ref.cell]
        for p in ref.path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == 'f':
            if isinstance(v, Adt):
                f = v.fields[p[1]]
                return f.get(self, st) if isinstance(f, Unspec) else f
            if isinstance(v, BoxV): return v
            if isinstance(v, Clos): return v.ups[p[1]]
            if v is POISON: raise Unsupported('value carried around a loop')
            raise Unsupported('field %s of %r' % (p[1], v))
        if p[0] == 'e':
            if isinstance(v, Arr): return v.get(p[1])
            if isinstance(v, ListV):
                i = p[1][0]
                if not v.items: raise Unsupported('element of an empty list')
                if isinstance(i, int): return v.items[i] if 0 <= i < len(v.items) else v.items[0]
                r = v.items[-1]
                for n in range(len(v.items) - 2, -1, -1): r = ite_val(icmp('eq', i, n), v.items[n], r)
                return r
            raise Unsupported('element of %r' % (v,))
        if p[0] == 'dc': return v
        raise Unsupported('projection %r' % (p,))

    def write(self, st, ref, val):
        st.cells[ref.cell] = self._upd(st, st.cells.get(ref.cell, UNINIT), ref.path, val)

    def _upd(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if p[0] == 'dc': return self._upd(st, v, path[1:], val)
        if p[0] == 'f':
            if isinstance(v, Clos):
                u = list(v.ups); u[p[1]] = self._upd(st, u[p[1]], path[1:], val)
                return Clos(v.key, v.targs, u)
            if v is UNINIT: v = Adt('?', 0, ())
            if not isinstance(v, Adt): raise Unsupported('write to field of %r' % (v,))
            f = list(v.fields)
            while len(f) <= p[1]: f.append(UNINIT)
            f[p[1]] = self._upd(st, f[p[1]], path[1:], val)
            return Adt(v.key, v.var, f)
        if p[0] == 'e':
            if isinstance(v, Arr):
                if len(path) > 1: raise Unsupported('nested element write')
                return StoreArr(v, p[1], val)
            if isinstance(v, ListV) and isinstance(p[1][0], int):
                f = list(v.items); f[p[1][0]] = self._upd(st, f[p[1][0]], path[1:], val)
                return ListV(f)
        raise Unsupported('write through %r of %r' % (p, v))

    def deref(self, st, v, depth=0):
        """follow references down to a non-reference value"""
        while isinstance(v, (Ref, BoxV)):
            v = self.read(st, v) if isinstance(v, Ref) else st.cells[v.cell]
        return v

    def deref1(self, st, v):
        return self.read(st, v) if isinstance(v, Ref) else st.cells[v.cell]

    def strip(self, st, ref):
        """reference to a reference -> innermost reference to a non-reference value"""
        while True:
            v = self.read(st, ref)
            if isinstance(v, Ref): ref = v
            elif isinstance(v, BoxV): ref = Ref(v.cell)
            else: return ref

    # ------------------------------------------------------------ types
    def subst(self, t, genv):
        if isinstance(t, str): return t
        k = t[0]
        if k in ('param', 'cparam'):
            if t[1] in genv: return genv[t[1]]
            return t
        if k == 'adt': return ['adt', t[1], [self.subst(x, genv) for x in t[2]]]
        if k == 'ref': return ['ref', t[1], self.subst(t[2], genv)]
        if k == 'ptr': return ['ptr', self.subst(t[1], genv)]
        if k == 'tuple': return ['tuple', [self.subst(x, genv) for x in t[1]]]
        if k == 'arr': return ['arr', self.subst(t[1], genv), self.subst(t[2], genv)]
        if k == 'slice': return ['slice', self.subst(t[1], genv)]
        if k == 'fndef': return ['fndef', t[1], [self.subst(x, genv) for x in t[2]]]
        if k == 'closure': return ['closure', t[1], [self.subst(x, genv) for x in t[2]]] + list(t[3:])
        if k == 'alias':
            r = self.alias(t, genv)
            return r
        return t

    def alias(self, t, genv):
        return t

    def unify(self, pat, t, b):
        if isinstance(pat, list) and pat and pat[0] in ('param', 'cparam'):
            b[pat[1]] = t
            return True
        if isinstance(pat, list) and pat and pat[0] == 'cother': return True
        if isinstance(pat, str) or isinstance(t, str): return pat == t
        if pat[0] != t[0]: return pat[0] in ('cint', 'cval', 'cother') or t[0] in ('cint', 'cval', 'cother')
        if pat[0] == 'adt':
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(x, y, b) for x, y in zip(pat[2], t[2]))
        if pat[0] == 'ref': return self.unify(pat[2], t[2], b)
        if pat[0] == 'tuple': return len(pat[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], t[1]))
        if pat[0] == 'cint': return t[0] != 'cint' or pat[1] == t[1]
        if pat[0] in ('arr', 'slice'): return self.unify(pat[1], t[1], b)
        return pat == t

    def find_impl(self, trait, selfty, targs=()):
        for im in self.impls:
            if im['trait'] and im['trait'][0] == trait:
                b = {}
                if self.unify(im['self'], selfty, b):
                    for x, y in zip(im['trait'][1][1:], targs): self.unify(x, y, b)
                    return im, b
        return None, None

    def cval(self, t):
        """const generic argument -> value"""
        if t[0] == 'cint': return t[1]
        if t[0] == 'cval': return t[1]
        if t[0] == 'cuneval':
            return None
        raise Unsupported('const argument %r' % (t,))

    def resolve(self, key, targs):
        """-> (fn key, genv) of a local function, or None"""
        if key in self.trait_item:
            trait, name, has = self.trait_item[key]
            tdef = self.traits[trait]
            selfty = targs[0]
            tg = tdef.get('generics')
            im, b = self.find_impl(trait, selfty, targs[1:])
            if im:
                for n, k in im['items']:
                    if n == name:
                        f = self.fns.get(k)
                        if f is None: raise Unsupported('no body for %s' % k)
                        gs = f['generics']
                        genv = dict(b)
                        # own generics of the method come last
                        own = [g for g in gs if g not in im['generics']]
                        for g, t in zip(reversed(own), reversed(list(targs))): genv[g] = t
                        self._impl_consts(genv, im, targs)
                        for g, t in zip(self.trait_generics(trait), targs): genv.setdefault(g, t)
                        return k, genv
            if has:
                f = self.fns.get(key)
                return key, dict(zip(f['generics'], targs))
            raise Unsupported('cannot resolve %s for %r' % (key, selfty))
        f = self.fns.get(key)
        if f is None: return None
        return key, dict(zip(f['generics'], targs))

    def trait_generics(self, trait):
        t = self.traits[trait]
        n = next((len(im['trait'][1]) for im in self.impls if im['trait'] and im['trait'][0] == trait), 0)
        for name, k, has in t['items']:
            if k in self.fns: return self.fns[k]['generics'][:n]
        return []

    def _impl_consts(self, genv, im, targs):
        # impls for concrete const arguments (Physics<E,S> for Euler...): bind S from the trait arguments
        for x, y in zip(im['trait'][1], targs):
            self.unify(x, y, genv)

    # ------------------------------------------------------------ constants
    def const(self, st, frame, ty, val):
        k = val[0]
        ty = self.subst(ty, frame.genv)
        if k == 'bits': return self.bits(ty, val[1], val[2])
        if k == 'str': return StrV(val[1])
        if k == 'zst': return self.zst(ty)
        if k == 'param':
            return self.cval(frame.genv[val[1]])
        if k == 'uneval':
            return self.eval_const(st, val[1], [self.subst(a, frame.genv) for a in val[2]], ty)
        if k == 'promoted':
            fn = self.fns[val[1]]
            body = fn['promoted'][val[2]]
            genv = dict(zip(fn['generics'], [self.subst(a, frame.genv) for a in (val[3] if len(val) > 3 else [])])) or frame.genv
            if val[1] == frame.key: genv = frame.genv
            outs = self.exec_body(st, val[1] + '::promoted', fn, body, genv, [], keep=True)
            if len(outs) != 1 or outs[0][1] != 'ret': raise Unsupported('promoted')
            s2 = outs[0][0]
            st.cells.update(s2.cells)
            return outs[0][2]
        if k == 'ct' and self.cval(val[1]) is not None: return self.cval(val[1])
        if k == 'static':
            key, fixed, freeze, sty = val[1:5]
            if fixed and key in self.fns:
                return self.ref_to(st, self.eval_const(st, key, [], sty))
            if freeze and not fixed:
                # static mut: earlier calls may have stored anything
                from models_std import any_value
                alts = any_value(self, st, sty, 'static')
                if len(alts) > 1 or alts[0][0] is not st: raise Unsupported('static mut of type %r' % (sty,))
                return self.ref_to(st, alts[0][1], True)
            return Opaque('const', ('ptrconst',))
        if k == 'ptrconst' or k == 'slice' or k == 'bytes': return Opaque('const', tuple(val[:1]) + tuple(tuple(x) if isinstance(x, list) else x for x in val[1:]))
        raise Unsupported('constant %r' % (val,))

    def bits(self, ty, n, size):
        if ty == 'f64': return f64_bits(n)
        if ty == 'f32':
            import struct
            return f64_bits(struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', n))[0]))[0])
        if ty == 'bool': return bool(n)
        if ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
            m = 8 * size
            return n - (1 << m) if n >> (m - 1) else n
        if ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'char'): return n
        if isinstance(ty, list) and ty[0] == 'adt':
            a = self.adts.get(ty[1])
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if v['discr'] == n: return Adt(ty[1], i, ())
            if a and not a['variants'][0]['fields']: return Adt(ty[1], 0, ())
        raise Unsupported('bits constant of type %r' % (ty,))

    def zst(self, ty):
        if isinstance(ty, list):
            if ty[0] == 'fndef': return FnV(ty[1], ty[2])
            if ty[0] == 'tuple': return UNIT
            if ty[0] == 'adt': return Adt(ty[1], 0, ())
            if ty[0] == 'closure': return Clos(ty[1], ty[2], ())
            if ty[0] == 'arr': return ListV(())
        return Opaque('zst', ty)

    def eval_const(self, st, key, targs, ty=None):
        if key in self.trait_item:
            trait, name, has = self.trait_item[key]
            im, b = self.find_impl(trait, targs[0], targs[1:])
            k2 = None
            if im:
                for n, k in im['items']:
                    if n == name: k2 = k
            if k2 is None:
                k2, genv = key, dict(zip(self.fns[key]['generics'], targs))
            else:
                genv = dict(b); self._impl_consts(genv, im, targs)
        else:
            k2 = key
            if key not in self.fns:
                return self.models.foreign_const(self, key, ty)
            genv = dict(zip(self.fns[key]['generics'], targs))
        fn = self.fns[k2]
        s = State({}, (), ())
        outs = self.exec_body(s, k2, fn, fn['body'], genv, [])
        if len(outs) != 1 or outs[0][1] != 'ret': raise Unsupported('const %s' % key)
        return outs[0][2]

    # ------------------------------------------------------------ places / operands
    def place_ref(self, st, frame, pl):
        """place -> Ref"""
        ref = Ref(frame.cells[pl[0]])
        for e in pl[1]:
            if e == '*':
                v = self.read(st, ref)
                if isinstance(v, Ref): ref = v
                elif isinstance(v, BoxV): ref = Ref(v.cell)
                elif isinstance(v, StrV) or isinstance(v, Opaque) and v.tag == 'const': ref = Ref(self.new_cell(st, v))
                elif v is POISON: raise Unsupported('value carried around a loop')
                else: raise Unsupported('deref of %r' % (v,))
            elif e[0] == 'f': ref = Ref(ref.cell, ref.path + (('f', e[1]),))
            elif e[0] == 'dc': pass
            elif e[0] == 'i':
                i = st.cells[frame.cells[e[1]]]
                ref = Ref(ref.cell, ref.path + (('e', (i,)),))
            elif e[0] == 'ci':
                v = self.read(st, ref)
                i = e[1]
                if len(e) > 3 and e[3]: i = len(v.items) - i
                ref = Ref(ref.cell, ref.path + (('e', (i,)),))
            else: raise Unsupported('place element %r' % (e,))
        return ref

    def operand(self, st, frame, o):
        if o[0] in ('cp', 'mv'):
            v = self.read(st, self.place_ref(st, frame, o[1]))
            if v is POISON: raise Unsupported('value carried around a loop')
            return v
        return self.const(st, frame, o[1], o[2])

    def op_type(self, frame, o):
        if o[0] == 'k': return self.subst(o[1], frame.genv)
        pl = o[1]
        t = frame.body['locals'][pl[0]]
        if not pl[1]: return self.subst(t, frame.genv)
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, frame, r, lty):
        k = r[0]
        if k == 'use': return self.operand(st, frame, r[1])
        if k == 'ref':
            ref = self.place_ref(st, frame, r[2])
            return Ref(ref.cell, ref.path, r[1])
        if k == 'rawptr':
            ref = self.place_ref(st, frame, r[2])
            return Ref(ref.cell, ref.path, True)
        if k == 'bin': return self.binop(st, frame, r[1], self.operand(st, frame, r[2]), self.operand(st, frame, r[3]), lty)
        if k == 'un':
            a = self.operand(st, frame, r[2])
            if r[1] == 'Not':
                if isinstance(a, bool) or (is_z3(a) and z3.is_bool(a)): return bnot(a)
                raise Unsupported('Not of int')
            if r[1] == 'Neg':
                if isinstance(a, Fl): return fneg(a)
                return isub(0, a)
            if r[1] == 'PtrMetadata':
                v = self.deref(st, a)
                if isinstance(v, ListV): return len(v.items)
            raise Unsupported('unop %s' % r[1])
        if k == 'discr':
            v = self.read(st, self.place_ref(st, frame, r[1]))
            if isinstance(v, Adt):
                a = self.adts.get(v.key)
                if a: return a['variants'][v.var]['discr']
                return v.var
            if v is POISON: raise Unsupported('value carried around a loop')
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'agg':
            fs = [self.operand(st, frame, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple': return Adt('()', 0, fs)
            if a[0] == 'array': return ListV(fs)
            if a[0] == 'adt': return Adt(a[1], a[2], fs)
            if a[0] == 'closure': return Clos(a[1], [self.subst(x, frame.genv) for x in a[2]], fs)
            raise Unsupported('aggregate %r' % (a,))
        if k == 'repeat':
            v = self.operand(st, frame, r[1])
            n = self.cval(self.subst(r[2], frame.genv))
            return ListV([v] * n)
        if k == 'cast': return self.cast(st, frame, r[1], self.operand(st, frame, r[2]), self.subst(r[3], frame.genv), self.op_type(frame, r[2]))
        if k == 'len':
            return len(self.read(st, self.place_ref(st, frame, r[1])).items)
        raise Unsupported('rvalue %r' % (k,))

    RNG = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
           'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
           'isize': (-2**63, 2**63 - 1)}

    def binop(self, st, frame, op, a, b, lty):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            # address arithmetic of inserted pointer checks (alignment, null)
            if not all(isinstance(x, int) or isinstance(x, Opaque) and x.tag == 'ptrint' for x in (a, b)): raise Unsupported('%s on a constant of unknown value' % op)
            if op == 'BitAnd': return 0
            if op in ('Eq', 'Ne'):
                return op == 'Ne'
            if op == 'Sub' or op == 'SubWithOverflow': return Opaque('ptrint')
            raise Unsupported('binop on opaque')
        if isinstance(a, Fl):
            f = {'Add': fadd, 'Sub': fsub, 'Mul': fmul, 'Div': fdiv}.get(op)
            if f: return fround32(f(a, b)) if lty == 'f32' else f(a, b)
            if op == 'Lt': return flt(a, b)
            if op == 'Le': return fle(a, b)
            if op == 'Gt': return flt(b, a)
            if op == 'Ge': return fle(b, a)
            if op == 'Eq': return feq(a, b)
            if op == 'Ne': return bnot(feq(a, b))
            raise Unsupported('float binop %s' % op)
        isb = lambda x: isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))
        if isb(a) and isb(b):
            if op == 'BitAnd': return band(a, b)
            if op == 'BitOr': return bor(a, b)
            if op == 'Eq': return beq(a, b)
            if op in ('Ne', 'BitXor'): return bnot(beq(a, b))
            raise Unsupported('bool binop %s' % op)
        m = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}.get(op)
        if m: return icmp(m, a, b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            it = lty[1][0] if isinstance(lty, list) and lty[0] == 'tuple' else 'usize'
            lo, hi = self.RNG[it]
            for x, y in ((a, b), (b, a)):
                # a 64-bit count in a field without a contract does not get within 2^16 of its end (assumption, DESIGN)
                if op[0] == 'A' and hi >= 1 << 62 and isinstance(y, int) and 0 <= y <= 1 << 16 and is_z3(x) and z3.is_const(x) and UNSPEC_NAME.fullmatch(str(x)):
                    self.assumptions.add('counters in fields without a contract do not reach 2^63 - 2^16')
                    return tup(r, False)
            return tup(r, bor(icmp('lt', r, lo), icmp('gt', r, hi)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
        if op in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'Div' else a - q * b
            if isinstance(lty, str) and lty.startswith('u') or isinstance(a, int) and a >= 0 or self.valid(st, icmp('le', 0, a)):
                return isimp(zi(a) / zi(b) if op == 'Div' else zi(a) % zi(b))
            q = z3.If(zi(a) >= 0, zi(a) / zi(b), -(-zi(a) / zi(b)))  # towards zero
            return isimp(q if op == 'Div' else zi(a) - q * zi(b))
        if op == 'BitAnd' and isinstance(a, int) and isinstance(b, int): return a & b
        if op == 'Shr' and isinstance(b, int):
            return a >> b if isinstance(a, int) else isimp(a / (1 << b))
        if op == 'Shl' and isinstance(b, int): return imul(a, 1 << b)
        raise Unsupported('binop %s' % op)

    def cast(self, st, frame, kind, v, ty, sty):
        if kind == 'IntToFloat': return fround32(ffrom_int(v)) if ty == 'f32' else ffrom_int(v)
        if kind == 'IntToInt':
            if isinstance(v, bool): return int(v)
            if is_z3(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, Adt): v = self.adts[v.key]['variants'][v.var]['discr']
            lo, hi = self.RNG.get(ty, (None, None))
            if lo is None: raise Unsupported('int cast to %r' % (ty,))
            if isinstance(v, int):
                m = hi - lo + 1
                return (v - lo) % m + lo
            w = band(icmp('ge', v, lo), icmp('le', v, hi))
            if w is True or self.valid(st, w): return v
            m = hi - lo + 1
            return isimp((v - lo) % m + lo)
        if kind == 'FloatToInt':
            lo, hi = self.RNG[ty]
            c = cv(v.v)
            if c is not None and not v.flagged:
                import math
                return max(lo, min(hi, math.trunc(c)))
            fl = z3.ToInt(v.v)
            tr = z3.If(v.v >= 0, fl, -z3.ToInt(-v.v))
            r = z3.If(tr < lo, z3.IntVal(lo), z3.If(tr > hi, z3.IntVal(hi), tr))
            if v.flagged:
                r = z3.If(zb(v.nan), z3.IntVal(0), z3.If(zb(v.pinf), z3.IntVal(hi), z3.If(zb(v.ninf), z3.IntVal(lo), r)))
            else:
                if self.valid(st, z3.And(tr >= lo, tr <= hi)): r = tr
                if lo == 0 and self.valid(st, v.v >= 0): r = fl if self.valid(st, z3.And(fl <= hi)) else r
            return r
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute', 'FnPtrToPtr'):
            if isinstance(v, BoxV) and kind == 'BoxDerefTransmute': return Ref(v.cell, (), True)
            return v
        if kind == 'Transmute':
            if isinstance(ty, str) and ty in self.RNG: return Opaque('ptrint')
            return v
        if kind == 'FloatToFloat': return fround32(v) if ty == 'f32' else v
        if kind == 'PointerExposeProvenance' or kind == 'PointerExposeAddress': return Opaque('ptrint')
        raise Unsupported('cast %s' % kind)

    # ------------------------------------------------------------ execution
    def exec_fn(self, st, key, genv, args):
        fn = self.fns[key]
        self.inlined.add(key)
        return self.exec_body(st, key, fn, fn['body'], genv, args)

    def exec_body(self, st, key, fn, body, genv, args, keep=False):
        if self.depth > 60: raise Unsupported('recursion depth')
        cells = {}
        for i in range(len(body['locals'])):
            c = next(_ids); cells[i] = c; st.cells[c] = UNINIT
        frame = Frame(key, fn, body, genv, cells)
        for i, a in enumerate(args): st.cells[cells[i + 1]] = a
        lt = body['locals'][0]
        self.depth += 1
        self.where.append(key.split('::', 1)[-1])
        try:
            outs = self.run(st, frame, 0, None)
        finally:
            self.depth -= 1
            self.where.pop()
        res = []
        for s, kind, v in outs:
            if kind == 'ret':
                v = s.cells[cells[0]]
                if v is UNINIT: v = UNIT
            if not keep:
                for c in cells.values(): s.cells.pop(c, None)
            res.append((s, kind, v))
        return self.merge_outs(res)

    def run(self, st, frame, block, stop):
        """execute from block; returns [(state, 'ret'|'panic'|'stop', val)]; stop = set of blocks ending the run"""
        work = [(st, block, True)]
        outs = []
        n = 0
        while work:
            st, b, first = work.pop()
            while True:
                n += 1
                if n > 20000: raise Unsupported('too many steps')
                if stop and b in stop and not first:
                    outs.append((st, 'stop', b)); break
                first = False
                if self.cut_header(frame, b):
                    r = self.count_loop(st, frame, b) if (id(frame), b) not in self.counting else True
                    if isinstance(r, tuple):
                        st, b = r
                        continue
                    if r is None and self.while_rule is not None and (id(frame), b) not in self.while_rule.active:
                        outs += self.while_rule.run(self, st, frame, b, stop)
                        break
                bl = frame.body['blocks'][b]
                for s in bl['s']:
                    if s[0] == '=':
                        lty = self.place_type(frame, s[1])
                        v = self.rvalue(st, frame, s[2], lty)
                        self.write(st, self.place_ref(st, frame, s[1]), v)
                    elif s[0] == 'setdiscr':
                        ref = self.place_ref(st, frame, s[1])
                        v = self.read(st, ref)
                        self.write(st, ref, Adt(v.key, s[2], v.fields))
                t = bl['t']
                k = t[0]
                if k == 'goto': b = t[1]; continue
                if k == 'return': outs.append((st, 'ret', None)); break
                if k == 'unreachable':
                    self.oblige(st, 'unreachable code', False, kind='no-panic'); break
                if k == 'drop': b = t[2]; continue
                if k == 'assert':
                    c = self.operand(st, frame, t[1])
                    c = c if t[2] else bnot(c)
                    if isinstance(c, Opaque): c = True
                    msg = t[3] if isinstance(t[3], str) else json_short(t[3])
                    if c is not True:
                        self.oblige(st, 'no panic: %s (line %s)' % (msg, t[-1]), c, kind='no-panic')
                        if c is False: break
                        st.assume(c)
                    else:
                        self.oblige(st, 'no panic: %s (line %s)' % (msg, t[-1]), True, kind='no-panic')
                    b = t[4]
                    continue
                if k == 'switch':
                    d = self.operand(st, frame, t[1])
                    nxt = self.switch(st, d, t[2], t[3])
                    if not nxt: break
                    for s2, b2 in nxt[1:]: work.append((s2, b2, False))
                    st, b = nxt[0]
                    continue
                if k == 'call':
                    if t[4] is None:  # diverging call
                        self.diverge(st, frame, t)
                        break
                    res = self.call(st, frame, b, t)
                    live = []
                    for r in res:
                        if r[1] == 'ret':
                            s2 = r[0]
                            self.write(s2, self.place_ref(s2, frame, t[3]), r[2])
                            live.append((s2, t[4]))
                        elif r[1] == 'goto': live.append((r[0], r[2]))
                        elif r[1] in ('fnret', 'fnpanic', 'fnstop'):
                            outs.append((r[0], r[1][2:], r[2]))
                        else: outs.append(r)
                    if not live: break
                    for s2, b2 in live[1:]: work.append((s2, b2, False))
                    st, b = live[0]
                    continue
                raise Unsupported('terminator %s' % k)
        return outs

    def place_type(self, frame, pl):
        if not pl[1]: return frame.body['locals'][pl[0]]
        return None

    def switch(self, st, d, targets, otherwise):
        if isinstance(d, bool): d = int(d)
        if isinstance(d, int):
            for v, b in targets:
                if v == d: return [(st, b)]
            return [(st, otherwise)]
        if d is POISON: raise Unsupported('branch on a value carried around a loop')
        out = []
        rest = []
        conds = []
        for v, b in targets:
            if z3.is_bool(d): c = d if v else z3.Not(d)
            else: c = d == v
            conds.append((c, b))
            rest.append(z3.Not(c))
        conds.append((z3.And(*rest) if len(rest) > 1 else rest[0], otherwise))
        for c, b in conds:
            bl_unreach = False
            if self.feasible(st, c):
                s2 = st.clone(); s2.assume(simp(c)); out.append((s2, b))
        return out

    def diverge(self, st, frame, t):
        f = self.operand(st, frame, t[1])
        nm = f.key if isinstance(f, FnV) else '?'
        self.oblige(st, 'no panic: %s (line %s)' % (nm.split('::')[-1], t[-1]), False, kind='no-panic')

    # ------------------------------------------------------------ calls
    def call(self, st, frame, b, t):
        f = self.operand(st, frame, t[1])
        args = [self.operand(st, frame, a) for a in t[2]]
        if isinstance(f, FnV):
            return self.call_key(st, f.key, f.targs, args, frame, b, t)
        return self.call_value(st, f, args)

    def call_value(self, st, f, args):
        f = self.deref(st, f) if isinstance(f, (Ref, BoxV)) else f
        if isinstance(f, Clos): return self.call_closure(st, f, args)
        if isinstance(f, FnV): return self.call_key(st, f.key, f.targs, args)
        if isinstance(f, Opaque) and f.tag == 'fnval': return f.data(self, st, args)
        raise Unsupported('call of %r' % (f,))

    def call_closure(self, st, c, args, self_ref=None):
        fn = self.fns[c.key]
        body = fn['body']
        genv = dict(zip(fn['generics'], c.targs))
        t1 = body['locals'][1]
        if isinstance(t1, list) and t1[0] == 'ref':
            if self_ref is None: self_ref = self.ref_to(st, c, True)
            env = self_ref
        else: env = c
        self.inlined.add(c.key)
        return self.exec_body(st, c.key, fn, body, genv, [env] + list(args))

    def call_key(self, st, key, targs, args, frame=None, b=None, t=None):
        # trait calls on local traits / local functions
        if key in self.trait_item or key in self.fns:
            if key in self.trait_item and isinstance(targs[0], list) and targs[0][0] == 'dyn':
                dc = self.dyn_contracts.get(key)
                if dc:
                    self.used_contracts.add(dc.name); return dc(self, st, args, targs)
                v = self.deref(st, args[0])
                if isinstance(v, Adt) and v.key in self.adts:
                    im, bb = None, None
                    for i in self.impls:
                        if i['trait'] and i['trait'][0] == self.trait_item[key][0] and i['self'][0] == 'adt' and i['self'][1] == v.key:
                            im = i
                    if im:
                        for n, k in im['items']:
                            if n == self.trait_item[key][1]:
                                genv = dict(zip([g for g in self.fns[k]['generics']], targs[1:]))
                                args = [self.strip_box(st, args[0])] + list(args[1:])
                                return self.exec_fn(st, k, genv, args)
                raise Unsupported('dynamic call of %s' % key)
            if key in self.trait_item and self.symbolic_type(targs[0]):
                c = self.contracts.get(key)
                if c is None: raise Unsupported('call of %s on an abstract type' % key)
                self.used_contracts.add(c.name)
                return c(self, st, args, dict(zip(['Self'], targs)))
            k, genv = self.resolve(key, targs)
            c = self.contracts.get(k) or self.contracts.get(key)
            if c is not None and not (self.depth == 0):
                self.used_contracts.add(c.name)
                return c(self, st, args, genv)
            return self.exec_fn(st, k, genv, args)
        m = self.models.lookup(key)
        if m is None:
            # foreign trait method implemented locally (Clone, Default, PartialEq, From, Display ...)
            r = self.foreign_trait(st, key, targs, args)
            if r is not None: return r
            if key.endswith('::{constructor#0}'):
                p = key[:-len('::{constructor#0}')]
                for k, n in ((p, None), tuple(p.rsplit('::', 1))):
                    a = self.adts.get(k)
                    if a is None or (n is None) != (a['kind'] == 'struct'): continue
                    for i, v in enumerate(a['variants']):
                        if n is None or v['name'] == n: return [(st, 'ret', Adt(k, i, args))]
            raise Unsupported('no model for %s' % key)
        self.used_models.add(key)
        return m(self, st, args, targs, (frame, b, t))

    def arbitrary_of(self, st, ty, name):
        import core
        try: return core.sym(self, st, ty, {}, name, self.natural)
        except (TypeError, KeyError, IndexError): raise Unsupported('arbitrary value of %r' % (ty,))

    def symbolic_type(self, t):
        return isinstance(t, list) and t[0] == 'abstract'

    def strip_box(self, st, a):
        return self.strip(st, a) if isinstance(a, Ref) else a

    def foreign_trait(self, st, key, targs, args):
        if '::' not in key or not targs: return None
        trait, name = key.rsplit('::', 1)
        im, b = self.find_impl(trait, targs[0], targs[1:])
        if not im: return None
        for n, k in im['items']:
            if n == name and k in self.fns:
                genv = dict(b)
                gs = self.fns[k]['generics']
                return self.exec_fn(st, k, genv, args)
        return None

    # ------------------------------------------------------------ merging
    def merge_outs(self, outs):
        rets = [o for o in outs if o[1] == 'ret']
        if len(rets) <= 1: return outs
        others = [o for o in outs if o[1] != 'ret']
        groups = []
        for o in rets:
            for i, g in enumerate(groups):
                m = self.try_merge(g, o)
                if m is not None:
                    groups[i] = m; break
            else: groups.append(o)
        return others + groups

    def disjoint(self, pc, c1, c2):
        c = band(c1, c2)
        if not is_z3(c): return c is False
        s = z3.Solver(); s.set('timeout', 500)
        for p in pc: s.add(p)
        s.add(c)
        return s.check() == z3.unsat

    def try_merge(self, o1, o2):
        s1, s2 = o1[0], o2[0]
        if s1.trace != s2.trace: return None
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n].eq(s2.pc[n]): n += 1
        c1, c2 = band(*s1.pc[n:]), band(*s2.pc[n:])
        # values are selected by c1 if the two path suffixes are disjoint, otherwise by a choice of its own
        if not (n < len(s1.pc) and n < len(s2.pc) and zb(bnot(s1.pc[n])).eq(zb(s2.pc[n])) or self.disjoint(s1.pc[:n], c1, c2)):
            b = self.fresh('choice', B)
            c1, c2 = band(b, c1), band(bnot(b), c2)
        try:
            v = self.merge_val(c1, o1[2], o2[2])
            cells = {}
            for k in s1.cells.keys() | s2.cells.keys():
                a, b = s1.cells.get(k, UNINIT), s2.cells.get(k, UNINIT)
                if a is UNINIT or b is UNINIT:
                    cells[k] = UNINIT if (a is UNINIT and b is UNINIT) else (a if b is UNINIT else b)
                    continue
                cells[k] = self.merge_val(c1, a, b)
        except NoMerge:
            return None
        d = bor(c1, c2)
        if is_z3(d):
            d = simp(d)
        return (State(cells, s1.pc[:n], s1.trace).assume(d), 'ret', v)

    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, Fl) and isinstance(b, Fl): return fite(c, a, b)
        num = lambda x: isinstance(x, (bool, int)) or is_z3(x)
        if num(a) and num(b): return ite_val(c, a, b)
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.key != b.key or a.var != b.var or len(a.fields) != len(b.fields): raise NoMerge()
            return Adt(a.key, a.var, [self.merge_val(c, x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
            return ListV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
            if not all(icmp('eq', x, y) is True for x, y in zip(a.shape, b.shape)): raise NoMerge()
            return LamArr(a.shape, lambda idx: fite(c, a.get(idx), b.get(idx)))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path) and all(path_eq(p, q) for p, q in zip(a.path, b.path)): return a
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.tag in ('err', 'fmt', 'zst', 'ptrint'): return a
        if a is UNINIT or b is UNINIT: return UNINIT
        if isinstance(a, Clos) and isinstance(b, Clos) and a.key == b.key:
            return Clos(a.key, a.targs, [self.merge_val(c, x, y) for x, y in zip(a.ups, b.ups)])
        raise NoMerge()

    # ------------------------------------------------------------ loops
    def cut_header(self, frame, b):
        """is b the header of a loop that is not driven by an iterator's next()?"""
        hs = frame.fn.get('_cut_headers')
        if hs is None:
            hs = self._headers(frame.body)
            frame.fn['_cut_headers'] = hs
        return b in hs

    def succs(self, body, b):
        t = body['blocks'][b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        return []

    def _headers(self, body):
        # back edges by DFS
        hs, color = set(), {}
        stack = [(0, iter(self.succs(body, 0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1: hs.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(body, s))))
                    break
            else:
                color[b] = 2; stack.pop()
        out = set()
        for h in hs:
            # iterator loops: the header block (or its goto chain) calls Iterator::next
            b = h
            isnext = False
            for _ in range(4):
                t = body['blocks'][b]['t']
                if t[0] == 'call':
                    f = t[1]
                    isnext = f[0] == 'k' and isinstance(f[1], list) and f[1][0] == 'fndef' and f[1][1].endswith('Iterator::next')
                    break
                if t[0] == 'goto': b = t[1]
                else: break
            if not isnext: out.add(h)
        return out

    def loop_blocks(self, body, b):
        """blocks on cycles through b"""
        reach = set(); st = [b]
        while st:
            x = st.pop()
            for s in self.succs(body, x):
                if s not in reach: reach.add(s); st.append(s)
        if b not in reach: return set()
        pred = {}
        for x in range(len(body['blocks'])):
            for s in self.succs(body, x): pred.setdefault(s, []).append(x)
        back = {b}; st = [b]
        while st:
            x = st.pop()
            for p in pred.get(x, []):
                if p not in back: back.add(p); st.append(p)
        return reach & back

    def diff_cells(self, st0, st1):
        return [c for c in st0.cells if st1.cells.get(c) is not st0.cells[c]]

    def natural_loop(self, body, h):
        """blocks of the loop with header h (without loops around it)"""
        color, src = {0: 1}, set()
        stack = [(0, iter(self.succs(body, 0)))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    if s == h: src.add(b)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(body, s))))
                    break
            else:
                color[b] = 2; stack.pop()
        pred = {}
        for x in range(len(body['blocks'])):
            for s in self.succs(body, x): pred.setdefault(s, []).append(x)
        loop = {h}; st = list(src)
        while st:
            x = st.pop()
            if x in loop: continue
            loop.add(x); st += pred.get(x, [])
        return loop

    def counters(self, frame, h):
        """integer variables compared by the loop condition and assigned in the loop"""
        memo = frame.fn.setdefault('_counters', {})
        if h in memo: return memo[h]
        body = frame.body
        loop = self.natural_loop(body, h)
        b, src = h, {}
        cands = set()
        for _ in range(6):
            for s in body['blocks'][b]['s']:
                if s[0] != '=' or s[1][1]: continue
                if s[2][0] == 'use' and s[2][1][0] in ('cp', 'mv') and not s[2][1][1][1]: src[s[1][0]] = s[2][1][1][0]
                if s[2][0] == 'bin':
                    for o in s[2][2:]:
                        if isinstance(o, list) and o[0] in ('cp', 'mv') and not o[1][1]: cands.add(src.get(o[1][0], o[1][0]))
            t = body['blocks'][b]['t']
            if t[0] not in ('goto', 'assert', 'call') or not self.succs(body, b): break
            b = self.succs(body, b)[0]
        assigned = {s[1][0] for x in loop for s in body['blocks'][x]['s'] if s[0] == '=' and not s[1][1]}
        ints = ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128')
        r = [l for l in sorted(cands) if l in assigned and body['locals'][l] in ints]
        memo[h] = r
        return r

    def count_loop(self, st, frame, h):
        """`while i < n { ...; i += 1 }` with symbolic bounds, as the loop over the range; None when the loop is of another kind"""
        for local in self.counters(frame, h):
            cell = frame.cells[local]
            v0 = st.cells.get(cell)
            if not (isinstance(v0, int) and not isinstance(v0, bool)) and not (is_z3(v0) and z3.is_int(v0)): continue
            body = frame.body
            loop = self.natural_loop(body, h)
            exits = {s for x in loop for s in self.succs(body, x) if s not in loop}
            stop = {h} | exits
            me = (id(frame), h)
            nobl, nf = len(self.obls), len(self.facts)
            self.counting.add(me)
            try:
                i = self.fresh('n', I); self.add_index(i)
                s = st.clone(); s.cells[cell] = i
                try: outs = self.run(s, frame, h, stop)
                except Unsupported: outs = []
                del self.obls[nobl:]; del self.facts[nf:]
                back = [o for o in outs if o[1] == 'stop' and o[2] == h]
                out = [o for o in outs if not (o[1] == 'stop' and o[2] == h)]
                if not back or len(out) != 1 or out[0][1] != 'stop': continue
                ds = [isub(o[0].cells[cell], i) for o in back]
                if ds[0] not in (1, -1) or any(d != ds[0] for d in ds): continue
                up = ds[0] == 1
                leave = band(*out[0][0].pc[len(st.pc):])
                if not is_z3(leave): continue
                bound = self.count_bound(st, leave, i, v0, up)
                if bound is None: continue
                if isinstance(v0, int) and isinstance(bound, int): return True     # unrolled
                lo, hi = (v0, bound) if up else (iadd(bound, 1), iadd(v0, 1))

                def step(s, x):
                    s.cells[cell] = x
                    res = []
                    for o in self.run(s, frame, h, stop):
                        if o[1] == 'stop' and o[2] == h: res.append(o[0])
                        elif self.feasible(o[0], True): raise Unsupported('early exit from a counting loop')
                    return res
                post = self.summarize(st, lo, hi, not up, {cell}, step)
                post.cells[cell] = bound if self.valid(st, icmp('le', v0, bound) if up else icmp('ge', v0, bound)) else iite(icmp('le', v0, bound) if up else icmp('ge', v0, bound), bound, v0)
                nobl = len(self.obls)
                res = [o for o in self.run(post, frame, h, stop) if not (o[1] == 'stop' and o[2] == h) or self.feasible(o[0], True)]
                if len(res) != 1 or res[0][1] != 'stop' or res[0][2] == h: raise Unsupported('exit of a counting loop')
                return res[0][0], res[0][2]
            finally: self.counting.discard(me)
        return None

    def count_bound(self, st, leave, i, v0, up):
        """t such that the loop is left exactly when i >= t (counting up) or i <= t (counting down)"""
        seen, todo, terms = set(), [leave], []
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); todo += t.children()
            if z3.is_int(t) and not self.mentions(t, i):
                terms += [isimp(t), iadd(isimp(t), 1), isub(isimp(t), 1)]
        s = st.clone()
        for t in terms + [0]:
            if self.valid(s, beq(leave, icmp('ge', i, t) if up else icmp('le', i, t))): return t
        for t in terms + [0]:
            if self.valid(s, beq(leave, icmp('eq', i, t))) and self.valid(s, icmp('le', v0, t) if up else icmp('ge', v0, t)): return t
        return None

    def summarize_for(self, st, frame, b, t, itref, it):
        """`for x in it` with symbolic bounds, at the next() call in block b"""
        from models import it_base, it_item
        lb = self.loop_blocks(frame.body, b)
        if not lb: raise Unsupported('next() on a symbolic range outside a loop')
        bs = it_base(it)

        def step(s, i):
            res = []
            for s2, v in it_item(self, s, it, i):
                self.write(s2, self.place_ref(s2, frame, t[3]), Some(v))
                for o in self.run(s2, frame, t[4], {b}):
                    if o[1] == 'ret': raise Unsupported('return inside a symbolic loop')
                    if o[1] == 'stop' and o[2] != b: raise Unsupported('break out of a symbolic loop')
                    if o[1] == 'stop': res.append(o[0])
            return res
        if bs.lst is not None and self.list_rule is not None:
            post = self.list_rule(self, st, bs, {itref.cell}, step)
        else:
            def both(s, i):
                cont, exits = [], []
                for s2, v in it_item(self, s, it, i):
                    self.write(s2, self.place_ref(s2, frame, t[3]), Some(v))
                    for o in self.run(s2, frame, t[4], {b}):
                        if o[1] == 'stop' and o[2] == b: cont.append(o[0])
                        else: exits.append(o)
                return cont, exits
            ex = self.loop_exits(st, bs, {itref.cell}, {itref.cell}, both)
            if ex is not None:
                post, exits = ex
                out = [(o[0], 'goto', o[2]) if o[1] == 'stop' else (o[0], 'fn' + o[1], o[2]) for o in exits]
                self.write(post, Ref(itref.cell, itref.path), self.models.exhausted(it))
                self.write(post, self.place_ref(post, frame, t[3]), NONE)
                return [(post, 'goto', t[4])] + out
            post = self.summarize(st, bs.lo, bs.hi, bs.rev, {itref.cell}, step)
        self.write(post, Ref(itref.cell, itref.path), self.models.exhausted(it))
        self.write(post, self.place_ref(post, frame, t[3]), NONE)
        return [(post, 'goto', t[4])]

    def loop_exits(self, st, bs, skip, skip2, both):
        """loops that may be left early: either every iteration goes on, or some iteration leaves and all earlier ones go on.
        both(s, i) -> (states that go on, outcomes that leave); None when no iteration can leave"""
        if icmp('lt', bs.lo, bs.hi) is not True and not self.feasible(st, icmp('lt', bs.lo, bs.hi)): return None
        i = self.fresh('x', I); self.add_index(i)
        rng = lambda x: band(icmp('le', bs.lo, x), icmp('lt', x, bs.hi))
        nobl, nf, fresh0, nlog = len(self.obls), len(self.facts), self.fresh_n, len(self.elem_log)
        s = st.clone(); s.assume(rng(i))
        base_n = len(s.pc)
        cont, exits = both(s, i)
        log = self.elem_log[nlog:]; del self.elem_log[nlog:]
        if not exits:
            del self.obls[nobl:]; del self.facts[nf:]
            return None
        if len(self.facts) != nf: raise Unsupported('quantified fact inside a loop with an early exit')
        carried = set()
        for c in cont:
            carried |= set(self.diff_cells(st, c)) - skip
            if c.trace != st.trace: carried.add(None)
            for l, ref, cell, old in log:
                if ref is not None and c.cells.get(cell, old) is not old: carried.add(ref)
        go = bor(*[band(*c.pc[base_n:]) for c in cont]) if cont else False
        self.no_fresh([go] if is_z3(go) else [], i, fresh0)
        G = lambda x: self.subst_term(go, i, x)
        n = isub(bs.hi, bs.lo)
        A = self.fresh('all', B)
        self.facts.append(Fact(A, (n,), lambda k: G(iadd(bs.lo, k[0])), 'every iteration goes on'))
        if carried:
            # the result of going through, and exits from an iteration that starts in an arbitrary carried state
            del self.obls[nobl:]
            post = self.summarize(st, bs.lo, bs.hi, bs.rev, skip2, lambda s, i: both(s, i)[0])
            s = st.clone(); s.assume(rng(i))
            for c in carried:
                if c is None: s.event('events of earlier iterations'); continue
                if isinstance(c, Ref): self.write(s, c, POISON); continue
                s.cells[c] = self.arbitrary(s.cells[c])
            _, exits = both(s, i)
            if len(self.facts) != nf + 1: raise Unsupported('quantified fact inside a loop with an early exit')
        else: post = st.clone()
        post.assume(A)
        # iteration i is the one that leaves
        E = self.fresh('earlier', B)
        rev = bs.rev
        self.facts.append(Fact(E, (n,), lambda k: bimp(icmp('gt', iadd(bs.lo, k[0]), i) if rev else icmp('lt', iadd(bs.lo, k[0]), i), G(iadd(bs.lo, k[0]))), 'earlier iterations go on'))
        for o in exits: o[0].assume(E)
        return post, exits

    def arbitrary(self, v):
        if isinstance(v, StrV): return StrV(Opaque('anytext', self.fresh_name()))
        if v is UNINIT: return UNINIT
        if isinstance(v, (ListV, GrowList)): return GrowList(self.fresh_name(), ())
        if isinstance(v, Adt) and v.key in self.adts and self.adts[v.key]['kind'] == 'struct': return Adt(v.key, v.var, [POISON] * len(v.fields))
        return POISON

    def fresh_name(self):
        self.fresh_n += 1
        return self.fresh_n

    def summarize(self, st, lo, hi, rev, skip, step):
        """independent-iteration rule for lo <= i < hi"""
        if icmp('lt', lo, hi) is not True and not self.feasible(st, icmp('lt', lo, hi)):
            return st.clone()
        i = self.fresh('i', I)
        self.add_index(i)
        rng = lambda x: band(icmp('le', lo, x), icmp('lt', x, hi))

        def iteration(pre):
            s = pre.clone()
            s.assume(rng(i))
            return step(s, i)

        nobl = len(self.obls); nf = len(self.facts)
        fresh0 = self.fresh_n
        nlog = len(self.elem_log)
        ends = iteration(st)
        del self.obls[nobl:]
        if len(self.facts) != nf: raise Unsupported('quantified fact inside a symbolic loop')
        changed = set()
        for e in ends: changed |= set(self.diff_cells(st, e))
        changed -= skip
        # second pass: poison scalars, track arrays
        pre = st.clone()
        log = []
        # numbers carried from one iteration to the next (only where nothing else but numbers and arrays changes)
        accs = {}
        plain = all(e.trace == st.trace for e in ends) and not any(ref is not None and any(e.cells.get(cell, old) is not old for e in ends) for l, ref, cell, old in self.elem_log[nlog:])
        isint = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))

        def prep(old, new_list, path):
            if all(n is old for n in new_list): return old
            if plain and isinstance(old, Fl) and all(isinstance(n, Fl) for n in new_list):
                p = self.models.anyfl(self, 'acc') if XREAL[0] else self.models.carried_fl(self, old)
                accs[path] = (old, p); return p
            if plain and isint(old) and all(isint(n) for n in new_list):
                d = isub(new_list[0], old)
                if isinstance(d, int) and all(icmp('eq', isub(n, old), d) is True for n in new_list):
                    # induction variable: grows by the same amount in every iteration
                    k = isub(isub(hi, 1), i) if rev else isub(i, lo)
                    p = iadd(old, imul(d, k))
                    accs[path] = (old, p, d); return p
                return POISON
            if isinstance(old, Arr):
                tr = TrackArr(old, lambda idx, p=path: log.append((p, idx)))
                return tr
            if isinstance(old, Adt) and all(isinstance(n, Adt) and n.key == old.key and n.var == old.var and len(n.fields) == len(old.fields) for n in new_list):
                return Adt(old.key, old.var, [prep(o, [n.fields[k] for n in new_list], path + (('f', k),)) for k, o in enumerate(old.fields)])
            if isinstance(old, StrV) and all(isinstance(n, StrV) for n in new_list): return StrV(Opaque('track', self.fresh_name()))
            if isinstance(old, ListV) and not old.items and all(isinstance(n, ListV) and len(n.items) <= 1 for n in new_list): return GrowList(self.fresh_name(), ())
            if isinstance(old, Clos) and all(isinstance(n, Clos) for n in new_list):
                return Clos(old.key, old.targs, [prep(o, [n.ups[k] for n in new_list], path + (('f', k),)) for k, o in enumerate(old.ups)])
            return POISON if old is not UNINIT else UNINIT
        del self.elem_log[nlog:]
        pre_vals = {}
        for c in changed:
            pre_vals[c] = prep(st.cells[c], [e.cells.get(c, UNINIT) for e in ends], (c,))
            pre.cells[c] = pre_vals[c]
        # reads are logged with the path condition of the whole iteration end they belong to (over-approximation: any)
        ends = iteration(pre)
        if not ends: raise Unsupported('loop body never completes')
        if len(self.facts) != nf: raise Unsupported('quantified fact inside a symbolic loop')
        events = any(e.trace != st.trace for e in ends)
        if events and (not self.text or rev or any(e.trace[:len(st.trace)] != st.trace for e in ends)): raise Unsupported('ghost event inside a symbolic loop')
        log_el = self.elem_log[nlog:]; del self.elem_log[nlog:]
        base_n = len(pre.pc)
        # collect stores
        post = st.clone()
        writes = {}

        def old_of(path):
            v = st.cells[path[0]]
            for p in path[1:]: v = self.proj(st, v, p)
            return v

        def carried(pv, news, path):
            old, p = accs[path][:2]
            if len(accs[path]) == 3:
                d = accs[path][2]
                if not all(isint(n) and icmp('eq', isub(n, p), d) is True for _, n in news): return POISON
                n = isub(hi, lo)
                return iadd(old, imul(d, iite(icmp('lt', lo, hi), n, 0)))
            if not all(isinstance(n, Fl) for _, n in news): return POISON
            if all(n is p for _, n in news): return old
            r = news[-1][1]
            for cc, n in reversed(news[:-1]): r = fite(cc, n, r)
            if not self.mentions(r.v, p.v): return POISON
            if XREAL[0]: return self.models.anyfl(self, 'fold')
            s1 = st.clone(); s1.assume(rng(i))
            try: self.no_fresh([x for x in (r.v, r.nan, r.pinf, r.ninf) if is_z3(x)], i, fresh0, {str(x) for x in (p.v, p.nan, p.pinf, p.ninf) if is_z3(x)})
            except Unsupported: return POISON
            m = self.models.minmax_fold(self, post, s1, old, p, r, (isub(hi, lo),), (i,), lambda g, k: self.subst_fl(g, i, iadd(lo, k[0])))
            return m if m is not None else POISON

        def summarize(pv, news, path):
            """pv: value at loop entry of the generic iteration, news: [(cond, value at its end)]"""
            if path in accs: return carried(pv, news, path)
            if all(n is pv for _, n in news): return self.untrack(pv)
            if isinstance(pv, TrackArr):
                stores = []
                for cnd, n in news:
                    chain = []
                    self.collect_stores(n, pv, True, chain)
                    for c2, idx, val in chain: stores.append((band(cnd, c2), idx, val))
                writes[path] = [(cc, idx) for cc, idx, _ in stores]
                return self.loop_array(pv.base, stores, i, lo, hi, fresh0, rev)
            if isinstance(pv, Adt):
                return Adt(pv.key, pv.var, [summarize(f, [(cc, n.fields[k]) for cc, n in news], path + (('f', k),)) for k, f in enumerate(pv.fields)])
            trk = lambda v: isinstance(v, Opaque) and v.tag == 'track'
            if isinstance(pv, StrV) and pv.parts and trk(pv.parts[0]):
                if rev or not all(isinstance(n, StrV) and n.parts and n.parts[0] is pv.parts[0] and not any(trk(x) for x in n.parts[1:]) for _, n in news): raise Unsupported('text is not only appended to')
                alts = [(cc, n.parts[1:]) for cc, n in news]
                if all(data_same(p, alts[0][1]) for _, p in alts): alts = [(True, alts[0][1])]
                r = Rep(lo, hi, i, alts)
                return StrV(old_of(path), r)
            if isinstance(pv, GrowList):
                if rev or not all(isinstance(n, GrowList) and n.mark == pv.mark and len(n.items) == 1 for _, n in news): return POISON
                return self.sym_list('list', isub(hi, lo), [(cc, n.items[0]) for cc, n in news], i, lo)
            if isinstance(pv, Clos):
                return Clos(pv.key, pv.targs, [summarize(f, [(cc, n.ups[k]) for cc, n in news], path + (('f', k),)) for k, f in enumerate(pv.ups)])
            return POISON
        conds = []
        for e in ends:
            cs = [x for x in e.pc[base_n:]]
            # drop the range assumption itself
            r = rng(i)
            cs = [x for x in cs if not (is_z3(r) and x.eq(r))]
            conds.append(band(*cs))
        for c in changed:
            post.cells[c] = summarize(pre_vals[c], [(cd, e.cells.get(c, UNINIT)) for cd, e in zip(conds, ends)], (c,))
        if events:
            post.trace = st.trace + (('each', Each(lo, hi, i, [(cd, e.trace[len(st.trace):]) for cd, e in zip(conds, ends)])),)
        # elements of lists changed in place
        lists = {}
        for l, ref, cell, old in log_el:
            if ref is not None and any(e.cells.get(cell, old) is not old for e in ends): lists[ref.cell, ref.path] = (l, ref)
        for l, ref in lists.values():
            alts = []
            for cd, e in zip(conds, ends):
                own = [e.cells[cell] for l2, r2, cell, old in log_el if l2 is l and r2 is not None and cell in e.cells]
                if len(own) != 1: raise Unsupported('list element visited twice')
                alts.append((cd, own[0]))
            whole = icmp('eq', lo, 0) is True and icmp('eq', hi, l.n) is True
            self.no_fresh([c for c, _ in alts if is_z3(c)] + [t for _, v in alts for t in self.leaves(v)], i, fresh0)
            new = self.sym_list(l.name, l.n, alts, i, 0)
            if not whole:
                inside = lambda k: band(icmp('le', lo, k), icmp('lt', k, hi))
                new.alts = [(lambda k, c=c: band(inside(k), c(k)), f) for c, f in new.alts] + [(lambda k, c=c: band(bnot(inside(k)), c(k)), f) for c, f in l.alts]
            self.write(post, ref, new)
        # independence: an element read in iteration i is not written by an earlier one
        k = self.fresh('k', I)
        earlier = icmp('gt', k, i) if rev else icmp('lt', k, i)
        done = set()
        for path, idx in log:
            for cnd, widx in writes.get(path, []):
                key = (path, tuple(str(x) for x in idx), tuple(str(x) for x in widx))
                if key in done: continue
                done.add(key)
                w2 = tuple(x if isinstance(x, int) else z3.substitute(x, (i, k)) for x in widx)
                clash = band(rng(i), rng(k), earlier, idx_eq(idx, w2))
                if clash is False: continue
                if not self.valid(st, bnot(clash)):
                    raise Unsupported('loop-carried array dependency')
        return post

    def sym_list(self, name, n, alts, i, lo):
        """list whose element k is the value at iteration lo + k"""
        mk = lambda c, v: (lambda k: self.subst_term(c, i, iadd(lo, k)), lambda k: self.subst_any(v, i, iadd(lo, k)))
        return SymList(name, n, [mk(c, v) for c, v in alts])

    def leaves(self, v):
        """terms a value consists of"""
        if is_z3(v): return [v]
        if isinstance(v, Fl): return [t for t in (v.v, v.nan, v.pinf, v.ninf) if is_z3(t)]
        if isinstance(v, Adt): return [t for f in v.fields for t in self.leaves(f)]
        if isinstance(v, ListV): return [t for f in v.items for t in self.leaves(f)]
        if isinstance(v, StrV): return [t for f in v.parts for t in self.leaves(f)]
        if isinstance(v, (tuple, list)): return [t for f in v for t in self.leaves(f)]
        if isinstance(v, Opaque): return self.leaves(v.data) if isinstance(v.data, tuple) else []
        return []

    def subst_any(self, v, i, x):
        """replace the index i in a value"""
        if is_z3(i) and is_z3(x) and x.eq(i): return v
        if isinstance(v, Fl) or is_z3(v): return self.subst_fl(v, i, x)
        if isinstance(v, (bool, int, str)) or v is None or v in (UNINIT, POISON): return v
        if isinstance(v, Adt): return Adt(v.key, v.var, [self.subst_any(f, i, x) for f in v.fields])
        if isinstance(v, ListV): return ListV([self.subst_any(f, i, x) for f in v.items])
        if isinstance(v, (tuple, list)): return tuple(self.subst_any(f, i, x) for f in v)
        if isinstance(v, StrV): return StrV(*[self.subst_any(f, i, x) for f in v.parts])
        if isinstance(v, Opaque): return Opaque(v.tag, self.subst_any(v.data, i, x)) if isinstance(v.data, tuple) else v
        if isinstance(v, Arr): return LamArr([self.subst_fl(d, i, x) for d in v.shape], lambda idx: self.subst_fl(v.get(idx), i, x))
        if isinstance(v, Rep): return Rep(self.subst_fl(v.lo, i, x), self.subst_fl(v.hi, i, x), v.i, [(self.subst_fl(c, i, x), self.subst_any(tuple(p), i, x)) for c, p in v.alts])
        if isinstance(v, SymList): return SymList(v.name, self.subst_fl(v.n, i, x), [(lambda k, c=c: self.subst_term(c(k), i, x), lambda k, f=f: self.subst_any(f(k), i, x)) for c, f in v.alts])
        if isinstance(v, (FnV, Clos)): return v
        if isinstance(v, Unspec): return Unspec(self, v.name, v.ty)   # of each iteration its own
        raise Unsupported('value %r inside a symbolic loop' % (v,))

    def untrack(self, v):
        if isinstance(v, TrackArr): return v.base
        if isinstance(v, Adt):
            fs = [self.untrack(f) for f in v.fields]
            return v if all(a is b for a, b in zip(fs, v.fields)) else Adt(v.key, v.var, fs)
        return v

    def collect_stores(self, a, base, cond, out):
        """stores of array value a over base, oldest first"""
        if a is base: return
        if isinstance(a, StoreArr):
            self.collect_stores(a.base, base, cond, out)
            out.append((cond, a.idx, a.val))
            return
        if isinstance(a, LamArr) and hasattr(a, 'merge'):
            raise Unsupported('merged array in a symbolic loop')
        raise Unsupported('bulk array update in a symbolic loop')

    def loop_array(self, base, stores, i, lo, hi, fresh0, rev=False):
        """array after all iterations: for every store find the iteration writing index b (affine inversion)"""
        items = []
        for cnd, idx, val in stores:
            comp = None
            for n, x in enumerate(idx):
                if isinstance(x, int): continue
                c = isub(x, i)
                if not self.mentions(c, i): comp = (n, c, 1); break
                c = iadd(x, i)
                if not self.mentions(c, i): comp = (n, c, -1); break
            if comp is None: raise Unsupported('store index is not an affine function of the loop variable')
            for n, x in enumerate(idx):
                if n != comp[0] and not isinstance(x, int) and self.mentions(x, i) and comp is None: raise Unsupported('store index')
            self.no_fresh([val.v] + [f for f in (val.nan, val.pinf, val.ninf) if is_z3(f)] + ([cnd] if is_z3(cnd) else []), i, fresh0)
            items.append((cnd, idx, val, comp))

        same = lambda p, q: p[0] == q[0] and p[2] == q[2] and icmp('eq', p[1], q[1]) is True
        one = all(same(x[3], items[0][3]) for x in items)

        def get(bidx):
            r = base.get(bidx)
            last = None     # iteration of the last write so far (stores at different offsets: the later iteration wins)
            for cnd, idx, val, (n, c, sg) in items:
                it = isub(bidx[n], c) if sg == 1 else isub(c, bidx[n])
                sub = lambda x: self.subst_term(x, i, it)
                g = band(icmp('le', lo, it), icmp('lt', it, hi), sub(cnd),
                         *[icmp('eq', bidx[m], sub(idx[m])) for m in range(len(idx)) if m != n])
                if g is False: continue
                if not one:
                    if last is not None: g = band(g, icmp('le', it, last) if rev else icmp('ge', it, last))
                    if g is False: continue
                    last = iite(g, it, last if last is not None else (hi if rev else isub(lo, 1)))
                r = fite(g, self.subst_fl(val, i, it), r)
            return r
        return LamArr(base.shape, get)

    def mentions(self, t, c):
        if not is_z3(t): return False
        seen, st = set(), [t]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if e.eq(c): return True
            st.extend(e.children())
        return False

    def no_fresh(self, terms, i, fresh0, allowed=()):
        """no constant introduced during the generic iteration other than i may survive in the summary"""
        seen, st = set(), [t for t in terms if is_z3(t)]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(i):
                n = e.decl().name()
                u = UNSPEC_NAME.match(n)
                if u and self.unspec.get(u.group(0), 0) > fresh0: raise Unsupported('unspecified value inside a symbolic loop')
                if not z3.is_const(e): st.extend(e.children()); continue
                if n in self.fresh_names and n not in allowed and int(n.rsplit('!', 1)[1]) > fresh0: raise Unsupported('havocked value inside a symbolic loop')
            st.extend(e.children())

    def subst_term(self, x, i, it):
        if not is_z3(x): return x
        r = z3.substitute(x, (i, zi(it)))
        if z3.is_int(r): return isimp(r)
        return r

    def subst_fl(self, v, i, it):
        if isinstance(v, Fl):
            return Fl(self.subst_term(v.v, i, it), self.subst_term(v.nan, i, it), self.subst_term(v.pinf, i, it), self.subst_term(v.ninf, i, it))
        return self.subst_term(v, i, it)

    def add_index(self, t):
        if isinstance(t, int) or not any(is_z3(x) and x.eq(t) for x in self.index_terms): self.index_terms.append(t)


def part_same(x, y):
    if isinstance(x, str) or isinstance(y, str): return x == y
    if isinstance(x, Opaque) and isinstance(y, Opaque): return x.tag == y.tag and data_same(x.data, y.data)
    return x is y


def data_same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(data_same(p, q) for p, q in zip(x, y))
    if isinstance(x, Fl) and isinstance(y, Fl): return simp(fsame(x, y)) is True or z3.is_true(simp(zb(fsame(x, y))))
    if is_z3(x) or is_z3(y):
        if all(isinstance(v, int) or is_z3(v) for v in (x, y)):
            if is_bool(x) != is_bool(y): return False
            g = icmp('eq', x, y) if not (is_z3(x) and z3.is_bool(x)) else beq(x, y)
            return g is True or (is_z3(g) and z3.is_true(z3.simplify(g)))
        return False
    if isinstance(x, StrV) and isinstance(y, StrV): return len(x.parts) == len(y.parts) and all(part_same(p, q) for p, q in zip(x.parts, y.parts))
    if isinstance(x, Opaque) and isinstance(y, Opaque): return part_same(x, y)
    return x is y or (type(x) is type(y) and isinstance(x, (str, int, bool, type(None))) and x == y)


def is_bool(x): return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


class NoMerge(Exception): pass


def path_eq(p, q):
    if p[0] != q[0]: return False
    if p[0] == 'e': return all(icmp('eq', x, y) is True for x, y in zip(p[1], q[1]))
    return p[1:] == q[1:]


def simp(c):
    return z3.simplify(c) if is_z3(c) else c


def icmp_true(c):
    return c is True


def json_short(x):
    import json
    return json.dumps(x)[:80]
