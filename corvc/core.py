"""Contracts, symbolic inputs and verification units."""
import itertools, time, traceback
import z3
from terms import *
from engine import *
import models
import models_io, models_std
import prove

PHYS = {'adiabatic': ('@state::systems::euler1dadiabatic::Euler1DAdiabatic', 3), 'isot': ('@state::systems::euler1disot::Euler1DIsot', 2)}
VARS, STATE, MESH = '@state::variables::Variables', '@state::State', '@mesh::Mesh'
ARR = 'ndarray::ArrayBase'


class LostAnchor(Unsupported):
    pass


class Late(Unsupported):
    """raised after the symbolic execution is complete: the obligations generated so far stand"""


class HavocArr(BaseArr):
    pass


class HavocFl(Fl):
    __slots__ = ()


class HavocAny:
    """specified as: anything"""


class Program:
    """lookup of functions by what they are, not by where they stand in the file"""
    def __init__(self, d):
        self.d = d
        self.fns, self.impls, self.traits, self.adts = d['fns'], d['impls'], d['traits'], d['adts']

    def method(self, adt, name, trait=None, pick=None):
        """method of an (inherent or trait) impl of a local type"""
        c = []
        for im in self.impls:
            if im['self'][0] != 'adt' or im['self'][1] != self.adt(adt): continue
            tr = im['trait'][0] if im['trait'] else None
            if trait is None and tr is not None: continue
            if trait is not None and (tr is None or not (tr == trait or tr.endswith('::' + trait))): continue
            if pick and not pick(im): continue
            for n, k in im['items']:
                if n == name and k in self.fns: c.append(k)
        if len(c) != 1: raise LostAnchor('function %s::%s not found' % (adt, name))
        return c[0]

    def default(self, trait, name):
        for tk, t in self.traits.items():
            if tk.split('::')[-1] == trait:
                for n, k, has in t['items']:
                    if n == name: return k
        raise LostAnchor('trait function %s::%s not found' % (trait, name))

    def free(self, path):
        k = '@' + path
        if k in self.fns: return k
        c = [x for x in self.fns if x.split('::')[-1] == path.split('::')[-1] and '{' not in x]
        if len(c) != 1: raise LostAnchor('function %s not found' % path)
        return c[0]

    def adt(self, name):
        if name.startswith('@') and name in self.adts: return name
        c = [k for k in self.adts if k == name or k.split('::')[-1] == name.split('::')[-1]]
        if len(c) != 1: raise LostAnchor('type %s not found' % name)
        return c[0]

    def fields(self, name, var=0):
        return [f[0] for f in self.adts[self.adt(name)]['variants'][var]['fields']]

    def fidx(self, name, field, var=0):
        fs = self.fields(name, var)
        if field not in fs: raise LostAnchor('field %s.%s not found' % (name, field))
        return fs.index(field)

    def variant(self, name, v):
        for i, x in enumerate(self.adts[self.adt(name)]['variants']):
            if x['name'] == v: return i
        raise LostAnchor('variant %s::%s not found' % (name, v))

    def enum(self, name, v, *fields): return Adt(self.adt(name), self.variant(name, v), fields)


# ---------------------------------------------------------------- working with values by field name
class V:
    """helper bound to an engine: named access to struct values"""
    def __init__(self, eng): self.e, self.p = eng, eng.prog

    def get(self, adt, *path):
        for f in path:
            if isinstance(f, int): adt = adt.fields[f]
            else: adt = adt.fields[self.p.fidx(adt.key, f, adt.var)]
        return adt

    def set(self, adt, **kw):
        fs = list(adt.fields)
        for f, v in kw.items(): fs[self.p.fidx(adt.key, f, adt.var)] = v
        return Adt(adt.key, adt.var, fs)


def sym(eng, st, ty, genv, name, dims, over=None, flagged=False):
    """symbolic value of a type; dims = (E, S); over: {path: value or callable(name)}"""
    ty = eng.subst(ty, genv)
    o = (over or {}).get(name)
    if o is not None: return o(name) if callable(o) else o
    if ty == 'f64': return flagged_fl(name) if flagged else Fl(z3.Real(name))
    if ty == 'bool': return z3.Bool(name)
    if isinstance(ty, str) and ty in eng.RNG:
        x = z3.Int(name)
        lo, hi = eng.RNG[ty]
        st.assume(z3.And(x >= lo, x <= hi))
        return x
    if ty[0] == 'adt':
        k = ty[1]
        if k == ARR:
            nd = ty[2][1][2][0][2][1] if ty[2][1][0] == 'adt' else 1
            if dims is eng.natural:
                if dims is None or nd not in (1, 2) or 'f64' not in ty[2][0][-1]: raise Unsupported('symbolic value of %r' % (ty,))
                eng.assumptions.add('arrays in fields without a contract have the shape (equations, cells) or (cells)')
            return BaseArr(name, dims[1:] if nd == 1 else dims, flagged)
        if k == 'std::string::String': return StrV(Opaque('sym', name))
        if k == 'std::marker::PhantomData': return Adt(k, 0, ())
        if k in eng.adts:
            a = eng.adts[k]
            if a['kind'] == 'struct':
                g2 = dict(zip(a['generics'], ty[2]))
                return Adt(k, 0, [sym(eng, st, ft, g2, name + '.' + fn, dims, over, flagged) for fn, ft in a['variants'][0]['fields']])
            raise Unsupported('symbolic enum %s' % k)
    raise Unsupported('symbolic value of %r' % (ty,))


class Out:
    """outcome of a contract: under cond the call ends in state st with value ret (kind 'ret')"""
    def __init__(self, st, ret=None, cond=True): self.st, self.ret, self.cond = st, ret if ret is not None else UNIT, cond


class Contract:
    """A function contract.

    effect(eng, st, args, genv, pre) -> [Out]; st is a private copy of the pre-state (the frame condition is that
    everything the effect does not touch stays as it was).  pre(name, goal) registers precondition obligations.
    """
    def __init__(self, name, key, effect, domain=None):
        self.name, self.key, self.effect, self.domain = name, key, effect, domain

    def __call__(self, eng, st, args, genv):
        outs = []
        obl = lambda n, g: (eng.oblige(st, 'precondition of %s: %s' % (self.name, n), g, kind='pre'))
        for o in self.effect(eng, st.clone(), args, genv, obl):
            if o.cond is not True:
                o.st.assume(o.cond)
                if not eng.feasible(o.st): continue
            if self.domain:
                for f in self.domain(eng, st, args, genv): eng.facts.append(Fact(True, f[0], f[1], 'domain of ' + self.name))
            outs.append((o.st, 'ret', o.ret))
        return outs


def unspecified(eng, name, var=0):
    """value of a type about whose fields nothing is said yet"""
    k = eng.prog.adt(name)
    return Adt(k, var, [Unspec(eng, name.split('::')[-1] + '.' + f[0], f[1]) for f in eng.adts[k]['variants'][var]['fields']])


def mk_engine(dump):
    eng = Engine(dump, models)
    eng.prog = Program(dump)
    eng.v = V(eng)
    return eng


def base_env(eng, phys, smin=5):
    """generic environment of a physics instantiation with a symbolic number of cells"""
    key, E = PHYS[phys]
    S = z3.Int('S')
    eng.natural = (E, S)
    sarg = ['cval', S]
    genv = {'E': ['cint', E], 'S': sarg, 'P': ['adt', eng.prog.adt(key), [sarg]], 'Self': ['adt', eng.prog.adt(key), [sarg]]}
    return genv, E, S


def verify(eng, c, st, args, genv, label='', hyps=None):
    """obligations: body of c.key meets c.effect"""
    pre = st.clone()
    n_cells = list(pre.cells)
    nm = c.name + (' [%s]' % label if label else '')
    if c.domain:
        for f in c.domain(eng, st, args, genv): eng.facts.append(Fact(True, f[0], f[1], 'domain of ' + c.name))
    outs = eng.exec_fn(st, c.key, genv, args)
    specs = c.effect(eng, pre.clone(), args, genv, lambda n, g: pre.assume(zb(g)))
    ok = 0
    for s, kind, v in outs:
        if kind != 'ret': continue
        if eng.feasible(s): ok += 1
        for o in specs:
            s2 = s.clone()
            if o.cond is not True: s2.assume(o.cond)
            if o.cond is not True and not eng.feasible(s2): continue
            if s2.trace != o.st.trace:
                compare_trace(eng, s2, nm, s2.trace, o.st.trace)
            compare(eng, s2, '%s: result' % nm, v, o.ret, s, o.st)
            if all(s.cells.get(c) is o.st.cells.get(c) for c in n_cells): eng.oblige(s2, '%s: frame' % nm, True)
            for cell in n_cells:
                a, b = s.cells.get(cell), o.st.cells.get(cell)
                if a is b: continue
                compare(eng, s2, '%s: %s' % (nm, eng.cell_names.get(cell, 'memory')), a, b, s, o.st)
    if not ok: raise Unsupported('%s: no path returns' % nm)
    eng.covered.add(c.key)


def canonical(t):
    """boundary conditions applied one after the other touch disjoint cells: their order is immaterial"""
    out, run = [], []
    for x in list(t) + [None]:
        if x is not None and x[0] == 'bc': run.append(x); continue
        out += sorted(run, key=lambda y: y[1]); run = []
        if x is not None: out.append(x)
    return out


def compare_trace(eng, s, nm, a, b):
    a, b = canonical(a), canonical(b)
    if len(a) != len(b):
        eng.oblige(s, '%s: sequence of calls %s' % (nm, [x[0] for x in b]), False); return
    for n, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0] or len(x) != len(y): eng.oblige(s, '%s: event %d is %s' % (nm, n, y[0]), False); continue
        for p, q in zip(x[1:], y[1:]): compare(eng, s, '%s: event %d (%s)' % (nm, n, x[0]), p, q, s, s)


GHOSTS = ('collected', 'updated', 'written', 'made', 'before', 'data', 'quantity')


def compare(eng, s, name, a, b, sa, sb, kind='post'):
    """actual a (in state sa) equals expected b (in state sb)"""
    if a is b and not isinstance(a, (Ref, BoxV)):
        eng.oblige(s, name, True, kind); return
    if isinstance(b, (HavocArr, HavocFl, HavocAny, Unspec)): return
    if isinstance(a, Unspec): a = a.get(eng, s)
    if isinstance(b, SymList) and isinstance(a, SymList): compare_lists(eng, s, name, a, b, sa, sb, kind); return
    if isinstance(b, SymList) and isinstance(a, ListV):
        items = a.items
        a = SymList(b.name, len(items), [(lambda k, j=j: icmp('eq', k, j), lambda k, x=x: x) for j, x in enumerate(items)])
        compare_lists(eng, s, name, a, b, sa, sb, kind); return
    if isinstance(b, Opaque) and b.tag in ('any', 'err', 'fmt'): return
    if isinstance(a, str) and isinstance(b, str): eng.oblige(s, name, a == b, kind); return
    if isinstance(b, Fl) and isinstance(a, Fl):
        eng.oblige(s, name, fsame(a, b), kind); return
    if isinstance(b, (bool, int)) or is_z3(b):
        if isinstance(a, (bool, int)) or is_z3(a):
            isb = isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))
            eng.oblige(s, name, beq(a, b) if isb else icmp('eq', a, b), kind); return
    if isinstance(b, Adt) and isinstance(a, Adt):
        if a.key != b.key or a.var != b.var or (len(a.fields) != len(b.fields)):
            eng.oblige(s, '%s is %s' % (name, short(eng, b)), False, kind); return
        fn = None
        if b.key in eng.adts: fn = [f[0] for f in eng.adts[b.key]['variants'][b.var]['fields']]
        if all(x is y for x, y in zip(a.fields, b.fields)): eng.oblige(s, name, True, kind)
        for n, (x, y) in enumerate(zip(a.fields, b.fields)):
            if x is y: continue
            compare(eng, s, '%s.%s' % (name, fn[n] if fn else n), x, y, sa, sb, kind)
        return
    if isinstance(b, ListV) and isinstance(a, ListV):
        if len(a.items) != len(b.items): eng.oblige(s, '%s has %d entries' % (name, len(b.items)), False, kind); return
        for n, (x, y) in enumerate(zip(a.items, b.items)): compare(eng, s, '%s[%d]' % (name, n), x, y, sa, sb, kind)
        return
    if isinstance(a, ViewMut) or isinstance(b, ViewMut): raise Unsupported('comparison of views')
    if isinstance(b, Arr) and isinstance(a, Arr):
        if len(a.shape) != len(b.shape): eng.oblige(s, '%s dimensions' % name, False, kind); return
        g = band(*[icmp('eq', x, y) for x, y in zip(a.shape, b.shape)])
        eng.oblige(s, '%s shape' % name, g, kind)
        rows = [()]
        for n in b.shape:
            if isinstance(n, int) and n <= 12: rows = [r + (j,) for r in rows for j in range(n)]
            else:
                k = eng.fresh('k', I); eng.add_index(k)
                s = s.clone().assume(models.in_range((k,), (n,)))
                rows = [r + (k,) for r in rows]
        for r in rows:
            bv = b.get(r)
            if isinstance(bv, HavocFl): continue
            eng.oblige(s, '%s[%s]' % (name, ','.join('i' if is_z3(x) else str(x) for x in r)), fsame(a.get(r), bv), kind)
        return
    if isinstance(b, (Ref, BoxV)) or isinstance(a, (Ref, BoxV)):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path) and all(path_eq(p, q) for p, q in zip(a.path, b.path)):
            eng.oblige(s, name, True, kind); return
        x = eng.deref(sa, a); y = eng.deref(sb, b)
        compare(eng, s, name, x, y, sa, sb, kind); return
    if isinstance(a, StrV) and isinstance(b, StrV):
        if str_same(a, b): eng.oblige(s, name, True, kind)
        else: compare_text(eng, s, name, a, b, sa, sb, kind)
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.data == b.data:
        eng.oblige(s, name, True, kind); return
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag in GHOSTS and b.tag in GHOSTS:
        if a.tag != b.tag: eng.oblige(s, '%s is %s' % (name, b.tag), False, kind)
        else: compare_data(eng, s, '%s: %s' % (name, a.tag), a.data, b.data, sa, sb, kind)
        return
    if isinstance(a, Clos) and isinstance(b, Clos) and a.key == b.key:
        for n, (x, y) in enumerate(zip(a.ups, b.ups)): compare(eng, s, '%s.%d' % (name, n), x, y, sa, sb, kind)
        return
    if a is UNINIT and b is UNINIT: return
    raise Unsupported('comparison of %r with %r (%s)' % (a, b, name))


def compare_lists(eng, s, name, a, b, sa, sb, kind):
    if a is b: eng.oblige(s, name, True, kind); return
    eng.oblige(s, name + ': length', icmp('eq', a.n, b.n), kind)
    k = eng.fresh('k', I); eng.add_index(k)
    s = s.clone().assume(band(icmp('le', 0, k), icmp('lt', k, b.n)))
    for (ca, fa), (cb, fb) in itertools.product(a.alts, b.alts):
        s2 = s.clone().assume(zb(band(ca(k), cb(k))))
        if eng.feasible(s2): compare(eng, s2, name + '[i]', fa(k), fb(k), sa, sb, kind)


def rotate(eng, parts):
    """... X(lo..hi, then L) X(hi)  ->  X(lo) (L X(lo+1..hi+1))  for a literal L"""
    for n, r in enumerate(parts):
        if not isinstance(r, Rep) or len(r.alts) != 1 or not r.alts[0][1]: continue
        c, body = r.alts[0]
        lit = body[-1]
        if not isinstance(lit, str): continue
        for cut in range(len(lit) - 1, -1, -1):
            L, X = lit[cut:], StrV(*body[:-1], lit[:cut])
            if not X.parts: continue
            nxt = StrV(*parts[n + 1:]).parts
            want = eng.subst_any(X, r.i, r.hi).parts
            if len(nxt) < len(want): continue
            ok = all(part_same(x, y) for x, y in zip(nxt, want[:-1]))
            last, mine = nxt[len(want) - 1], want[-1]
            if not ok: continue
            if isinstance(mine, str) and isinstance(last, str) and last.startswith(mine): rest = (last[len(mine):],) + tuple(nxt[len(want):])
            elif part_same(last, mine): rest = tuple(nxt[len(want):])
            else: continue
            return StrV(*parts[:n], *eng.subst_any(X, r.i, r.lo).parts, Rep(iadd(r.lo, 1), iadd(r.hi, 1), r.i, [(True, StrV(L, *X.parts).parts)]), *rest).parts
    return None


def compare_text(eng, s, name, a, b, sa, sb, kind):
    """two texts: the same pieces in the same order"""
    pa, pb = a.parts, b.parts
    if len(pa) != len(pb) or any(type(x) is not type(y) for x, y in zip(pa, pb)):
        for _ in range(4):
            q = rotate(eng, pa)
            if q is None: break
            pa = q
        for _ in range(4):
            q = rotate(eng, pb)
            if q is None: break
            pb = q
    if len(pa) != len(pb) or any(type(x) is not type(y) for x, y in zip(pa, pb)):
        q = peel(eng, s, pa, pb)
        if q is not None:
            for s2, qa in q: compare_text(eng, s2, name, StrV(*qa), StrV(*pb), sa, sb, kind)
            return
    if any(isinstance(x, Opaque) and x.tag in ('fmt', 'anytext') for x in pa): raise Unsupported('text is not fully described (%s)' % name)
    if len(pa) != len(pb) or any(type(x) is not type(y) for x, y in zip(pa, pb)):
        if any(isinstance(x, Rep) for x in pa + pb):
            t = instance(eng, s, pa, pb)
            if t is None: raise Late('texts of different structure (%s): %r, expected %r' % (name, pa, pb))
            s, pa, pb = t
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str) and x != y: eng.oblige(s, '%s: text %r' % (name, y), False, kind); return
        eng.oblige(s, '%s is %s' % (name, text_short(pb)), False, kind); return
    for n, (x, y) in enumerate(zip(pa, pb)):
        if isinstance(x, str): eng.oblige(s, '%s: text %r' % (name, y), x == y, kind)
        elif isinstance(x, Rep):
            eng.oblige(s, '%s: number of repetitions' % name, bor(band(icmp('eq', x.lo, y.lo), icmp('eq', x.hi, y.hi)), band(icmp('ge', x.lo, x.hi), icmp('ge', y.lo, y.hi))), kind)
            k = eng.fresh('k', I); eng.add_index(k)
            s1 = s.clone().assume(zb(band(icmp('le', y.lo, k), icmp('lt', k, y.hi))))
            for (ca, xa), (cb, xb) in itertools.product(x.at(eng, k), y.at(eng, k)):
                s2 = s1.clone().assume(zb(band(ca, cb)))
                if eng.feasible(s2): compare_text(eng, s2, name + ' (repeated part)', StrV(*xa), StrV(*xb), sa, sb, kind)
        else: compare_data(eng, s, '%s: %s' % (name, x.tag), (x.tag, x.data), (y.tag, y.data), sa, sb, kind)


def peel(eng, s, pa, pb):
    """the first repetition of the text taken out of its loop where the expected text has it outside: [(state, text)] or None"""
    los = [x.lo for x in pb if isinstance(x, Rep)]
    for n, r in enumerate(pa):
        if not isinstance(r, Rep) or any(icmp('eq', l, r.lo) is True for l in los) or not any(icmp('eq', l, iadd(r.lo, 1)) is True for l in los): continue
        if eng.feasible(s.clone().assume(zb(icmp('ge', r.lo, r.hi)))): return None
        out = []
        for c, ps in r.at(eng, r.lo):
            s2 = s.clone().assume(zb(c))
            if eng.feasible(s2): out.append((s2, StrV(*pa[:n], *ps, Rep(iadd(r.lo, 1), r.hi, r.i, r.alts), *pa[n + 1:]).parts))
        return out
    return None


def instance(eng, s, pa, pb, limit=3):
    """small numbers of repetitions for which the two texts differ in structure: (state with these numbers, text, expected text), or None"""
    reps = []

    def scan(ps):
        for x in ps:
            if isinstance(x, Rep):
                reps.append(x)
                for _, q in x.alts: scan(q)
    scan(pa); scan(pb)
    sv = z3.Solver(); sv.set('timeout', 4000); sv.add(*s.pc); sv.add(*[z3.And(zi(r.hi) - zi(r.lo) <= 2 * limit) for r in reps])
    for want in range(limit):
        sv.push(); sv.add(*[zi(r.hi) - zi(r.lo) >= want for r in reps if not is_z3(r.lo) or True][:1])
        m = sv.model() if sv.check() == z3.sat else None
        sv.pop()
        if m is None: continue
        s2 = s.clone()
        num = lambda x: x if isinstance(x, int) else m.eval(zi(x), True).as_long()

        def fix(x):
            if not isinstance(x, int): s2.assume(zi(x) == num(x))
            return num(x)

        def expand(ps):
            out = []
            for x in ps:
                if not isinstance(x, Rep): out.append(x); continue
                for k in range(fix(x.lo), fix(x.hi)):
                    hit = [(c, q) for c, q in x.at(eng, k) if c is True or z3.is_true(m.eval(zb(c), True))]
                    if len(hit) != 1: return None
                    if hit[0][0] is not True: s2.assume(hit[0][0])
                    for q in hit[0][1]:
                        e = expand([q]) if isinstance(q, Rep) else [q]
                        if e is None: return None
                        out += e
            return out
        ea, eb = expand(pa), expand(pb)
        if ea is None or eb is None: continue
        ea, eb = StrV(*ea).parts, StrV(*eb).parts
        if (len(ea) != len(eb) or any(type(x) is not type(y) or isinstance(x, str) and x != y for x, y in zip(ea, eb))) and eng.feasible(s2): return s2, ea, eb
    return None


def compare_data(eng, s, name, x, y, sa, sb, kind):
    if data_same(x, y): eng.oblige(s, name, True, kind); return
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y): eng.oblige(s, name, False, kind); return
        for p, q in zip(x, y): compare_data(eng, s, name, p, q, sa, sb, kind)
        return
    if isinstance(x, Opaque) and isinstance(y, Opaque): compare_data(eng, s, name, (x.tag, x.data), (y.tag, y.data), sa, sb, kind); return
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))): eng.oblige(s, name, type(x) is type(y) and x == y, kind); return
    compare(eng, s, name, x, y, sa, sb, kind)


def text_short(ps): return ''.join(x if isinstance(x, str) else '<%s>' % getattr(x, 'tag', 'repeated') for x in ps)[:60]


def str_same(a, b):
    if len(a.parts) != len(b.parts): return False
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return False
        elif not (x is y or (isinstance(x, Opaque) and isinstance(y, Opaque) and x.tag == y.tag and data_same(x.data, y.data))): return False
    return True


def short(eng, b):
    if b.key in eng.adts: return b.key.split('::')[-1] + '::' + eng.adts[b.key]['variants'][b.var]['name']
    return '%s variant %d' % (b.key.split('::')[-1], b.var)


# ---------------------------------------------------------------- units
class Unit:
    def __init__(self, uid, props, run, title='', tier='quick', budget=200, tprops=()):
        self.uid, self.props, self.run, self.title, self.tier, self.budget, self.tprops = uid, props, run, title, tier, budget, list(tprops)


UNITS = []


def unit(uid, props, title='', tier='quick', budget=200, tprops=()):
    """props: properties whose checks run the unit at either tier; tprops: at the thorough tier only"""
    def deco(f):
        UNITS.append(Unit(uid, props if isinstance(props, (list, tuple)) else [props], f, title or (f.__doc__ or '').strip(), tier, budget, tprops))
        return f
    return deco


def run_unit(u, dump, scale=1.0):
    """execute one unit; returns a JSON-able record"""
    t0 = time.time()
    XREAL[0] = False
    rec = {'unit': u.uid, 'title': u.title, 'obligations': [], 'status': 'proved', 'reason': ''}
    eng = mk_engine(dump)
    eng.covered = set(); eng.cell_names = {}
    eng.deadline = time.time() + u.budget * scale
    try:
        u.run(eng)
        ctx = prove.Ctx(eng, budget=u.budget * scale)
        for o in eng.obls:
            ctx.discharge(o)
        rec['solver_time'] = round(eng.solver_time + ctx.time, 3)
    except Unsupported as e:
        rec['status'] = 'undecided'; rec['reason'] = '%s: %s' % (type(e).__name__, e)
        if isinstance(e, Late):
            try:
                ctx = prove.Ctx(eng, budget=u.budget * scale)
                for o in eng.obls: ctx.discharge(o)
            except Unsupported: pass
        rec['solver_time'] = round(eng.solver_time, 3)
    except RecursionError:
        rec['status'] = 'undecided'; rec['reason'] = 'recursion limit'
    except Exception as e:
        rec['status'] = 'undecided'; rec['reason'] = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()
        rec['trace'] = traceback.format_exc()[-3000:]
    for o in eng.obls:
        if o.status is None: continue
        rec['obligations'].append({'name': o.name, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 4),
                                   'where': o.where, 'model': o.model if o.status == 'failed' else None,
                                   'goal': str(o.hints[0])[:1500] if o.status == 'failed' and o.hints else None})
    if any(o['status'] == 'failed' for o in rec['obligations']): rec['status'] = 'failed'
    elif rec['status'] == 'proved' and any(o['status'] == 'undecided' for o in rec['obligations']):
        rec['status'] = 'undecided'; rec['reason'] = 'solver gave no answer'
    elif rec['status'] == 'proved' and not rec['obligations']:
        rec['status'] = 'undecided'; rec['reason'] = 'no obligations generated'
    f = lambda k: dump['fns'][k]['human'] if k in dump['fns'] else k
    rec['functions'] = sorted(f(k) for k in eng.covered)
    rec['inlined'] = sorted(f(k) for k in eng.inlined - eng.covered)
    rec['contracts_used'] = sorted(eng.used_contracts)
    rec['models'] = sorted(eng.used_models)
    rec['assumptions'] = sorted(eng.assumptions | set(x.name for x in eng.facts if x.name and x.name.startswith('domain')))
    rec['time'] = round(time.time() - t0, 3)
    return rec


# ---------------------------------------------------------------- postconditions and lemmas
def ensure(eng, key, st, args, genv, name, post, hyps=()):
    """obligations: every normal return of the function meets post(state, value) -> [(name, goal)]"""
    for h in hyps: st.assume(h)
    outs = eng.exec_fn(st, key, genv, args)
    ok = 0
    for s, kind, v in outs:
        if kind != 'ret' or not eng.feasible(s): continue
        ok += 1
        for n, g in post(s, v): eng.oblige(s, '%s: %s' % (name, n), g)
    if not ok: raise Unsupported('%s: no path returns' % name)
    eng.covered.add(key)


def lemma_eq(eng, st, name, a, b): compare(eng, st, 'lemma: ' + name, a, b, st, st, kind='lemma')


def close(a, b, rel):
    """|a - b| <= rel * |b| over the reals"""
    d = rsub(a.v, b.v)
    ab = fabs(b).v
    return band(bor(rle(rv(0), d), True), rle(d, rmul(rv(rel), ab)), rle(rneg(d), rmul(rv(rel), ab)))


def frame_ok(eng, pre, s, cells, name):
    """all listed cells unchanged"""
    for c in cells:
        compare(eng, s, '%s: %s unchanged' % (name, eng.cell_names.get(c, 'memory')), s.cells[c], pre.cells[c], s, pre)


# ---------------------------------------------------------------- validation functions: Ok exactly when all checks hold
def checks_goals(e, st, checks):
    """[(name, shape, pred)] -> goals at a generic index (index range assumed in st)"""
    out, ix = [], {}
    for n, sh, pred in checks:
        ks = []
        for p, d in enumerate(sh):
            key = (p, d if isinstance(d, int) else d.sexpr())
            if key not in ix:
                k = e.fresh('k', I); e.add_index(k); ix[key] = k
                st.assume(models.in_range((k,), (d,)))
            ks.append(ix[key])
        out.append((n, pred(tuple(ks))))
    return out


def c_validate(name, key, checks):
    """contract: Ok if and only if every check holds for every index"""
    def effect(e, st, args, genv, pre):
        A = e.fresh('valid', B)
        s1, s2 = st, st.clone()
        wit = []
        for n, sh, pred in checks(e, e.deref(st, args[0]), genv):
            e.facts.append(Fact(A, sh, pred, ''))
            w = tuple(e.fresh('w', I) for _ in sh)
            for x in w: e.add_index(x)
            wit.append(band(models.in_range(w, sh), bnot(pred(w))))
        return [Out(s1, Ok(UNIT), A), Out(s2, Err(Opaque('err', ())), band(bnot(A), bor(*wit)))]
    return Contract(name, key, effect)


def verify_validate(e, name, key, st, args, genv, checks, hyp=()):
    """both directions of the contract above"""
    def post(s, v):
        if v.var != 0: return []
        return [('Ok only if ' + n, g) for n, g in checks_goals(e, s, checks)]
    ensure(e, key, st.clone(), args, genv, name, post)
    for n, sh, pred in checks: e.facts.append(Fact(z3.Bool('all-checks-hold'), sh, pred, ''))
    ensure(e, key, st.clone().assume(z3.Bool('all-checks-hold')), args, genv, name, lambda s, v: [('Ok whenever every check holds', v.var == 0)])
    e.covered.add(key)


def flagged_fl(n): return Fl(z3.Real(n), z3.Bool(n + '!nan'), band(bnot(z3.Bool(n + '!nan')), z3.Bool(n + '!pinf')), band(bnot(z3.Bool(n + '!nan')), bnot(z3.Bool(n + '!pinf')), z3.Bool(n + '!ninf')))


# ---------------------------------------------------------------- loops that are not driven by an iterator
class WhileRule:
    """invariant rule: everything an iteration changes becomes arbitrary, the invariant is assumed at the head, and every iteration
    that comes back must re-establish it.  inv(eng, st) -> [(name, goal)];  dom(eng, st) -> assumed facts (listed);  no termination."""
    def __init__(self, name, inv, dom=None, mark=None):
        self.name, self.inv, self.dom, self.mark, self.active = name, inv, dom, mark, set()

    def havoc(self, eng, old, new, name):
        if old is new: return old, False
        if isinstance(old, Adt) and isinstance(new, Adt) and old.key == new.key and old.var == new.var and len(old.fields) == len(new.fields) and (old.key not in eng.adts or eng.adts[old.key]['kind'] == 'struct'):
            r = [self.havoc(eng, x, y, '%s.%d' % (name, n)) for n, (x, y) in enumerate(zip(old.fields, new.fields))]
            return Adt(old.key, old.var, [x for x, _ in r]), any(c for _, c in r)
        if getattr(old, 'loopvar', False): return old, False
        if isinstance(old, Fl): return LoopFl(eng.fresh(name, R)), True
        if isinstance(old, Arr):
            a = BaseArr('%s~%d' % (name, eng.fresh_n), old.shape); eng.fresh_n += 1; a.loopvar = True
            return a, True
        if (is_z3(old) and str(old) in self.mine): return old, False
        if isinstance(old, bool) or (is_z3(old) and z3.is_bool(old)):
            x = eng.fresh(name, B); self.mine.add(str(x)); return x, True
        if isinstance(old, int) or (is_z3(old) and z3.is_int(old)):
            x = eng.fresh(name, I); self.mine.add(str(x)); return x, True
        return POISON, old is not POISON

    def run(self, eng, st, frame, b, stop):
        if stop: raise Unsupported('loop without iterator inside another loop')
        self.mine = set()
        me = (id(frame), b)
        for n, g in self.inv(eng, st): eng.oblige(st, '%s: invariant at entry: %s' % (self.name, n), g, kind='inv')
        head = st.clone()
        if self.mark: self.mark(eng, head)
        locals_ = set(frame.cells.values())
        self.active.add(me)
        try:
            for rnd in range(8):
                nobl, nf = len(eng.obls), len(eng.facts)
                s = self.assume(eng, head)
                outs = eng.run(s, frame, b, {b})
                changed = False
                for o in outs:
                    if o[1] != 'stop': continue
                    for c in list(head.cells):
                        x, y = head.cells[c], o[0].cells.get(c, UNINIT)
                        if x is y: continue
                        if c in locals_ and (x is UNINIT or x is POISON or not isinstance(x, (Fl, bool, int, Arr)) and not is_z3(x)):
                            if x is not POISON and x is not UNINIT: head.cells[c] = POISON; changed = True
                            continue
                        v, ch = self.havoc(eng, x, y, eng.cell_names.get(c, 'loop'))
                        if ch: head.cells[c] = v; changed = True
                if not changed: break
                del eng.obls[nobl:]; del eng.facts[nf:]
            else: raise Unsupported('no stable description of the loop')
            res = []
            for o in outs:
                if o[1] == 'stop':
                    for n, g in self.inv(eng, o[0]): eng.oblige(o[0], '%s: invariant preserved: %s' % (self.name, n), g, kind='inv')
                else: res.append(o)
            return res
        finally: self.active.discard(me)

    def assume(self, eng, head):
        s = head.clone()
        for n, g in self.inv(eng, s): s.assume(zb(g))
        for n, g in (self.dom(eng, s) if self.dom else []):
            s.assume(zb(g)); eng.facts.append(Fact(True, (1,), lambda k: True, 'domain: ' + n))
        return s


class LoopFl(Fl):
    loopvar = True
