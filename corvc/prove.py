"""Discharging proof obligations.

Back ends, in order: syntactic simplification, rational normal form (polynomial identity after case analysis over the
conditionals, every denominator proved nonzero by z3), z3 on the Ackermannised goal, cvc5 on the same goal.
Statuses: proved | failed (a satisfying model of the negated goal exists) | undecided.
"""
import itertools, time
from fractions import Fraction
import z3
from terms import *

STATS = {'syntactic': 0, 'normal-form': 0, 'z3': 0, 'cvc5': 0}


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- polynomials {mono: coeff}, mono = ((atom, exp), ...)
def p_const(c): return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r


def m_mul(a, b):
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 60000: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n): r = p_mul(r, a)
    return r


def p_key(p): return tuple(sorted(p.items()))


class NF:
    """rational functions: num / product of den factors; factor id -> exponent"""
    def __init__(self):
        self.atoms = {}      # key -> index
        self.aterm = []      # index -> z3 term
        self.sq = {}         # atom index of sqrt -> (num, den) of its argument
        self.fac = {}        # poly key -> factor id
        self.fpoly = []
        self.memo = {}
        self.sets = {}
        self.fterm = []
        self.keep = []

    def atom(self, key, term):
        if key not in self.atoms:
            self.atoms[key] = len(self.aterm); self.aterm.append(term)
        return self.atoms[key]

    def factor(self, p, term):
        # normalise the leading coefficient
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        k = p_key(q)
        if k not in self.fac:
            self.fac[k] = len(self.fpoly); self.fpoly.append(q); self.fterm.append(term)
        return self.fac[k], lead

    def den_poly(self, d):
        r = p_const(1)
        for f, e in d.items(): r = p_mul(r, p_pow(self.fpoly[f], e))
        return r

    def red(self, p):
        """sqrt(t)^2 -> t for sqrt atoms with polynomial argument"""
        if not self.sq: return p
        while True:
            ch = False
            r = {}
            for m, c in p.items():
                hit = None
                for a, e in m:
                    if e >= 2 and a in self.sq and not self.sq[a][1]: hit = (a, e); break
                if hit is None:
                    r = p_add(r, {m: c}); continue
                a, e = hit
                m2 = tuple((x, y) for x, y in m if x != a)
                if e - 2 > 0: m2 = tuple(sorted(m2 + ((a, e - 2),)))
                r = p_add(r, p_mul({m2: c}, self.sq[a][0])); ch = True
            p = r
            if not ch: return p

    def nf(self, t):
        k = t.get_id()
        if k in self.memo: return self.memo[k][0]
        r = self._nf(t)
        self.memo[k] = (r, t)
        return r

    def _nf(self, t):
        c = cv(t)
        if c is not None: return p_const(c), {}
        if z3.is_int_value(t): return p_const(t.as_long()), {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.nf(ch[0])
            for x in ch[1:]: r = self.addr(r, self.nf(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.nf(ch[0])
            for x in ch[1:]: r = self.addr(r, self.nf(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.nf(ch[0]); return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            r = self.nf(ch[0])
            for x in ch[1:]:
                y = self.nf(x)
                r = (self.red(p_mul(r[0], y[0])), self.dmul(r[1], y[1]))
                r = self.cancel(r)
            return r
        if k == z3.Z3_OP_DIV:
            n, d = self.nf(ch[0])
            n2, d2 = self.nf(ch[1])
            if not n2: raise TooBig()
            if len(n2) == 1 and () in n2:
                num = {m: c / n2[()] for m, c in n.items()}
                if d2: num = p_mul(num, self.den_poly(d2))
                return self.cancel((self.red(num), d))
            f, lead = self.factor(n2, ch[1])
            num = {m: c / lead for m, c in n.items()}
            if d2: num = p_mul(num, self.den_poly(d2))
            dd = dict(d); dd[f] = dd.get(f, 0) + 1
            return self.cancel((self.red(num), dd))
        if k == z3.Z3_OP_POWER and cv(ch[1]) is not None and cv(ch[1]).denominator == 1 and cv(ch[1]) >= 0:
            n, d = self.nf(ch[0]); e = int(cv(ch[1]))
            return self.red(p_pow(n, e)), {f: x * e for f, x in d.items()}
        if k == z3.Z3_OP_TO_REAL:
            s = z3.simplify(ch[0], som=True)
            if s.num_args() and s.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
                xs = [z3.ToReal(x) if not z3.is_int_value(x) else z3.RealVal(x.as_long()) for x in s.children()]
                if s.decl().kind() == z3.Z3_OP_ADD: return self.nf(z3.Sum(xs))
                if s.decl().kind() == z3.Z3_OP_MUL and all(cv(x) is not None or x.arg(0).num_args() == 0 for x in xs): return self.nf(z3.Product(xs))
            key = ('toreal', s.sexpr()); a = self.atom(key, t)
            return {((a, 1),): Fraction(1)}, {}
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_real(x) for x in ch):
            args = [self.nf(x) for x in ch]
            key = (t.decl().name(),) + tuple((p_key(n), tuple(sorted(d.items()))) for n, d in args)
            a = self.atom(key, t)
            if t.decl().name() == 'sqrt': self.sq[a] = args[0]
            return {((a, 1),): Fraction(1)}, {}
        if k == z3.Z3_OP_ITE: return self.ite(t)
        key = ('t', z3.simplify(t, som=True).sexpr())
        a = self.atom(key, t)
        return {((a, 1),): Fraction(1)}, {}

    # conditionals: minimum, maximum and absolute value are recognised, anything else is an atom up to congruence
    def ite(self, t):
        c, x, y = t.children()
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if neg: x, y = y, x
        a, b = self.nf(x), self.nf(y)
        if self.rkey(a) == self.rkey(b): return a
        k = c.decl().kind()
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_real(c.arg(0)):
            l, r = self.nf(c.arg(0)), self.nf(c.arg(1))
            if k in (z3.Z3_OP_GT, z3.Z3_OP_GE): l, r = r, l      # condition: l < r (or <=), then a else b
            lk, rk, ak, bk = self.rkey(l), self.rkey(r), self.rkey(a), self.rkey(b)
            if {lk, rk} == {ak, bk}: return self.extreme('min' if lk == ak else 'max', [a, b], [x, y], t)
            zero = self.rkey(({}, {}))
            na = self.rkey(self.neg(a))
            if na == bk:
                if rk == zero and lk == ak: return self.absval(a, t, -1)     # if x < 0 {x} else {-x}
                if rk == zero and lk == bk: return self.absval(a, t, 1)      # if x < 0 {-x} else {x}
                if lk == zero and rk == ak: return self.absval(a, t, 1)
                if lk == zero and rk == bk: return self.absval(a, t, -1)
            d = self.addr(l, r, -1)
            key = ('ite', 'lt' if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else 'le', self.rkey(d), ak, bk)
        else: key = ('ite', self.ckey(c), self.rkey(a), self.rkey(b))
        return {((self.atom(key, t), 1),): Fraction(1)}, {}

    def ckey(self, c):
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): return (c.decl().name(),) + tuple(self.ckey(x) for x in c.children())
        if z3.is_app(c) and c.num_args() == 2 and z3.is_real(c.arg(0)):
            k = c.decl().kind()
            l, r = self.nf(c.arg(0)), self.nf(c.arg(1))
            if k in (z3.Z3_OP_GT, z3.Z3_OP_GE): l, r = r, l
            return ('lt' if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else 'le' if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else c.decl().name(), self.rkey(self.addr(l, r, -1)))
        return z3.simplify(c, som=True).sexpr()

    def rkey(self, r): return (p_key(r[0]), tuple(sorted(r[1].items())))
    def neg(self, r): return {m: -c for m, c in r[0].items()}, r[1]

    def absval(self, a, t, sign):
        if a[0] and a[0][min(a[0])] < 0: a = self.neg(a)
        return {((self.atom(('abs', self.rkey(a)), t if sign > 0 else -t), 1),): Fraction(sign)}, {}

    def extreme(self, op, args, terms, t):
        elems = {}
        for a, x in zip(args, terms):
            k = self.rkey(a)
            sub = None
            if len(a[0]) == 1 and not a[1]:
                (m, c), = a[0].items()
                if c == 1 and len(m) == 1 and m[0][1] == 1: sub = self.sets.get((op, m[0][0]))
            if sub: elems.update(sub)
            else: elems[k] = x
        i = self.atom((op, tuple(sorted(elems))), t)
        self.sets[(op, i)] = elems
        return {((i, 1),): Fraction(1)}, {}

    def dmul(self, a, b):
        r = dict(a)
        for f, e in b.items(): r[f] = r.get(f, 0) + e
        return r

    def cancel(self, r):
        """cancel denominators that are a single atom/monomial dividing every term"""
        n, d = r
        if not n: return n, {}
        d = dict(d)
        for f in list(d):
            q = self.fpoly[f]
            while f in d:
                if len(q) == 1:
                    (m, c), = q.items()
                    if all(self.mdiv(x, m) is not None for x in n):
                        n = {self.mdiv(x, m): y / c for x, y in n.items()}
                    else: break
                elif p_key(n) == p_key(q): n = p_const(1)
                else:
                    # n = const * q ?
                    lead = n.get(min(q))
                    if lead and len(n) == len(q) and all(n.get(x) == y * lead for x, y in q.items()): n = p_const(lead)
                    else: break
                d[f] -= 1
                if not d[f]: del d[f]
        return n, d

    def mdiv(self, a, b):
        d = dict(a)
        for k, e in b:
            if d.get(k, 0) < e: return None
            d[k] -= e
            if not d[k]: del d[k]
        return tuple(sorted(d.items()))

    def addr(self, a, b, s=1):
        n, d = a; n2, d2 = b
        if d == d2: return self.cancel((self.red(p_add(n, n2, s)), d))
        l = dict(d)
        for f, e in d2.items(): l[f] = max(l.get(f, 0), e)
        m1 = self.den_poly({f: e - d.get(f, 0) for f, e in l.items() if e > d.get(f, 0)})
        m2 = self.den_poly({f: e - d2.get(f, 0) for f, e in l.items() if e > d2.get(f, 0)})
        return self.cancel((self.red(p_add(p_mul(n, m1), p_mul(n2, m2), s)), l))


def nf_equal(a, b):
    """(equal?, denominators used, NF)"""
    nf = NF()
    x, y = nf.nf(a), nf.nf(b)
    n, d = nf.addr(x, y, -1)
    n = nf.red(n)
    if n and nf.sq:
        # sqrt atoms with rational argument: multiply out a^2 = num/den
        for a_, (an, ad) in nf.sq.items():
            if not ad: continue
            dp = nf.den_poly(ad)
            if any(any(x == a_ and e >= 2 for x, e in m) for m in n):
                emax = max((e for m in n for x, e in m if x == a_), default=0)
                h = emax // 2
                r = {}
                for m, c in n.items():
                    e = dict(m).get(a_, 0)
                    m2 = tuple(z for z in m if z[0] != a_)
                    if e % 2: m2 = tuple(sorted(m2 + ((a_, 1),)))
                    r = p_add(r, p_mul({m2: c}, p_mul(p_pow(an, e // 2), p_pow(dp, h - e // 2))))
                n = r
    return (not n), list(nf.fterm), nf


# ---------------------------------------------------------------- terms
def conds_of(t, out, seen):
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE: out.append(e.arg(0))
            st.extend(e.children())


def atoms_of_cond(c):
    """atomic conditions"""
    st, out = [c], []
    while st:
        e = st.pop()
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_EQ and z3.is_bool(e.arg(0))): st.extend(e.children())
        elif k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): pass
        elif k == z3.Z3_OP_ITE and z3.is_bool(e): st.extend(e.children())
        else: out.append(e)
    return out


def ackermann(fs):
    """replace applications of uninterpreted functions by constants plus congruence constraints"""
    memo = {}
    apps = {}

    def go(t):
        k = t.get_id()
        if k in memo: return memo[k][0]
        ch = t.children()
        nch = [go(x) for x in ch]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch:
            args = tuple(z3.simplify(x, som=True) for x in nch)
            d = apps.setdefault(t.decl().name(), {})
            key = tuple(a.sexpr() for a in args)
            if key not in d: d[key] = (args, z3.FreshConst(t.sort(), t.decl().name()), t)
            r = d[key][1]
        elif ch and any(not a.eq(b) for a, b in zip(ch, nch)):
            r = t.decl()(*nch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else {
                z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: lambda *a: z3.Sum(list(a)), z3.Z3_OP_MUL: lambda *a: z3.Product(list(a)), z3.Z3_OP_DISTINCT: z3.Distinct}[t.decl().kind()](*nch)
        else: r = t
        memo[k] = (r, t)
        return r
    out = [go(f) for f in fs]
    cong = []
    for n, d in apps.items():
        items = list(d.values())
        if len(items) > 60: continue  # weaker hypotheses only
        for (a1, c1, _), (a2, c2, _) in itertools.combinations(items, 2):
            eqs = []
            ok = True
            for x, y in zip(a1, a2):
                e = z3.simplify(x == y)
                if z3.is_false(e): ok = False; break
                if not z3.is_true(e): eqs.append(e)
            if ok: cong.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), c1 == c2))
    return out, cong, apps


class Ctx:
    """discharge context of one unit"""
    def __init__(self, eng, budget=240.0):
        self.eng = eng
        self.facts = eng.facts
        self.time = 0.0
        self.t0 = time.time()
        self.budget = budget
        self.short, self.long = 2500, 15000
        self.nund = 0
        self.symmemo, self.factsym, self.truncated = {}, {}, False

    def left(self): return self.budget - (time.time() - self.t0)

    # index terms for the instantiation of quantified facts
    def index_terms(self, fs):
        idx = {}
        seen, st = set(), [f for f in reversed(fs) if is_z3(f)]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0 and all(z3.is_int(x) for x in e.children()):
                    x = z3.simplify(e.arg(e.num_args() - 1), som=True); idx[x.sexpr()] = x
                if z3.is_const(e) and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in self.eng.fresh_names:
                    idx[e.sexpr()] = e
                st.extend(e.children())
        return list(idx.values())

    def symbols(self, e):
        return self.eng.symbols(e) if is_z3(e) else frozenset()

    def fact_symbols(self, f):
        if id(f) not in self.factsym:
            g = f.pred(tuple(z3.Int('dummy!%d' % n) if not (isinstance(d, int) and d <= 4) else 0 for n, d in enumerate(f.shape)))
            self.factsym[id(f)] = (self.symbols(g) if is_z3(g) else frozenset(), self.symbols(f.guard) if is_z3(f.guard) else frozenset(), f)
        return self.factsym[id(f)][:2]

    def instances(self, fs, goal=None, facts=None, cap=(40, 900)):
        """instantiate facts on the index terms (last dimension) occurring in the formulas, the goal's first"""
        terms = self.index_terms(([goal] if goal is not None else []) + list(fs))
        self.truncated = len(terms) > cap[0]
        terms = terms[:cap[0]]
        out = []
        for f in (self.facts if facts is None else facts):
            doms = []
            for d, n in enumerate(f.shape):
                if isinstance(n, int) and n <= 4: doms.append(list(range(n)) + (terms if getattr(f, 'rows', False) else []))
                else: doms.append(terms)
            for tupx in itertools.product(*doms):
                rng = band(*[band(icmp('le', 0, x), icmp('lt', x, n)) for x, n in zip(tupx, f.shape)])
                if rng is False: continue
                inst = bimp(band(f.guard, rng), f.pred(tuple(tupx)))
                if inst is True: continue
                out.append(zb(inst))
            if len(out) > cap[1]: self.truncated = True; break
        return out

    def cone(self, pc, g):
        """hypotheses that talk about the symbols of the goal directly"""
        sy = set(self.symbols(g))
        if not sy and pc:
            # infeasibility of a path: what the last decision talks about
            sy = set(self.symbols(pc[-1]))
            for c in pc:
                t = self.symbols(c)
                if t & sy and len(t) <= 12: sy |= t
        facts, guards = [], set()
        for f in self.facts:
            a, b = self.fact_symbols(f)
            if not a or a & sy: facts.append(f); guards |= b
        sy |= guards
        keep = [c for c in pc if not self.symbols(c) or self.symbols(c) <= sy]
        return keep, self.instances(keep, g, facts)

    def check(self, fs, timeout, ack=True):
        t = time.time()
        try:
            if ack:
                ax = axioms(fs)
                fs2, cong, _ = ackermann(list(fs) + ax)
                fs2 = fs2 + cong
            else: fs2 = list(fs) + axioms(fs)
            s = z3.Solver(); s.set('timeout', int(timeout))
            s.add(*fs2)
            r = s.check()
            m = s.model() if r == z3.sat else None
            return r, m, s
        finally:
            self.time += time.time() - t

    def discharge(self, o):
        t = time.time()
        try:
            self._discharge(o)
        except TooBig:
            o.status, o.backend = 'undecided', 'size limit'
        o.time = time.time() - t
        # the unit cannot be proved any more: spend little on the rest of it
        if o.status == 'failed':
            self.budget = min(self.budget, time.time() - self.t0 + 20)
            self.short, self.long = min(self.short, 1000), min(self.long, 2500)
        elif o.status == 'undecided':
            self.nund += 1
            if self.nund == 3: self.long = min(self.long, 5000)

    def _discharge(self, o):
        if o.status: return
        if self.left() < 0: o.status, o.backend = 'undecided', 'unit time budget'; return
        goal = z3.simplify(o.goal) if is_z3(o.goal) else zb(o.goal)
        if z3.is_true(goal): o.status, o.backend = 'proved', 'syntactic'; return
        pc = [zb(c) for c in o.pc] + [zb(c) for c in o.extra]
        worst = None
        for g in split(o.goal):
            r, be, m = self.prove(pc, g)
            if r == 'failed': o.status, o.backend, o.model = r, be, m; o.hints = (g,); return
            if r != 'proved': worst = (r, be)
            else: o.backend = be if not o.backend or o.backend == be else o.backend + '+' + be if be not in o.backend else o.backend
        if worst: o.status, o.backend = worst
        else: o.status = 'proved'

    def prove(self, pc, g):
        gs = z3.simplify(g)
        if z3.is_true(gs): return 'proved', 'syntactic', None
        if z3.is_false(gs):
            for n, c in enumerate(pc):
                if z3.is_or(c) and c.num_args() >= 2 and any(z3.is_and(x) and x.num_args() > 3 for x in c.children()):
                    for x in c.children():
                        r = self.prove(pc[:n] + pc[n + 1:] + flat(x), g)
                        if r[0] != 'proved': return r
                    return 'proved', 'case split+z3', None
        if len(pc) > 6 or len(self.facts) > 3:
            keep, ins = self.cone(pc, g)
            if len(keep) < len(pc) or self.truncated:
                r, m, s = self.check(keep + ins + [z3.Not(g)], 1000)
                if r == z3.unsat: return 'proved', 'z3', None
        insts = self.instances(pc, g)
        hyp = pc + insts
        if self.truncated:
            r, b, m = self.prove1(hyp, g)
            return (r, b, m) if r != 'failed' else ('undecided', 'instantiation limit', None)
        return self.prove1(hyp, g)

    def prove1(self, hyp, g):
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            r = self.prove_eq(hyp, g.arg(0), g.arg(1))
            if r: return r
        r, m, s = self.check(hyp + [z3.Not(g)], self.short)
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return self.confirm(hyp, g, m)
        # second round of instantiation, case split, longer timeout
        r, m, s = self.check(hyp + [z3.Not(g)], self.long, ack=False)
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return self.confirm(hyp, g, m)
        r = self.split_prove(hyp, g, 0)
        if r: return r
        r = self.cvc5(hyp + [z3.Not(g)], s)
        if r == 'unsat': return 'proved', 'cvc5', None
        return 'undecided', 'z3/cvc5 timeout', None

    def confirm(self, hyp, g, m):
        return 'failed', 'z3 model', str(m)[:3000]

    def relevant(self, hyp, *gs):
        sy = frozenset().union(*[self.symbols(g) for g in gs])
        return [h for h in hyp if self.symbols(h) <= sy]

    def infeasible(self, hyp, lit, timeout=1500, full=True):
        """cheap first: hypotheses over the symbols of the literal only"""
        rel = self.relevant(hyp, lit)
        if len(rel) < len(hyp):
            r, _, _ = self.check(rel + [lit], timeout)
            if r == z3.unsat: return True
            if not self.symbols(lit) or not full: return False
        r, _, _ = self.check(hyp + [lit], timeout)
        return r == z3.unsat

    def nf_proves(self, a, b, hyp, unify=True):
        try:
            eq, dens, nf = nf_equal(a, b)
            if not eq and unify:
                P = Purify()
                px, py = P.term(a), P.term(b)
                t = time.time()
                s = z3.Solver(); s.set('timeout', 700); s.add(px != py)
                r = s.check()
                self.time += time.time() - t
                if r == z3.unsat: eq, dens = True, list(P.nf.fterm)
            if not eq and unify:
                b2 = self.unify(a, b)
                if b2 is not None:
                    eq, dens, nf = nf_equal(a, b2[0]); dens = dens + b2[1]
        except TooBig: return False
        if not eq: return False
        return all(self.infeasible(hyp, d == 0, self.short) for d in dens)

    def unify(self, a, b):
        """replace conditional subterms of b by subterms of a that z3 proves equal over linear arithmetic"""
        P = Purify()
        ta, tb = max_ites(a), max_ites(b)
        if not ta or not tb or len(ta) * len(tb) > 400: return None
        sub = []
        for y in tb:
            for x in ta:
                if x.eq(y): break
                px, py = P.term(x), P.term(y)
                if not set(v.get_id() for v in P.vars(px)) & set(v.get_id() for v in P.vars(py)): continue
                t = time.time()
                s = z3.Solver(); s.set('timeout', 500); s.add(px != py)
                r = s.check()
                self.time += time.time() - t
                if r == z3.unsat: sub.append((y, x)); break
        return (z3.substitute(b, *sub), list(P.nf.fterm)) if sub else None

    def prove_eq(self, hyp, a, b):
        """case analysis over conditionals, then identity of rational normal forms"""
        cnt = [0]

        def go(a, b, hyp, depth):
            cnt[0] += 1
            if cnt[0] > 600 or self.left() < 0: return ('undecided', 'case budget', None)
            if a.eq(b): return None
            cs = []
            conds_of(a, cs, set()); conds_of(b, cs, set())
            cs = [c for c in cs if not (z3.is_true(c) or z3.is_false(c))]
            if not cs:
                if self.nf_proves(a, b, hyp): return None
                for tm in (self.short, self.long):
                    r, m, s = self.check(hyp + [a != b], tm)
                    if r == z3.unsat: return None
                    if r == z3.sat: return ('failed', 'z3 model', str(m)[:3000])
                return ('undecided', 'z3 timeout', None)
            # innermost atomic condition without conditionals inside, conditions on indices first
            at = None
            for c in cs:
                for x in atoms_of_cond(c):
                    sub = []
                    conds_of(x, sub, set())
                    if sub: continue
                    if not self.symbols(x): at = x; break
                    if at is None: at = x
                if at is not None and not self.symbols(at): break
            if at is None: at = cs[0]
            if self.symbols(at) and self.nf_proves(a, b, hyp): return None
            for val in (True, False):
                lit = at if val else z3.Not(at)
                if self.infeasible(hyp, lit, 1000, False): continue
                bv = z3.BoolVal(val)
                a2 = prune(z3.substitute(a, (at, bv)))
                b2 = prune(z3.substitute(b, (at, bv)))
                res = go(a2, b2, hyp + [lit], depth + 1)
                if res: return res
            return None
        r = go(a, b, hyp, 0)
        if r is None: return 'proved', 'normal-form' if cnt[0] == 1 else 'case analysis+normal-form', None
        if r[0] == 'undecided': return None
        return r

    def split_prove(self, hyp, g, depth):
        """case split of a non-equality goal over its conditionals"""
        cnt = [0]

        def go(g, hyp):
            cnt[0] += 1
            if cnt[0] > 200 or self.left() < 0: return ('undecided', 'case budget', None)
            cs = []
            conds_of(g, cs, set())
            cs = [c for c in cs if not (z3.is_true(c) or z3.is_false(c))]
            if not cs:
                r, m, s = self.check(hyp + [z3.Not(g)], self.short)
                if r == z3.unsat: return None
                if r == z3.sat: return ('failed', 'z3 model', str(m)[:3000])
                return ('undecided', 'z3 timeout', None)
            at = None
            for c in cs:
                for x in atoms_of_cond(c):
                    sub = []
                    conds_of(x, sub, set())
                    if not sub: at = x; break
                if at is not None: break
            if at is None: at = cs[0]
            for val in (True, False):
                lit = at if val else z3.Not(at)
                r, _, _ = self.check(hyp + [lit], 1500)
                if r == z3.unsat: continue
                res = go(prune(z3.substitute(g, (at, z3.BoolVal(val)))), hyp + [lit])
                if res: return res
            return None
        r = go(g, hyp)
        if r is None: return 'proved', 'case analysis+z3', None
        if r[0] == 'failed': return r
        return None

    def cvc5(self, fs, solver):
        import subprocess, tempfile, os
        t = time.time()
        try:
            fs2, cong, _ = ackermann(list(fs) + axioms(fs))
            s = z3.Solver(); s.add(*fs2); s.add(*cong)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write(txt); f.close()
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % self.long, f.name], capture_output=True, text=True, timeout=self.long / 1000 + 10)
                return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
            except Exception:
                return 'unknown'
            finally: os.unlink(f.name)
        finally:
            self.time += time.time() - t


def max_ites(t):
    """outermost real conditionals, and those nested in arithmetic only"""
    out, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE and z3.is_real(e): out.append(e); continue
            st.extend(e.children())
    return out


class Purify:
    """linear-arithmetic view of a conditional: every non-linear monomial or quotient is an opaque constant"""
    def __init__(self):
        self.nf = NF()
        self.consts, self.memo, self.ites = {}, {}, {}

    def const(self, key):
        if key not in self.consts: self.consts[key] = z3.FreshReal('m')
        return self.consts[key]

    def has_ite(self, t):
        k = t.get_id()
        if k not in self.ites:
            r = z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(self.has_ite(x) for x in t.children()))
            self.ites[k] = (r, t)
        return self.ites[k][0]

    def term(self, t):
        k = t.get_id()
        if k not in self.memo: self.memo[k] = (self._term(t), t)
        return self.memo[k][0]

    def _term(self, t):
        if not z3.is_app(t) or not t.children(): 
            return self.leaf(t) if z3.is_real(t) and cv(t) is None else t
        k = t.decl().kind()
        if z3.is_real(t):
            if k == z3.Z3_OP_ITE: return z3.If(self.term(t.arg(0)), self.term(t.arg(1)), self.term(t.arg(2)))
            if not self.has_ite(t): return self.leaf(t)
            ch = t.children()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                ps = [self.term(x) for x in ch]
                if k == z3.Z3_OP_ADD: return z3.Sum(ps)
                if k == z3.Z3_OP_UMINUS: return -ps[0]
                r = ps[0]
                for x in ps[1:]: r = r - x
                return r
            r = self.dist(t, [], [])
            return r if r is not None else self.leaf(t)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR): return (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[self.term(x) for x in t.children()])
        if k == z3.Z3_OP_NOT: return z3.Not(self.term(t.arg(0)))
        if t.num_args() == 2 and z3.is_real(t.arg(0)): return t.decl()(self.term(t.arg(0)), self.term(t.arg(1)))
        return t

    def dist(self, t, num, den):
        """t * product(num) / product(den) with the factors pushed into the conditionals of t; None if two factors are conditional"""
        k = t.decl().kind() if z3.is_app(t) else None
        if not self.has_ite(t):
            for x in num: t = t * x
            for x in den: t = t / x
            return self.leaf(t)
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            x, y = self.dist(ch[1], num, den), self.dist(ch[2], num, den)
            return None if x is None or y is None else z3.If(self.term(ch[0]), x, y)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ps = [self.dist(x, num, den) for x in ch]
            if any(x is None for x in ps): return None
            if k == z3.Z3_OP_ADD: return z3.Sum(ps)
            if k == z3.Z3_OP_UMINUS: return -ps[0]
            r = ps[0]
            for x in ps[1:]: r = r - x
            return r
        if k == z3.Z3_OP_MUL:
            it = [x for x in ch if self.has_ite(x)]
            if len(it) == 1: return self.dist(it[0], num + [x for x in ch if not x.eq(it[0])], den)
            return None
        if k == z3.Z3_OP_DIV and not self.has_ite(ch[1]): return self.dist(ch[0], num, den + [ch[1]])
        return None

    def leaf(self, t):
        n, d = self.nf.nf(t)
        dk = tuple(sorted(d.items()))
        r = z3.RealVal(0)
        if not n: return r
        if not d:
            for m, c in sorted(n.items()): r = r + rv(c) * (self.const(('m', m)) if m else 1)
            return r
        lead = n[min(n)]
        return rv(lead) * self.const(('q', p_key({m: c / lead for m, c in n.items()}), dk))

    def vars(self, t):
        out, seen, st = [], set(), [t]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and z3.is_real(e) and cv(e) is None: out.append(e)
            st.extend(e.children())
        return out


def prune(t):
    """fold conditionals with constant conditions only (keeps the arithmetic structure)"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo: return memo[k][0]
        ch = t.children()
        if not ch: r = t
        else:
            kind = t.decl().kind()
            if kind == z3.Z3_OP_ITE:
                c = go(t.arg(0))
                if z3.is_true(c): r = go(t.arg(1))
                elif z3.is_false(c): r = go(t.arg(2))
                else:
                    a, b = go(t.arg(1)), go(t.arg(2))
                    r = a if a.eq(b) else z3.If(c, a, b)
            else:
                n = [go(x) for x in ch]
                if kind == z3.Z3_OP_AND: r = zb(band(*n))
                elif kind == z3.Z3_OP_OR: r = zb(bor(*n))
                elif kind == z3.Z3_OP_NOT: r = zb(bnot(n[0]))
                elif kind == z3.Z3_OP_IMPLIES: r = zb(bimp(n[0], n[1]))
                elif all(a.eq(b) for a, b in zip(ch, n)): r = t
                elif kind == z3.Z3_OP_ADD: r = z3.Sum(n)
                elif kind == z3.Z3_OP_MUL: r = z3.Product(n)
                elif kind == z3.Z3_OP_DISTINCT: r = z3.Distinct(*n)
                else: r = t.decl()(*n)
        memo[k] = (r, t)
        return r
    return go(t)


def flat(x): return [z for y in x.children() for z in flat(y)] if z3.is_and(x) else [x]


def split(g):
    """conjuncts, with implications distributed"""
    if isinstance(g, bool): return [z3.BoolVal(g)]
    if z3.is_and(g):
        return [x for c in g.children() for x in split(c)]
    return [g]
