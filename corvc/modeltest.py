"""Differential test of the models: runs the functions of /verif/modeltest in the verifier and compares with their real results.

usage: modeltest.py DUMP RESULTS [name...]   (RESULTS: output of the modeltest binary; prints one line per disagreement)
"""
import sys, json, os, threading, itertools, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 << 20)
from core import *


def fl(t):
    if t == 'NaN': return Fl(rv(0), nan=True)
    if t == 'inf': return Fl(rv(0), pinf=True)
    if t == '-inf': return Fl(rv(0), ninf=True)
    return f64_exact(float(t))


def pin(st, v, t):
    """constrain the symbolic number v to the value t"""
    w = fl(t)
    for p, q in ((v.nan, w.nan), (v.pinf, w.pinf), (v.ninf, w.ninf)): st.assume(zb(beq(p, q)))
    if w.finite is True: st.assume(v.v == w.v)


def args_of(e, st, inp, symbolic, flagged):
    _, n, k, x, y, a, b, m, s = inp
    if not symbolic:
        arr1 = lambda l: LamArr((n,), lambda idx: e.proj(st, ListV([fl(t) for t in l]), ('e', tuple(idx))))
        M2 = LamArr((2, n), lambda idx: pickrow(idx, [[fl(t) for t in r] for r in m], e, st))
        vals = [n, k, fl(x), fl(y), arr1(a), arr1(b), M2, StrV(s)]
    else:
        N, K = z3.Int('n'), z3.Int('k')
        st.assume(N == n); st.assume(K == k)
        X = flagged_fl('x') if flagged else Fl(z3.Real('x'))
        Y = flagged_fl('y') if flagged else Fl(z3.Real('y'))
        pin(st, X, x); pin(st, Y, y)
        A, B_, M2 = BaseArr('a', (N,), flagged), BaseArr('b', (N,), flagged), BaseArr('m', (2, N), flagged)
        for i in range(n):
            pin(st, A.get((i,)), a[i]); pin(st, B_.get((i,)), b[i])
            for j in range(2): pin(st, M2.get((j, i)), m[j][i])
        if flagged:
            # a number has at most one of the flags
            for arr in (A, B_, M2):
                for idx in itertools.product(*[range(d if isinstance(d, int) else n) for d in arr.shape]):
                    v = arr.get(idx)
                    st.assume(zb(band(bnot(band(v.nan, bor(v.pinf, v.ninf))), bnot(band(v.pinf, v.ninf)))))
        vals = [N, K, X, Y, A, B_, M2, StrV(Opaque('sym', 's'))]
        st.assume(z3.Bool('empty!s') == (s == '')); st.assume(z3.Int('len!s') == len(s))
    return vals[:4] + [e.ref_to(st, v) for v in vals[4:]]


def pickrow(idx, rows, e, st):
    j, i = idx
    vs = [e.proj(st, ListV(r), ('e', (i,))) for r in rows]
    return vs[j] if isinstance(j, int) else fite(icmp('eq', j, 0), vs[0], vs[1])


class NoMatch(Exception): pass


def match(e, s, v, r, m, inp):
    """condition that the value v is the real result r; m: solver model (for texts)"""
    v = e.deref(s, v)
    t = r[0]
    if t == 'f':
        if not isinstance(v, Fl): raise NoMatch(repr(v))
        w = fl(r[1])
        if w.finite is not True: return band(beq(v.nan, w.nan), beq(v.pinf, w.pinf), beq(v.ninf, w.ninf))
        tol = rv((1 + abs(Fraction(float(r[1])))) / 10 ** 9)
        d = rsub(v.v, w.v)
        return band(v.finite, rle(d, tol), rle(rneg(d), tol))
    if t == 'i': return icmp('eq', v, r[1])
    if t == 'b': return beq(v, r[1])
    if t == 's':
        if not isinstance(v, StrV): raise NoMatch(repr(v))
        return text(e, s, v.parts, m, inp) == r[1]
    if t == 'l':
        l = r[1]
        if isinstance(v, Arr):
            c = icmp('eq', v.shape[0], len(l))
            for i, x in enumerate(l):
                if x[0] == 'l':
                    c = band(c, icmp('eq', v.shape[1], len(x[1])), *[match(e, s, v.get((i, k)), y, m, inp) for k, y in enumerate(x[1])])
                else: c = band(c, match(e, s, v.get((i,)), x, m, inp))
            return c
        if not isinstance(v, ListV): raise NoMatch(repr(v))
        if len(v.items) != len(l): return False
        return band(*[match(e, s, p, q, m, inp) for p, q in zip(v.items, l)])
    if t == 'o':
        if v.var != len(r) - 1: return False
        return match(e, s, v.fields[0], r[1], m, inp) if v.var else True
    if t == 'r':
        if (v.var == 0) != (len(r) == 2): return False
        return match(e, s, v.fields[0], r[1], m, inp) if v.var == 0 else True
    if t == 't': return band(*[match(e, s, p, q, m, inp) for p, q in zip(v.fields, r[1:])])
    raise NoMatch(t)


def num(m, x):
    if isinstance(x, (int, bool)): return x
    if z3.is_bool(x): return z3.is_true(m.eval(x, True))
    return m.eval(zi(x), True).as_long()


def text(e, s, parts, m, inp):
    out = ''
    for p in parts:
        if isinstance(p, str): out += p
        elif isinstance(p, Rep):
            for i in range(num(m, p.lo), num(m, p.hi)):
                for c, ps in p.at(e, i):
                    if c is True or z3.is_true(m.eval(zb(c), True)): out += text(e, s, ps, m, inp); break
        elif isinstance(p, StrV): out += text(e, s, p.parts, m, inp)
        elif p.tag == 'sym': out += inp[8]
        elif p.tag == 'chr': out += chr(num(m, p.data[0]))
        elif p.tag == 'show': out += shown(e, s, p.data, m, inp)
        else: raise NoMatch('text part %r' % p)
    return out


def shown(e, s, d, m, inp):
    trait, fill, al, rest, width, prec, v = d
    width = None if width is None else num(m, width)
    prec = None if prec is None else num(m, prec)
    neg = False
    if isinstance(v, Fl):
        ev = lambda b: b if isinstance(b, bool) else z3.is_true(m.eval(b, True))
        if ev(v.nan): body, neg = 'NaN', None
        elif ev(v.pinf): body = 'inf'
        elif ev(v.ninf): body, neg = 'inf', True
        else:
            q = m.eval(v.v, True)
            f = float(q.as_fraction()) if not z3.is_algebraic_value(q) else float(q.approx(30).as_fraction())
            neg = f < 0; f = abs(f)
            if trait == 'LowerExp':
                t = '%.*e' % (prec if prec is not None else 17, f)
                if prec is None: t = repr(float(f)); t = '%r' % f; t = ('%.16e' % f) if False else next(x for x in ('%.*e' % (k, f) for k in range(18)) if float(x) == f)
                a, b = t.split('e'); body = a + 'e' + str(int(b))
            elif prec is not None: body = '%.*f' % (prec, f)
            else:
                body = repr(f)
                if body.endswith('.0'): body = body[:-2]
    elif isinstance(v, StrV):
        body = text(e, s, v.parts, m, inp)
        if prec is not None: body = body[:prec]
        neg = None
    else:
        n = num(m, v); neg = n < 0; body = str(abs(n))
        if trait == 'LowerExp':
            a, b = ('%.*e' % (prec, abs(n))).split('e'); body = a + 'e' + str(int(b))
    sign = '' if neg is None else '-' if neg else '+' if rest & 1 else ''
    if rest & 8 or (fill == '0' and al == 'right' and not isinstance(v, StrV)):
        if fill == '0': return sign + body.rjust(max(0, (width or 0) - len(sign)), '0')
    body = sign + body
    if width is None: return body
    n = max(0, width - len(body))
    l = {'left': 0, 'right': n, 'center': n // 2}[al]
    return fill * l + body + fill * (n - l)


def one(dump, name, inp, r, symbolic):
    """(status, detail): ok | incomplete | unsupported | WRONG"""
    flagged = any(t in ('NaN', 'inf', '-inf') for t in [inp[3], inp[4]] + inp[5] + inp[6])
    XREAL[0] = flagged
    e = mk_engine(dump)
    e.text = name.startswith('s_')
    e.deadline = time.time() + 60
    n = inp[1]
    st = State()
    args = args_of(e, st, inp, symbolic, flagged)
    for i in range(n): e.add_index(i)
    try: outs = e.exec_fn(st, e.prog.free(name), {}, args)
    except Unsupported as x: return 'unsupported', str(x)[:150]

    def base(s):
        cs = list(s.pc)
        for f in e.facts:
            for idx in itertools.product(*[range(n if not isinstance(d, int) else min(d, 6)) for d in f.shape]):
                g = zb(bor(bnot(f.guard), bnot(models.in_range(idx, f.shape)), f.pred(idx)))
                if g is not True: cs.append(g)
        return cs + axioms(cs)

    def check(cs):
        sv = z3.Solver(); sv.set('timeout', 10000); sv.add(*cs); sv.add(*axioms(cs))
        q = sv.check()
        return q, (sv.model() if q == z3.sat else None)
    bad = []
    for o in e.obls:
        if o.status == 'proved' or o.kind != 'no-panic': continue
        q, _ = check(base(State(pc=o.pc)) + [z3.Not(o.goal)])
        if q == z3.sat: bad.append(o.name)
    if r[0] == 'panic': return ('ok', '') if bad else ('WRONG', 'the real function panics, no obligation fails')
    found = False; why = ''
    for s, k, v in outs:
        if k != 'ret': continue
        bs = base(s)
        q, m = check(bs)
        if q == z3.unsat: continue
        try: c = match(e, s, v, r, m, inp)
        except NoMatch as x: return 'unsupported', 'result %s' % str(x)[:100]
        except Unsupported as x: return 'unsupported', str(x)[:100]
        q, _ = check(bs + [zb(c)])
        if q == z3.sat: found = True
        q2, m2 = check(bs + [zb(bnot(c))])
        if q2 != z3.unsat: why = why or 'value not determined (%s)' % str(c)[:80]
    if not found: return 'WRONG', 'real result %s is excluded' % str(r)[:100]
    if bad: return 'incomplete', 'alarm: ' + bad[0]
    if why: return 'incomplete', why
    return 'ok', ''


def main():
    dump = json.load(open(sys.argv[1]))
    ins, cnt = {}, {}
    for l in open(sys.argv[2]):
        if l.startswith('IN '): i = json.loads(l[3:]); ins[i[0]] = i
        elif l.startswith('OUT '):
            c, name, r = json.loads(l[4:])
            if len(sys.argv) > 3 and name not in sys.argv[3:]: continue
            for symbolic in (False, True):
                try: status, why = one(dump, name, ins[c], r, symbolic)
                except Exception as x: status, why = 'ERROR', '%s: %s' % (type(x).__name__, x)
                cnt[status] = cnt.get(status, 0) + 1
                print('%s %s %s %d %s' % (status, name, 'symbolic' if symbolic else 'concrete', c, why), flush=True)


t = threading.Thread(target=main)
t.start(); t.join()
