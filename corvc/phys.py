"""Contracts of the physics layer: Variables, Physics, State."""
from core import *

ONE, HALF = fc(1), Fl(rv('1/2'))


def ptype(eng, genv): return 'adiabatic' if eng.cval(genv['E']) == 3 else 'isot'


def lam(shape, f): return LamArr(shape, f)


def rows(shape, fs):
    """2d array given by one function of the cell index per row"""
    def get(idx):
        j = idx[0]
        if isinstance(j, int): return fs[j](idx[1])
        r = fs[-1](idx[1])
        for n in range(len(fs) - 2, -1, -1): r = fite(icmp('eq', j, n), fs[n](idx[1]), r)
        return r
    return LamArr(shape, get)


# ---- reference formulas (cell i of a Variables value)
def spec_prim(e, v, phys):
    U, g = e.v.get(v, 'cons'), e.v.get(v, 'gamma')
    u = lambda j: (lambda i: U.get((j, i)))
    fs = [u(0), lambda i: fdiv(u(1)(i), u(0)(i))]
    if phys == 'adiabatic':
        fs.append(lambda i: fmul(fsub(g, ONE), fsub(u(2)(i), fdiv(fmul(HALF, fmul(u(1)(i), u(1)(i))), u(0)(i)))))
    return rows(U.shape, fs)


def spec_cons(e, v, phys):
    W, g = e.v.get(v, 'prim'), e.v.get(v, 'gamma')
    w = lambda j: (lambda i: W.get((j, i)))
    fs = [w(0), lambda i: fmul(w(0)(i), w(1)(i))]
    if phys == 'adiabatic':
        fs.append(lambda i: fadd(fdiv(w(2)(i), fsub(g, ONE)), fmul(HALF, fmul(w(0)(i), fmul(w(1)(i), w(1)(i))))))
    return rows(W.shape, fs)


def spec_flux(e, v, phys):
    W, U, c = e.v.get(v, 'prim'), e.v.get(v, 'cons'), e.v.get(v, 'c_sound')
    w = lambda j: (lambda i: W.get((j, i)))
    u = lambda j: (lambda i: U.get((j, i)))
    if phys == 'adiabatic':
        fs = [u(1), lambda i: fadd(fmul(w(1)(i), u(1)(i)), w(2)(i)), lambda i: fmul(fadd(u(2)(i), w(2)(i)), w(1)(i))]
    else:
        fs = [u(1), lambda i: fmul(u(0)(i), fadd(fmul(w(1)(i), w(1)(i)), fmul(c.get((i,)), c.get((i,)))))]
    return rows(U.shape, fs)


def spec_csound(e, v, phys):
    W, g, c = e.v.get(v, 'prim'), e.v.get(v, 'gamma'), e.v.get(v, 'c_sound')
    if phys == 'isot': return c
    return lam(c.shape, lambda i: fsqrt(fdiv(fmul(g, W.get((2, i[0]))), W.get((0, i[0])))))


def spec_eigen(e, v, phys):
    W, c = e.v.get(v, 'prim'), e.v.get(v, 'c_sound')
    E = 3 if phys == 'adiabatic' else 2
    vel = lambda i: W.get((1, i))
    fs = [lambda i: fsub(vel(i), c.get((i,)))] + [vel] * (E - 2) + [lambda i: fadd(vel(i), c.get((i,)))]
    return rows(e.v.get(v, 'eigen_vals').shape, fs)


def on_vars(f):
    """effect of a function of one `&mut Variables`"""
    def effect(e, st, args, genv, pre):
        r = e.strip(st, args[0]); v = e.read(st, r)
        e.write(st, r, f(e, v, ptype(e, genv)))
        return [Out(st)]
    return effect


def dom_rho(field):
    def d(e, st, args, genv):
        v = e.deref(st, args[0]); A = e.v.get(v, field)
        out = [(A.shape[1:], lambda i: bnot(req(A.get((0, i[0])).v, rv(0))))]
        return out
    return d


def dom_gamma(e, st, args, genv):
    v = e.deref(st, args[0])
    return [((1,), lambda i: rlt(rv(1), e.v.get(v, 'gamma').v))]


def derived(e, v, phys):
    if phys == 'adiabatic': v = e.v.set(v, c_sound=spec_csound(e, v, phys))
    return e.v.set(v, eigen_vals=spec_eigen(e, v, phys))


def phys_contracts(e, phys):
    """{name: Contract} of the Physics implementation"""
    p = e.prog
    key = PHYS[phys][0]
    C = {}

    def add(name, eff, domain=None, default=False):
        k = p.default('Physics', name) if default else p.method(key, name, 'Physics')
        C[name] = Contract('%s::%s' % (key.split('::')[-1] if not default else 'Physics', name), k, eff, domain)
    add('update_prim', on_vars(lambda e, v, ph: e.v.set(v, prim=spec_prim(e, v, ph))), dom_rho('cons'))
    add('update_cons', on_vars(lambda e, v, ph: e.v.set(v, cons=spec_cons(e, v, ph))), dom_gamma)
    add('update_flux', on_vars(lambda e, v, ph: e.v.set(v, flux=spec_flux(e, v, ph))))
    add('update_c_sound', on_vars(lambda e, v, ph: e.v.set(v, c_sound=spec_csound(e, v, ph))), dom_rho('prim'), True)
    add('update_eigen_vals', on_vars(lambda e, v, ph: e.v.set(v, eigen_vals=spec_eigen(e, v, ph))), None, True)
    add('update_eigen_vals_min', on_vars(lambda e, v, ph: e.v.set(v, eigen_vals=only_rows(e, v, ph, [0]))), None, True)
    add('update_eigen_vals_max', on_vars(lambda e, v, ph: e.v.set(v, eigen_vals=only_rows(e, v, ph, [-1]))), None, True)
    add('update_derived_variables', on_vars(derived), dom_rho('prim'), True)
    return C


def only_rows(e, v, ph, js):
    old, new = e.v.get(v, 'eigen_vals'), spec_eigen(e, v, ph)
    E = old.shape[0]
    js = [j % E for j in js]
    return rows(old.shape, [(lambda i, j=j: (new if j in js else old).get((j, i))) for j in range(E)])


def sym_vars(e, st, genv, name, dims): return sym(e, st, ['adt', e.prog.adt(VARS), [genv['E'], genv['S']]], genv, name, dims)


def setup(e, phys, smin=5):
    genv, E, S = base_env(e, phys)
    st = State()
    st.assume(S >= smin); st.assume(S < 2 ** 62)
    return st, genv, E, S


def named(e, st, v, name):
    r = e.ref_to(st, v, True)
    e.cell_names[r.cell] = name
    return r


def install(e, cs, *names):
    for n in names: e.contracts[cs[n].key] = cs[n]


def one_vars_unit(phys, fname, callees=()):
    def run(e):
        st, genv, E, S = setup(e, phys)
        cs = phys_contracts(e, phys)
        install(e, cs, *callees)
        r = named(e, st, sym_vars(e, st, genv, 'u', (E, S)), 'vars')
        verify(e, cs[fname], st, [r], genv, phys)
    return run


for ph in PHYS:
    for fn, props, callees in (('update_prim', ['C01', 'C03', 'C11'], ()), ('update_cons', ['C01', 'C03'], ()), ('update_flux', ['C02', 'C06', 'C07'], ()),
                               ('update_c_sound', ['C03'], ()), ('update_eigen_vals', ['C03'], ()), ('update_eigen_vals_min', ['C03'], ()),
                               ('update_eigen_vals_max', ['C03'], ()), ('update_derived_variables', ['C03'], ('update_c_sound', 'update_eigen_vals'))):
        unit('phys.%s.%s' % (ph, fn), props, '%s: %s of every cell' % (ph, fn))(one_vars_unit(ph, fn, callees))
