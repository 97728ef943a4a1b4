"""Validation: a state, flux or solver that passes is finite and positive (nan and infinities modelled)."""
from u_bc import *

RKF = '@time::rkf::RungeKuttaFehlberg'


def vars_checks(e, v, genv):
    return [('%s of every equation and cell is finite' % n, e.v.get(v, n).shape, lambda k, n=n: e.v.get(v, n).get(k).finite) for n in ('prim', 'cons')]


def phys_checks(e, v, genv):
    W = e.v.get(v, 'prim')
    rows_ = [('density', 0)] + ([('pressure', 2)] if ptype(e, genv) == 'adiabatic' else [])
    return [('the %s of every cell is positive' % n, W.shape[1:], lambda k, j=j: flt(fc(0), W.get((j, k[0])))) for n, j in rows_]


def state_checks(e, u, genv):
    c = e.v.get(u, 'cent')
    return vars_checks(e, c, genv) + phys_checks(e, c, genv)


def field_checks(names):
    def f(e, v, genv):
        out = []
        for n in names:
            a = e.v.get(v, n)
            out.append(('%s is finite' % n, a.shape, lambda k, a=a: a.get(k).finite))
        return out
    return f


def rkf_checks(e, v, genv): return field_checks(['u_cons_low'])(e, v, genv) + state_checks(e, e.v.get(v, 'utilde'), genv)


def c_vars_validate(e): return c_validate('Variables::validate', e.prog.method(VARS, 'validate', 'Validation'), vars_checks)
def c_phys_validate(e, ph): return c_validate('Physics::validate', e.prog.method(PHYS[ph][0], 'validate', 'Physics'), phys_checks)
def c_state_validate(e): return c_validate('State::validate', e.prog.method(STATE, 'validate', 'Validation'), state_checks)


for ph in PHYS:
    @unit('valid.%s' % ph, ['C17'], 'Variables/Physics/State::validate: Ok if and only if prim and cons are finite and density (and pressure) positive in every cell (nan and infinities modelled)', budget=120)
    def _(e, ph=ph):
        XREAL[0] = True
        st, genv, E, S = setup(e, ph)
        v = sym(e, st, ['adt', e.prog.adt(VARS), [genv['E'], genv['S']]], genv, 'u', (E, S), None, True)
        vk, pk = c_vars_validate(e), c_phys_validate(e, ph)
        s = st.clone(); verify_validate(e, 'Variables::validate [%s]' % ph, vk.key, s, [named(e, s, v, 'vars')], genv, vars_checks(e, v, genv))
        s = st.clone(); verify_validate(e, 'Physics::validate [%s]' % ph, pk.key, s, [named(e, s, v, 'vars')], genv, phys_checks(e, v, genv))
        e.contracts[vk.key] = vk; e.contracts[pk.key] = pk
        u = sym_state(e, st, genv, 'w', (E, S), True)
        verify_validate(e, 'State::validate [%s]' % ph, c_state_validate(e).key, st, [named(e, st, u, 'state')], genv, state_checks(e, u, genv))


# ---------------------------------------------------------------- flux evaluations
def anything(e, fields):
    """contract of a Physics function as far as needed here: only the named fields may change (weaker than its exact contract)"""
    n = [0]

    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[0]); v = e.read(st, r)
        kw = {}
        for f in fields:
            n[0] += 1
            kw[f] = BaseArr('%s?%d' % (f, n[0]), e.v.get(v, f).shape, True)
        e.write(st, r, e.v.set(v, **kw))
        return [Out(st)]
    return eff


ONLY = {'update_prim': ['prim'], 'update_c_sound': ['c_sound'], 'update_eigen_vals': ['eigen_vals'], 'update_eigen_vals_min': ['eigen_vals'], 'update_eigen_vals_max': ['eigen_vals'],
        'update_flux': ['flux']}


def loose(e, ph):
    cs = phys_contracts(e, ph)
    for n, fs in ONLY.items(): e.contracts[cs[n].key] = Contract(cs[n].name, cs[n].key, anything(e, fs))


def flux_finite(ph, scheme, mode=None):
    def run(e):
        XREAL[0] = True
        st, genv, E, S = setup(e, ph)
        st.assume(S < 2 ** 53)
        loose(e, ph)
        XREAL[0] = False
        m, mr = the_mesh(e, st, S)
        XREAL[0] = True
        adt = HLL if scheme == 'hll' else KT
        key = e.prog.method(adt, 'calc_dflux_dxi', 'NumFlux')
        ty = ['adt', e.prog.adt(adt), [genv['E'], genv['S']]]
        over = {}
        if scheme == 'kt':
            lm = e.prog.adt('LimiterMode')
            over['flux.limiter_mode'] = Adt(lm, e.prog.variant(lm, mode), (flagged_fl('theta'),) if mode == 'Monocent' else ())
        obj = sym(e, st, ty, genv, 'flux', (E, S), over, True)
        g = dict(genv); g['Self'] = ty
        dr = named(e, st, BaseArr('dflux', (E, S), True), 'time derivative')
        ur = named(e, st, sym_state(e, st, genv, 'u', (E, S), True), 'state')
        lo, hi = e.v.get(m, 'ixi_in'), e.v.get(m, 'ixi_out')

        def post(s, v):
            if v.var != 0: return []
            D = e.deref(s, dr)
            k = e.fresh('k', I); e.add_index(k); s.assume(models.in_range((k,), (S,))); s.assume(band(icmp('le', lo, k), icmp('le', k, hi)))
            return [('Ok only if the time derivative of equation %d is finite in every interior cell' % j, D.get((j, k)).finite) for j in range(E)]
        ensure(e, key, st, [named(e, st, obj, scheme), dr, ur, mr], g, '%s::calc_dflux_dxi' % scheme, post)
    return run


for ph in PHYS:
    unit('valid.hll.%s' % ph, ['C17'], 'Hll::calc_dflux_dxi returns Ok only with a finite time derivative (nan and infinities modelled)')(flux_finite(ph, 'hll'))
    for md in MODES:
        fast = md in ('NoLimiter', 'VanLeer')
        unit('valid.kt.%s.%s' % (ph, md), ['C17'] if fast else [], 'Kt::calc_dflux_dxi with %s returns Ok only with a finite time derivative (nan and infinities modelled)' % md, tprops=[] if fast else ['C17'])(flux_finite(ph, 'kt', md))
