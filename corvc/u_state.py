"""State: delegation to the physics, copies, full updates, validation, CFL condition; round-trip lemmas."""
from phys import *

DIRS = ('west', 'cent', 'east')
P_OF = {'update_prim': ['C01', 'C03', 'C11'], 'update_cons': ['C01', 'C03'], 'update_flux': ['C02'], 'update_derived_variables': ['C03'], 'update_c_sound': ['C03'],
        'update_eigen_vals': ['C03'], 'update_eigen_vals_min': ['C03'], 'update_eigen_vals_max': ['C03']}


def dval(e, loc):
    p = e.prog
    i = p.variant('@directions::Direction', loc.capitalize())
    return ['cint', p.adts[p.adt('@directions::Direction')]['variants'][i]['discr']]


def sym_state(e, st, genv, name, dims, flagged=False): return sym(e, st, ['adt', e.prog.adt(STATE), [genv['P'], genv['E'], genv['S']]], genv, name, dims, None, flagged)
def sym_mesh(e, st, genv, name, dims, flagged=False):
    return sym(e, st, ['adt', e.prog.adt(MESH), [genv['S']]], genv, name, dims, {name + '.mode': e.prog.enum('MeshMode', 'Cartesian')}, flagged)


def at_dir(loc, f):
    """effect on one location of a State from an effect on Variables"""
    def effect(e, st, args, genv, pre):
        r = e.strip(st, args[0]); u = e.read(st, r)
        e.write(st, r, e.v.set(u, **{loc: f(e, e.v.get(u, loc), ptype(e, genv))}))
        return [Out(st)]
    return effect


def fvars(C, name):
    """Variables -> Variables function of a physics contract"""
    return C[name].fn


def state_fn(e, name): return e.prog.method(STATE, name)


def deleg(phys, fname):
    def run(e):
        st, genv, E, S = setup(e, phys)
        cs = phys_contracts(e, phys)
        install(e, cs, fname)
        f = VAR_FN[fname]
        for D in DIRS:
            s = st.clone()
            r = named(e, s, sym_state(e, s, genv, 'u', (E, S)), 'state')
            g = dict(genv); g['D'] = dval(e, D)
            dom = None
            verify(e, Contract('State::%s_d::<%s>' % (fname, D), state_fn(e, fname + '_d'), at_dir(D, f)), s, [r], g, phys)
        s = st.clone()
        r = named(e, s, sym_state(e, s, genv, 'u', (E, S)), 'state')
        verify(e, Contract('State::%s' % fname, state_fn(e, fname), at_dir('cent', f)), s, [r], genv, phys)
    return run


VAR_FN = {
    'update_prim': lambda e, v, ph: e.v.set(v, prim=spec_prim(e, v, ph)),
    'update_cons': lambda e, v, ph: e.v.set(v, cons=spec_cons(e, v, ph)),
    'update_flux': lambda e, v, ph: e.v.set(v, flux=spec_flux(e, v, ph)),
    'update_c_sound': lambda e, v, ph: e.v.set(v, c_sound=spec_csound(e, v, ph)),
    'update_eigen_vals': lambda e, v, ph: e.v.set(v, eigen_vals=spec_eigen(e, v, ph)),
    'update_eigen_vals_min': lambda e, v, ph: e.v.set(v, eigen_vals=only_rows(e, v, ph, [0])),
    'update_eigen_vals_max': lambda e, v, ph: e.v.set(v, eigen_vals=only_rows(e, v, ph, [-1])),
    'update_derived_variables': derived,
}
for ph in PHYS:
    for fn in VAR_FN:
        unit('state.%s.%s' % (ph, fn), P_OF[fn], 'State::%s(_d): exactly the chosen location changes' % fn)(deleg(ph, fn))


# ---------------------------------------------------------------- copies
def copy_vars(e, a, b): return e.v.set(a, prim=e.v.get(b, 'prim'), cons=e.v.get(b, 'cons'), c_sound=e.v.get(b, 'c_sound'))


def eff_vars_assign(e, st, args, genv, pre):
    r = e.strip(st, args[0]); e.write(st, r, copy_vars(e, e.read(st, r), e.deref(st, args[1])))
    return [Out(st)]


def c_vars_assign(e): return Contract('Variables::assign', e.prog.method(VARS, 'assign'), eff_vars_assign)


def eff_assign(locs):
    def effect(e, st, args, genv, pre):
        r = e.strip(st, args[0]); u, w = e.read(st, r), e.deref(st, args[1])
        e.write(st, r, e.v.set(u, **{l: copy_vars(e, e.v.get(u, l), e.v.get(w, l)) for l in locs}))
        return [Out(st)]
    return effect


def c_state_assign(e): return Contract('State::assign', state_fn(e, 'assign'), eff_assign(DIRS))


def eff_init_we(e, st, args, genv, pre):
    r = e.strip(st, args[0]); u = e.read(st, r)
    c = e.v.get(u, 'cent')
    e.write(st, r, e.v.set(u, west=copy_vars(e, e.v.get(u, 'west'), c), east=copy_vars(e, e.v.get(u, 'east'), c)))
    return [Out(st)]


def c_init_we(e): return Contract('State::init_west_east', state_fn(e, 'init_west_east'), eff_init_we)


def two_states(e, st, genv, E, S): return [named(e, st, sym_state(e, st, genv, n, (E, S)), n) for n in ('copy', 'source')]


for ph in PHYS:
    @unit('copy.%s.variables' % ph, ['C19', 'C20', 'C11'], 'Variables::assign copies prim, cons and c_sound of every cell and nothing else')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        a = [named(e, st, sym_vars(e, st, genv, n, (E, S)), n) for n in ('copy', 'source')]
        verify(e, c_vars_assign(e), st, a, genv, ph)

    @unit('copy.%s.state' % ph, ['C19', 'C11'], 'State::assign / assign_vars(_d) / init_west_east')
    def _(e, ph=ph):
        st0, genv, E, S = setup(e, ph)
        e.contracts[c_vars_assign(e).key] = c_vars_assign(e)
        for D in DIRS:
            st = st0.clone(); g = dict(genv); g['D'] = dval(e, D)
            verify(e, Contract('State::assign_vars_d::<%s>' % D, state_fn(e, 'assign_vars_d'), eff_assign((D,))), st, two_states(e, st, genv, E, S), g, ph)
        st = st0.clone()
        verify(e, Contract('State::assign_vars', state_fn(e, 'assign_vars'), eff_assign(('cent',))), st, two_states(e, st, genv, E, S), genv, ph)
        st = st0.clone()
        verify(e, c_state_assign(e), st, two_states(e, st, genv, E, S), genv, ph)

    @unit('copy.%s.init_west_east' % ph, ['C19', 'C20'], 'State::init_west_east copies the centred variables')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        e.contracts[c_vars_assign(e).key] = c_vars_assign(e)
        verify(e, c_init_we(e), st, [named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state')], genv, ph)

    @unit('new.%s.variables' % ph, ['C20', 'C19'], 'Variables::new / State::new: zeros and the configured adiabatic index')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        cfg, r = sym_physics_config(e, st)
        verify(e, c_vars_new(e), st, [r], genv, ph)

    @unit('new.%s.state' % ph, ['C20'], 'State::new: all three locations are fresh variables')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        cfg, r = sym_physics_config(e, st)
        e.contracts[c_vars_new(e).key] = c_vars_new(e)
        verify(e, c_state_new(e), st, [r], genv, ph)


def sym_physics_config(e, st, name='physics_config', units='SI'):
    v = unspecified(e, 'PhysicsConfig')
    v = e.v.set(v, units_mode=e.prog.enum('UnitsMode', units), adiabatic_index=Fl(z3.Real(name + '.adiabatic_index')))
    return v, named(e, st, v, name)


def new_vars(e, cfg, genv):
    E, S = e.cval(genv['E']), e.cval(genv['S'])
    v = unspecified(e, VARS)
    z2, z1 = const_arr((E, S), fc(0)), const_arr((S,), fc(0))
    return e.v.set(v, prim=z2, cons=z2, c_sound=z1, eigen_vals=z2, flux=z2, gamma=e.v.get(cfg, 'adiabatic_index'), zero_vec=z1)


def c_vars_new(e):
    return Contract('Variables::new', e.prog.method(VARS, 'new'), lambda e, st, args, genv, pre: [Out(st, new_vars(e, e.deref(st, args[0]), genv))])


def new_state(e, cfg, genv):
    v = new_vars(e, cfg, genv)
    u = Adt(e.prog.adt(STATE), 0, [Adt('std::marker::PhantomData', 0, ())] * len(e.prog.fields(STATE)))
    return e.v.set(u, cent=v, west=v, east=v)


def c_state_new(e):
    return Contract('State::new', state_fn(e, 'new'), lambda e, st, args, genv, pre: [Out(st, new_state(e, e.deref(st, args[0]), genv))])


# ---------------------------------------------------------------- lemmas: round trips
for ph in PHYS:
    @unit('lemma.%s.roundtrip' % ph, ['C01'], 'over the contracts of update_prim and update_cons: either round trip is the identity where rho is not zero')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        v = sym_vars(e, st, genv, 'v', (E, S))
        e.facts.append(Fact(True, (S,), lambda i: bnot(req(e.v.get(v, 'prim').get((0, i[0])).v, rv(0))), 'domain of round trip'))
        e.facts.append(Fact(True, (S,), lambda i: bnot(req(e.v.get(v, 'cons').get((0, i[0])).v, rv(0))), ''))
        st.assume(rlt(rv(1), e.v.get(v, 'gamma').v))
        w = e.v.set(v, cons=spec_cons(e, v, ph))
        lemma_eq(e, st, 'update_prim after update_cons returns prim', spec_prim(e, w, ph), e.v.get(v, 'prim'))
        w = e.v.set(v, prim=spec_prim(e, v, ph))
        lemma_eq(e, st, 'update_cons after update_prim returns cons', spec_cons(e, w, ph), e.v.get(v, 'cons'))
        if ph == 'adiabatic':
            pass


# ---------------------------------------------------------------- boundary conditions as an abstract contract
def bc_box(e, st, side):
    b = Adt('$bc', 0, (Opaque('bcstate', side),))
    return e.ref_to(st, BoxV(e.new_cell(st, b)), True)


def bc_apply(e, st, args, targs):
    """contract of the trait method: ghost cells of its side take new values, nothing else changes; the call is recorded"""
    b = e.deref(st, args[0]); side = b.fields[0].data
    r = e.strip(st, args[1]); v = e.read(st, r)
    n = sum(1 for x in st.trace if x[0] == 'bc' and x[1] == side)
    U = e.v.get(v, 'prim')
    new = BaseArr('ghost!%d!%s' % (n, side), U.shape)
    S = U.shape[1]
    ghost = (lambda i: icmp('lt', i, 2)) if side == 'west' else (lambda i: icmp('ge', i, isub(S, 2)))
    e.write(st, r, e.v.set(v, prim=LamArr(U.shape, lambda idx: fite(ghost(idx[1]), new.get(idx), U.get(idx)))))
    st.event('bc', side)
    return [(st, 'ret', UNIT)]


bc_apply.name = 'BoundaryCondition::apply'


def install_bc(e):
    for k in e.trait_item:
        if e.trait_item[k][1] == 'apply' and e.trait_item[k][0].endswith('BoundaryCondition'): e.dyn_contracts[k] = bc_apply


def eff_from_prim(first=None):
    """boundary conditions west and east, then cons, sound speed (adiabatic) and eigenvalues from the new prim"""
    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[0])
        ph = ptype(e, genv)
        if first: e.write(st, r, first(e, e.read(st, r), ph))
        bc_apply(e, st, [args[1], args[0]], None)
        bc_apply(e, st, [args[2], args[0]], None)
        v = e.read(st, r)
        v = e.v.set(v, cons=spec_cons(e, v, ph))
        e.write(st, r, derived(e, v, ph))
        return [Out(st)]
    return eff


def eff_state_update(loc, first=None):
    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[0])
        f = e.prog.fidx(STATE, loc)
        return eff_from_prim(first)(e, st, [Ref(r.cell, r.path + (('f', f),), True)] + list(args[1:]), genv, pre)
    return eff


def dom_gr(field):
    """gamma > 1; the density is not zero"""
    def d(e, st, args, genv): return dom_gamma(e, st, args, genv)
    return d


FULL = {'update_vars_from_prim': None, 'update_vars_from_cons': VAR_FN['update_prim']}


def c_full(e, name): return Contract('Physics::' + name, e.prog.default('Physics', name), eff_from_prim(FULL[name]))
def c_state_full(e, name): return Contract('State::' + name, state_fn(e, name), eff_state_update('cent', FULL[name]))


for ph in PHYS:
    for fn in FULL:
        @unit('full.%s.%s' % (ph, fn), ['C03', 'C11', 'C20'], 'Physics::%s: both boundary conditions, then conserved variables, sound speed and eigenvalues of the result' % fn)
        def _(e, ph=ph, fn=fn):
            st, genv, E, S = setup(e, ph)
            cs = phys_contracts(e, ph)
            install(e, cs, 'update_prim', 'update_cons', 'update_derived_variables')
            if fn == 'update_vars_from_cons': e.contracts[c_full(e, 'update_vars_from_prim').key] = c_full(e, 'update_vars_from_prim')
            install_bc(e)
            r = named(e, st, sym_vars(e, st, genv, 'u', (E, S)), 'vars')
            m = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
            c = c_full(e, fn)
            verify(e, c, st, [r, bc_box(e, st, 'west'), bc_box(e, st, 'east'), m], genv, ph)

        @unit('state.%s.%s' % (ph, fn), ['C03', 'C11', 'C20'], 'State::%s(_d): exactly the chosen location is updated' % fn)
        def _(e, ph=ph, fn=fn):
            st0, genv, E, S = setup(e, ph)
            e.contracts[c_full(e, fn).key] = c_full(e, fn)
            install_bc(e)
            for D in DIRS + (None,):
                st = st0.clone(); g = dict(genv)
                r = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state')
                m = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
                a = [r, bc_box(e, st, 'west'), bc_box(e, st, 'east'), m]
                if D: g['D'] = dval(e, D)
                verify(e, Contract('State::%s_d::<%s>' % (fn, D), state_fn(e, fn + ('_d' if D else '')), eff_state_update(D or 'cent', FULL[fn])), st, a, g, ph)
