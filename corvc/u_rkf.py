"""Runge-Kutta-Fehlberg: tableaux, construction, the flux-difference operator, the step, adaptive control."""
from fractions import Fraction as Q
from u_valid import *

RHS, BT = '@rhs::Rhs', '@time::rkf::butchertableau::ButcherTableau'
# mode: (stages, order of the solution, order of the embedded solution or None, coefficients rounded to)
METHODS = {'RK1': (1, 1, None, '1e-12'), 'RK2': (2, 2, None, '1e-12'), 'RK3': (3, 3, 1, '1e-12'), 'RK4': (4, 4, None, '1e-12'), 'Heun2': (2, 2, 1, '1e-12'),
           'RKF12': (3, 2, 1, '1e-12'), 'RKF45': (6, 5, 4, '1e-12'), 'SSPRK3': (3, 3, 1, '1e-12'), 'SSPRK5': (5, 3, 4, '1e-5')}
FIELDS = ('asc_relative_tolerance', 'asc_absolute_tolerance', 'asc_timestep_friction')


def const(x):
    """exact value of a constant float"""
    q = cv(z3.simplify(x.v)) if not x.flagged else None
    if q is None: raise Unsupported('coefficient is not a constant')
    return q


def trees(n):
    """rooted trees with n nodes as nested sorted tuples"""
    if n == 1: return [()]
    out = set()

    def parts(rest, mx):
        if rest == 0: yield (); return
        for k in range(min(rest, mx), 0, -1):
            for t in trees(k):
                for p in parts(rest - k, k): yield (t,) + p
    for p in parts(n - 1, n - 1): out.add(tuple(sorted(p)))
    return sorted(out)


def nodes(t): return 1 + sum(nodes(x) for x in t)


def gamma(t):
    r = nodes(t)
    for x in t: r *= gamma(x)
    return r


def residual(t, a, b):
    """sum of weights times elementary weights minus 1/gamma(t), exactly"""
    def stage(t):
        out = [Q(1)] * len(b)
        for x in t:
            w = stage(x)
            out = [o * sum(a[i][j] * w[j] for j in range(len(b))) for i, o in enumerate(out)]
        return out
    return sum(b[i] * w for i, w in enumerate(stage(t))) - Q(1, gamma(t))


def tableau(e, bt):
    n = e.v.get(bt, 'order')
    if not isinstance(n, int): raise Unsupported('number of stages is not a constant')
    a = e.v.get(bt, 'a')
    g = lambda f: [const(e.v.get(bt, f).get((i,))) for i in range(n)]
    return n, [[const(a.get((i, j))) for j in range(n)] for i in range(n)], g('b_high'), g('b_low')


def tableau_goals(e, bt, mode, asc):
    stages, hi, lo, tol = METHODS[mode]
    tol = Q(tol)
    n, a, b, bl = tableau(e, bt)
    sh = e.v.get(bt, 'a').shape + e.v.get(bt, 'b_high').shape + e.v.get(bt, 'b_low').shape
    out = [('coefficients and weights for every stage', all(x == n for x in sh)), ('explicit: no stage uses itself or a later one', all(a[i][j] == 0 for i in range(n) for j in range(i, n)))]
    for what, w, order in (('solution', b, hi), ('embedded solution', bl, lo)):
        for p in range(1, (order or 0) + 1):
            for t in trees(p): out.append(('%s: order %d condition of tree %s' % (what, p, t), abs(residual(t, a, w)) <= tol))
    want = asc if lo is not None else False
    out.append(('step control is %s' % ('available as requested' if lo is not None else 'switched off'), beq(e.v.get(bt, 'asc'), want)))
    return out


for md in METHODS:
    @unit('tableau.%s' % md, ['C10', 'C11'], 'ButcherTableau::new(%s): explicit, order conditions of the solution and of the embedded solution, step control only with an embedded solution' % md)
    def _(e, md=md):
        st = State()
        cfg = rkf_config(e, None, md, False)
        ensure(e, e.prog.method(BT, 'new'), st, [named(e, st, cfg, 'configuration')], {}, 'ButcherTableau::new [%s]' % md, lambda s, v: tableau_goals(e, v, md, z3.Bool('asc')))


# ---------------------------------------------------------------- the flux-difference operator
NFT = ['abstract', 'N']


def trait_key(e, trait, name):
    for k, v in e.trait_item.items():
        if v[1] == name and v[0].split('::')[-1] == trait: return k
    raise LostAnchor('trait function %s::%s not found' % (trait, name))


def count(st, tag): return sum(1 for x in st.trace if x[0] == tag)


def inputs(e, u, ph):
    """what a flux evaluation may depend on besides mesh and boundary conditions"""
    c = e.v.get(u, 'cent')
    out = [e.v.get(c, 'cons')] + [e.v.get(u, d, 'gamma') for d in DIRS]
    if ph == 'isot': out += [e.v.get(u, d, 'c_sound') for d in DIRS]
    return tuple(out)


def scratch(e, v, tag, keep):
    """arbitrary values in all arrays but the kept ones"""
    return Adt(v.key, v.var, [BaseArr('%s.%s' % (tag, f), x.shape) if isinstance(x, Arr) and f not in keep else x for f, x in zip(e.prog.fields(v.key), v.fields)])


def eff_flux(e, st, args, genv, ph, n):
    """the abstract numerical flux: some time derivative; the centred conserved and primitive variables stay"""
    me, dr, ur = [e.strip(st, a) for a in args[:3]]
    u = e.read(st, ur)
    keep = ['zero_vec'] + (['c_sound'] if ph == 'isot' else [])
    c = e.v.set(e.v.get(u, 'cent'), flux=BaseArr('flux!%d' % n, e.v.get(u, 'cent', 'flux').shape))
    e.write(st, ur, e.v.set(u, cent=c, **{d: scratch(e, e.v.get(u, d), '%s!%d' % (d, n), keep) for d in ('west', 'east')}))
    e.write(st, dr, BaseArr('rhs!%d' % n, e.read(st, dr).shape))
    e.write(st, me, Adt('$numflux', 0, (Opaque('scratch', n),)))


def c_numflux(e, ph):
    def eff(e, st, args, genv, pre):
        n = count(st, 'flux')
        u = e.deref(st, args[2])
        st.event('flux', e.v.get(u, 'cent', 'prim'), e.v.get(u, 'cent', 'c_sound'), e.v.get(u, 'cent', 'eigen_vals'), *inputs(e, u, ph))
        eff_flux(e, st, args, genv, ph, n)
        ok = z3.Bool('flux_ok!%d' % n)
        return [Out(st, Ok(UNIT), ok), Out(st.clone(), Err(Opaque('err', ())), bnot(ok))]
    return Contract('NumFlux::calc_dflux_dxi', trait_key(e, 'NumFlux', 'calc_dflux_dxi'), eff)


def sym_rhs(e, st, genv):
    p = e.prog
    E, S = e.cval(genv['E']), e.cval(genv['S'])
    box = lambda side: BoxV(e.new_cell(st, Adt('$bc', 0, (Opaque('bcstate', side),))))
    v = blank(e, RHS)
    return e.v.set(v, full_rhs=BaseArr('full_rhs', (E, S)), numflux=Adt('$numflux', 0, ()), boundary_west=box('west'), boundary_east=box('east'))


def rhs_key(e): return e.prog.method(RHS, 'update')


def field_ref(e, r, name, f): return Ref(r.cell, r.path + (('f', e.prog.fidx(name, f)),), True)


def c_rhs_update(e, ph):
    """ghost cells and derived variables of u from its conserved variables, then the time derivative of exactly that state"""
    def eff(e, st, args, genv, pre):
        me, ur = e.strip(st, args[0]), e.strip(st, args[1])
        eff_state_update('cent', FULL['update_vars_from_cons'])(e, st, [ur, field_ref(e, me, RHS, 'boundary_west'), field_ref(e, me, RHS, 'boundary_east'), args[2]], genv, pre)
        return c_numflux(e, ph).effect(e, st, [field_ref(e, me, RHS, 'numflux'), field_ref(e, me, RHS, 'full_rhs'), ur, args[2]], genv, pre)
    return Contract('Rhs::update', rhs_key(e), eff)


def with_n(genv):
    g = dict(genv); g['N'] = NFT
    return g


for ph in PHYS:
    @unit('rhs.update.%s' % ph, ['C11', 'C17', 'C09'], 'Rhs::update: variables and ghost cells from the conserved variables, then the time derivative of that state; an error of the flux is returned')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        c = c_state_full(e, 'update_vars_from_cons'); e.contracts[c.key] = c
        c = c_numflux(e, ph); e.contracts[c.key] = c
        install_bc(e)
        g = with_n(genv)
        m = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
        u = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state')
        verify(e, c_rhs_update(e, ph), st, [named(e, st, sym_rhs(e, st, genv), 'right hand side'), u, m], g, ph)


def c_rhs(e, ph):
    """abstraction of Rhs::update for its callers: stage n is evaluated for the recorded inputs"""
    def eff(e, st, args, genv, pre):
        n = count(st, 'rhs')
        me, ur = e.strip(st, args[0]), e.strip(st, args[1])
        u = e.read(st, ur)
        st.event('rhs', *inputs(e, u, ph))
        keep = ['zero_vec'] + (['c_sound'] if ph == 'isot' else [])
        e.write(st, ur, e.v.set(u, **{d: scratch(e, e.v.get(u, d), '%s!%d' % (d, n), keep) for d in DIRS}))
        e.write(st, me, e.v.set(e.read(st, me), full_rhs=BaseArr('rhs!%d' % n, e.v.get(e.read(st, me), 'full_rhs').shape), numflux=Adt('$numflux', 0, (Opaque('scratch', n),))))
        ok = z3.Bool('rhs_ok!%d' % n)
        return [Out(st, Ok(UNIT), ok), Out(st.clone(), Err(Opaque('err', ())), bnot(ok))]
    return Contract('Rhs::update', rhs_key(e), eff)


# ---------------------------------------------------------------- the step
def sym_rkf(e, st, genv, u, n, accepted):
    """solver object with an arbitrary tableau of n stages and arbitrary scratch fields; adiabatic indices are those of u (constructor contracts)"""
    E, S = e.cval(genv['E']), e.cval(genv['S'])
    A = lambda f, sh: BaseArr(f, sh)
    bt = e.v.set(blank(e, BT), order=n, a=A('bt.a', (n, n)), b_high=A('bt.b_high', (n,)), b_low=A('bt.b_low', (n,)), c=A('bt.c', (n,)), asc=z3.Bool('bt.asc'))
    w = sym_state(e, st, genv, 'utilde', (E, S))
    w = e.v.set(w, **{d: e.v.set(e.v.get(w, d), gamma=e.v.get(u, d, 'gamma')) for d in DIRS})
    v = e.v.set(blank(e, RKF), bt=bt, k_bundle=A('k_bundle', (n, E, S)), err_new=Fl(z3.Real('err_new')), err_old=Fl(z3.Real('err_old')), n_asc=z3.Int('n_asc'),
                solution_accepted=accepted, u_cons_low=A('u_cons_low', (E, S)), utilde=w, **{f: Fl(z3.Real(f)) for f in FIELDS})
    st.assume(z3.And(z3.Int('n_asc') >= 0, z3.Int('n_asc') < 2 ** 63))
    return v


def combine(e, U, dt, coeff, n):
    """U - sum_p dt * coeff(p) * k_p"""
    k = [BaseArr('rhs!%d' % p, U.shape) for p in range(n)]

    def get(ix):
        r = U.get(ix)
        for p in range(n): r = fsub(r, fmul(fmul(dt, coeff(p)), k[p].get(ix)))
        return r
    return LamArr(U.shape, get)


def c_rkf_validate(e):
    def eff(e, st, args, genv, pre):
        ok = z3.Bool('solver_valid')
        return [Out(st, Ok(UNIT), ok), Out(st.clone(), Err(Opaque('err', ())), bnot(ok))]
    return Contract('RungeKuttaFehlberg::validate', e.prog.method(RKF, 'validate', 'Validation'), eff)


def rkf_setup(e, ph, n, accepted):
    st, genv, E, S = setup(e, ph)
    e.contracts[c_state_assign(e).key] = c_state_assign(e)
    for c in (c_rhs(e, ph), c_rkf_validate(e)): e.contracts[c.key] = c
    ur = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state'); u = e.deref(st, ur)
    dt = Fl(z3.Real('dt'))
    me = named(e, st, sym_rkf(e, st, genv, u, n, accepted), 'time integrator')
    rr = named(e, st, sym_rhs(e, st, genv), 'right hand side')
    mr = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
    g = with_n(genv); g['Self'] = ['adt', e.prog.adt(RKF), [genv['P'], genv['E'], genv['S']]]
    return st, g, E, S, me, dt, ur, u, rr, mr


def step_paths(e, ph, n, accepted, nm):
    """the checks shared by accepted and trial calls; returns the successful paths"""
    st, g, E, S, me, dt, ur, u, rr, mr = rkf_setup(e, ph, n, accepted)
    pre = st.clone()
    bt = e.v.get(e.deref(st, me), 'bt'); a, bh = e.v.get(bt, 'a'), e.v.get(bt, 'b_high')
    key = e.prog.method(RKF, 'calc_rkf_solution')
    outs = e.exec_fn(st, key, g, [me, dt, ur, rr, mr])
    U = e.v.get(u, 'cent', 'cons')
    oks = []
    for s, kind, v in outs:
        if kind != 'ret' or not e.feasible(s): continue
        frame_ok(e, pre, s, [ur.cell, mr.cell], nm)
        for b in ('boundary_west', 'boundary_east'): compare(e, s, '%s: %s unchanged' % (nm, b), e.v.get(e.deref(s, rr), b), e.v.get(e.deref(pre, rr), b), s, pre)
        stages = [x for x in s.trace if x[0] == 'rhs']
        ok_all = band(*[z3.Bool('rhs_ok!%d' % q) for q in range(n)])
        if v.var != 0:
            e.oblige(s, '%s: an error only if a stage or the validation fails' % nm, bnot(band(ok_all, z3.Bool('solver_valid'))))
            continue
        e.oblige(s, '%s: Ok only if no stage failed' % nm, ok_all)
        e.oblige(s, '%s: one flux evaluation per stage' % nm, len(stages) == n)
        if len(stages) != n: continue
        for q, ev in enumerate(stages):
            want = ('rhs', combine(e, U, dt, lambda p: a.get((q, p)), q)) + inputs(e, u, ph)[1:]
            compare_trace(e, s, '%s: stage %d' % (nm, q), (ev,), (want,))
        w = e.v.get(e.deref(s, me), 'utilde')
        compare(e, s, '%s: solution' % nm, e.v.get(w, 'cent', 'cons'), combine(e, U, dt, lambda p: bh.get((p,)), n), s, s)
        # what the next call relies on
        for f in ('bt',) + FIELDS: compare(e, s, '%s: %s unchanged' % (nm, f), e.v.get(e.deref(s, me), f), e.v.get(e.deref(pre, me), f), s, pre)
        for d in DIRS: compare(e, s, '%s: adiabatic index of the stages unchanged' % nm, e.v.get(w, d, 'gamma'), e.v.get(u, d, 'gamma'), s, s)
        compare(e, s, '%s: acceptance flag unchanged' % nm, e.v.get(e.deref(s, me), 'solution_accepted'), accepted, s, s)
        oks.append((s, v.fields[0]))
    if not oks: raise Unsupported('no successful path')
    e.covered.add(key)
    return oks, pre, (me, dt, U, S)


for ph in PHYS:
    for n in range(1, 7):
        @unit('step.%s.%d' % (ph, n), ['C11', 'C09', 'C19'] if n in (1, 2, 3, 4) else ['C11'], 'calc_rkf_solution, accepted, any tableau of %d stages: stage states, solution, width; the given state is not touched' % n)
        def _(e, ph=ph, n=n):
            nm = 'calc_rkf_solution [%s, %d stages]' % (ph, n)
            oks, pre, (me, dt, U, S) = step_paths(e, ph, n, True, nm)
            for s, d in oks: compare(e, s, '%s: the width is returned unchanged' % nm, d, dt, s, s)


def rel_diff(e, v):
    """relative difference of the two embedded solutions held by the integrator"""
    hi, lo = e.v.get(v, 'utilde', 'cent', 'cons'), e.v.get(v, 'u_cons_low')
    rel, ab = e.v.get(v, 'asc_relative_tolerance'), e.v.get(v, 'asc_absolute_tolerance')
    return lambda ix: fabs(fdiv(fsub(hi.get(ix), lo.get(ix)), fmul(rel, fadd(hi.get(ix), ab))))


def width_goals(dt, err, d):
    """what the new width of a trial satisfies"""
    small = rlt(err.v, rv(1))
    return [('an accepted width grows by at most a factor of four', bimp(small, rle(d.v, rmul(rv(4), dt.v)))),
            ('a rejected width shrinks by at most a factor of four', bimp(bnot(small), rle(dt.v, rmul(rv(4), d.v)))),
            ('a rejected width does not grow', bimp(bnot(small), rle(d.v, dt.v))), ('a width is not negative', rle(rv(0), d.v))]


for ph in PHYS:
    for n in (2, 3, 5, 6):
        @unit('trial.%s.%d' % (ph, n), ['C12'], 'calc_rkf_solution, trial step of any tableau with %d stages: error over all interior cells and equations, bounds of the new width' % n)
        def _(e, ph=ph, n=n):
            nm = 'calc_rkf_solution, trial [%s, %d stages]' % (ph, n)
            oks, pre, (me, dt, U, S) = step_paths(e, ph, n, False, nm)
            E = U.shape[0]
            for s, d in oks:
                s.assume(rlt(rv(0), dt.v))
                for f in ('asc_relative_tolerance', 'asc_timestep_friction'): s.assume(z3.Real(f) > 0)
                v = e.deref(s, me)
                err = e.v.get(v, 'err_new')
                bl = e.v.get(v, 'bt', 'b_low')
                compare(e, s, '%s: embedded solution' % nm, e.v.get(v, 'u_cons_low'), combine(e, U, dt, lambda p: bl.get((p,)), n), s, s)
                g = rel_diff(e, v)
                k = e.fresh('k', I); e.add_index(k)
                s2 = s.clone(); s2.assume(models.in_range((k,), (isub(S, 4),)))
                for j in range(E):
                    e.add_index(z3.IntVal(j))
                    e.oblige(s2, '%s: the error bounds the relative difference of equation %d in every interior cell' % (nm, j), rle(g((j, iadd(2, k))).v, err.v))
                e.oblige(s, '%s: the error is not negative' % nm, rle(rv(0), err.v))
                s3 = s.clone(); s3.assume(rlt(rv(0), err.v))
                exists_goal(e, s3, '%s: the error is attained in an interior cell' % nm, (E, isub(S, 4)), lambda ix: req(g((ix[0], iadd(2, ix[1]))).v, err.v))
                for n_, gl in width_goals(dt, err, d): e.oblige(s, '%s: %s' % (nm, n_), gl)
                compare(e, s, '%s: the error is remembered for the next trial' % nm, e.v.get(v, 'err_old'), err, s, s)


for ph in PHYS:
    @unit('valid.rkf.%s' % ph, ['C17'], 'RungeKuttaFehlberg::validate: Ok only if the candidate solution is valid (nan and infinities modelled)')
    def _(e, ph=ph):
        XREAL[0] = True
        st, genv, E, S = setup(e, ph)
        c = c_state_validate(e); e.contracts[c.key] = c
        u = sym_state(e, st, genv, 'utilde', (E, S), True)
        v = e.v.set(blank(e, RKF), u_cons_low=BaseArr('u_cons_low', (E, S), True), utilde=u)
        verify_validate(e, 'RungeKuttaFehlberg::validate [%s]' % ph, c_rkf_validate(e).key, st, [named(e, st, v, 'time integrator')], genv, rkf_checks(e, v, genv))
