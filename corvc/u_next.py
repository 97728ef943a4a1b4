"""The time integrator: construction, one accepted step, adaptive control."""
from u_rkf import *


def k_next(e): return e.prog.method(RKF, 'next_solution', 'TimeSolver')
def k_step(e): return e.prog.method(RKF, 'calc_rkf_solution')


# ---------------------------------------------------------------- construction
def any_tableau(e, st):
    n = z3.Int('stages'); st.assume(z3.And(n >= 1, n <= 6))
    A = lambda f, sh: BaseArr('tableau.' + f, sh)
    return e.v.set(blank(e, BT), order=n, a=A('a', (n, n)), b_high=A('b_high', (n,)), b_low=A('b_low', (n,)), c=A('c', (n,)), asc=z3.Bool('tableau.asc'))


def ti_config(e, rk):
    k = e.prog.adt('TimeIntegrationConfig')
    return Adt(k, e.prog.variant(k, 'Rkf'), (rk,))


for ph in PHYS:
    @unit('rkf.new.%s' % ph, ['C20', 'C11', 'C12'], 'RungeKuttaFehlberg::new: the configured tableau, tolerances and adiabatic index; accepted unless controlled')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        bt = any_tableau(e, st)
        e.contracts[c_state_new(e).key] = c_state_new(e)

        def eff(e, s, args, g, pre):
            s.event('tableau', e.deref(s, args[0]))
            return [Out(s, bt)]
        c = Contract('ButcherTableau::new', e.prog.method(BT, 'new'), eff); e.contracts[c.key] = c
        rk = rkf_config(e, z3.Bool('config.asc'), 'RKF45', False)
        pc, _ = sym_physics_config(e, st)
        cfg = e.v.set(blank(e, 'CorriesConfig'), physics_config=pc, numerics_config=e.v.set(blank(e, 'NumericsConfig'), time_integration_config=ti_config(e, rk)))
        g = dict(genv); g['Self'] = ['adt', e.prog.adt(RKF), [genv['P'], genv['E'], genv['S']]]
        nm = 'RungeKuttaFehlberg::new [%s]' % ph
        n = 0
        for s, k, v in e.exec_fn(st, e.prog.method(RKF, 'new', 'TimeSolver'), g, [named(e, st, cfg, 'configuration')]):
            if k != 'ret' or not e.feasible(s): continue
            n += 1
            e.oblige(s, nm + ': never an error', v.var == 0)
            if v.var != 0: continue
            v = v.fields[0]
            ev = [x for x in s.trace if x[0] == 'tableau']
            e.oblige(s, nm + ': the tableau is made from the configuration', len(ev) >= 1)
            for x in ev: compare(e, s, nm + ': configuration of the tableau', x[1], rk, s, s)
            compare(e, s, nm + ': tableau', e.v.get(v, 'bt'), bt, s, s)
            for f in FIELDS: compare(e, s, '%s: %s' % (nm, f), e.v.get(v, f), e.v.get(rk, f), s, s)
            e.oblige(s, nm + ': steps are accepted unless controlled', bor(e.v.get(bt, 'asc'), e.v.get(v, 'solution_accepted')))
            for d in DIRS: compare(e, s, nm + ': adiabatic index', e.v.get(v, 'utilde', d, 'gamma'), e.v.get(pc, 'adiabatic_index'), s, s)
            sh = e.v.get(v, 'k_bundle').shape
            e.oblige(s, nm + ': room for all stages', band(*[icmp('eq', x, y) for x, y in zip(sh, (e.v.get(bt, 'order'), E, S))]) if len(sh) == 3 else False)
        if not n: raise Unsupported('no path returns')
        e.covered.add(e.prog.method(RKF, 'new', 'TimeSolver'))


# ---------------------------------------------------------------- one step and its trials, as used by the caller
GHOST = {}


def c_step(e, ph, ghost):
    """contract of calc_rkf_solution established by the step.* and trial.* units for 1 to 6 stages"""
    def eff(e, st, args, genv, pre):
        n = count(st, 'step') + count(st, 'trial')
        tag = '%d~%d' % (n, e.fresh_n); e.fresh_n += 1
        me, dt, ur, rr = e.strip(st, args[0]), args[1], e.strip(st, args[2]), e.strip(st, args[3])
        v, u, r = e.read(st, me), e.read(st, ur), e.read(st, rr)
        pre('adiabatic index of the scratch state', band(*[fsame(e.v.get(v, 'utilde', d, 'gamma'), e.v.get(u, d, 'gamma')) for d in DIRS]))
        acc = e.v.get(v, 'solution_accepted')
        keep = ['zero_vec']
        w = e.v.get(v, 'utilde')
        w = e.v.set(w, **{d: scratch(e, e.v.get(w, d), 'stage!%s!%s' % (tag, d), keep) for d in DIRS})
        sol = BaseArr('solution!' + tag, e.v.get(w, 'cent', 'cons').shape)
        w = e.v.set(w, cent=e.v.set(e.v.get(w, 'cent'), cons=sol))
        v = e.v.set(v, utilde=w, k_bundle=BaseArr('k!' + tag, e.v.get(v, 'k_bundle').shape))
        e.write(st, rr, e.v.set(r, full_rhs=BaseArr('full_rhs!' + tag, e.v.get(r, 'full_rhs').shape), numflux=Adt('$numflux', 0, (Opaque('scratch', tag),))))
        ok = z3.Bool('step_ok!' + tag)
        err = lambda s: Out(s, Err(Opaque('err', ())), bnot(ok))
        out = []
        if acc is not False:
            s = st.clone()
            if acc is not True: s.assume(zb(acc))
            e.write(s, me, v)
            s.event('step', dt, u, sol)
            out += [Out(s, Ok(dt), ok), err(s.clone())]
        if acc is not True:
            s = st.clone()
            if acc is not False: s.assume(z3.Not(zb(acc)))
            gh = s.cells.get(ghost)
            if gh is not None:
                e.oblige(s, 'time integrator: a rejected step is repeated with the new width', bor(bnot(gh.fields[0]), fsame(dt, gh.fields[1])))
            er, d = Fl(z3.Real('err!' + tag)), Fl(z3.Real('width!' + tag))
            s.assume(rle(rv(0), er.v))
            for _, g in width_goals(dt, er, d): s.assume(bimp(rlt(rv(0), dt.v), g))
            e.write(s, me, e.v.set(v, u_cons_low=BaseArr('low!' + tag, sol.shape), err_new=er, err_old=er))
            s.event('trial', dt, u)
            s2 = s.clone()
            s.cells[ghost] = Adt('$ghost', 0, (True, d))
            out += [Out(s, Ok(d), ok), err(s2)]
        return out
    return Contract('RungeKuttaFehlberg::calc_rkf_solution', k_step(e), eff)


def c_dt_recorded(e):
    """TimeStep::calc_dt_expl with its inputs recorded"""
    base = c_dt_expl(e).effect

    def eff(e, st, args, genv, pre):
        u, m = e.deref(st, args[1]), e.deref(st, args[2])
        outs = base(e, st, args, genv, pre)
        for o in outs: o.st.event('cfl', u, m, e.v.get(e.deref(o.st, args[0]), 'dt'))
        return outs
    return Contract('TimeStep::calc_dt_expl', e.prog.method(TS, 'calc_dt_expl'), eff)


def c_validate_recorded(e):
    def eff(e, st, args, genv, pre):
        n = count(st, 'validate')
        st.event('validate', e.deref(st, args[0]))
        ok = e.fresh('valid!%d' % n, B)
        return [Out(st, Ok(UNIT), ok), Out(st.clone(), Err(Opaque('err', ())), bnot(ok))]
    return Contract('State::validate', e.prog.method(STATE, 'validate', 'Validation'), eff)


def next_setup(e, ph, asc):
    st, genv, E, S = setup(e, ph)
    ghost = e.new_cell(st, Adt('$ghost', 0, (False, Fl(z3.Real('ghost')))))
    for c in (c_step(e, ph, ghost), c_dt_recorded(e), c_cap(e), c_validate_recorded(e), c_state_full(e, 'update_vars_from_cons')): e.contracts[c.key] = c
    install_bc(e)
    ts = sym_ts(e, st)
    for c in (flt(fc(0), e.v.get(ts, 't_next_output')), flt(fc(0), e.v.get(ts, 'dt_min')), flt(fc(0), e.v.get(ts, 'dt_max')), flt(e.v.get(ts, 't'), e.v.get(ts, 't_end')), flt(e.v.get(ts, 't'), e.v.get(ts, 't_next_output'))):
        st.assume(zb(c))
    e.facts.append(Fact(True, (1,), lambda k: True, 'domain: step limits are positive (validated), the next output time is positive and, like the end time, not yet reached (main loop)'))
    tr = named(e, st, ts, 'time step')
    ur = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state'); u = e.deref(st, ur)
    v = sym_rkf(e, st, genv, u, 2, bnot(asc) if isinstance(asc, bool) else True)
    v = e.v.set(v, bt=e.v.set(e.v.get(v, 'bt'), asc=asc))
    me = named(e, st, v, 'time integrator')
    rr = named(e, st, sym_rhs(e, st, genv), 'right hand side')
    mr = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
    g = with_n(genv); g['Self'] = ['adt', e.prog.adt(RKF), [genv['P'], genv['E'], genv['S']]]
    return st, g, E, S, me, tr, ur, rr, mr, ts, u, ghost


def updated(e, s, ph, u, sol, genv, mr):
    """the state after update_vars_from_cons with the given conserved variables (ghost values as in this run)"""
    x = State(); x.pc = list(s.pc)
    r = named(e, x, e.v.set(u, cent=e.v.set(e.v.get(u, 'cent'), cons=sol)), 'expected')
    eff_state_update('cent', FULL['update_vars_from_cons'])(e, x, [r, bc_box(e, x, 'west'), bc_box(e, x, 'east'), mr], genv, None)
    return e.deref(x, r)


def capped_goals(e, ts, d, t):
    g = lambda n: e.v.get(ts, n)
    return [('does not exceed the maximum width', fle(d, g('dt_max'))), ('does not jump past the end time', fle(d, fsub(g('t_end'), t))), ('does not jump past the next output time', fle(d, fsub(g('t_next_output'), t)))]


def next_post(e, nm, ph, outs, pre, g, me, tr, ur, rr, mr, ts, u, asc):
    oks = 0
    for s, kind, v in outs:
        if kind != 'ret' or not e.feasible(s): continue
        ts2, u2 = e.deref(s, tr), e.deref(s, ur)
        frame_ok(e, pre, s, [mr.cell], nm)
        for b in ('boundary_west', 'boundary_east'): compare(e, s, '%s: %s unchanged' % (nm, b), e.v.get(e.deref(s, rr), b), e.v.get(e.deref(pre, rr), b), s, pre)
        for f in e.prog.fields(TS):
            if f not in ('iter', 't', 'dt', 'dt_kind'): compare(e, s, '%s: %s unchanged' % (nm, f), e.v.get(ts2, f), e.v.get(ts, f), s, pre)
        compare(e, s, '%s: iterations are counted' % nm, e.v.get(ts2, 'iter'), iadd(e.v.get(ts, 'iter'), 1), s, s)
        steps = [x for x in s.trace if x[0] == 'step']
        cfl = [x for x in s.trace if x[0] == 'cfl']
        for x in cfl:
            compare(e, s, '%s: CFL condition of the given state' % nm, x[1], u, s, s)
            compare(e, s, '%s: CFL condition on the given mesh' % nm, x[2], e.deref(s, mr), s, s)
        for x in steps + [y for y in s.trace if y[0] == 'trial']: compare(e, s, '%s: every attempt starts from the given state' % nm, x[2], u, s, s)
        if v.var != 0:
            compare(e, s, '%s: time is not advanced by a failing step' % nm, e.v.get(ts2, 't'), e.v.get(ts, 't'), s, s)
            vals = [x for x in s.trace if x[0] == 'validate']
            if not vals: compare(e, s, '%s: the state is kept when the step fails' % nm, u2, u, s, s)
            continue
        oks += 1
        dt2 = e.v.get(ts2, 'dt')
        e.oblige(s, '%s: the width comes from the CFL condition' % nm, len(cfl) >= 1)
        e.oblige(s, '%s: one step is taken' % nm, len(steps) == 1)
        if len(steps) != 1: continue
        compare(e, s, '%s: the step has the final width' % nm, steps[0][1], dt2, s, s)
        compare(e, s, '%s: time advances by the width' % nm, e.v.get(ts2, 't'), fadd(e.v.get(ts, 't'), dt2), s, s)
        e.oblige(s, '%s: time does not go backwards' % nm, fle(fc(0), dt2))
        for n, gl in capped_goals(e, ts, dt2, e.v.get(ts, 't')): e.oblige(s, '%s: the width %s' % (nm, n), gl)
        compare(e, s, '%s: new state' % nm, u2, updated(e, s, ph, u, steps[0][3], g, mr), s, s)
        last = s.trace[-1] if s.trace else ('',)
        e.oblige(s, '%s: the new state is validated' % nm, last[0] == 'validate')
        if last[0] == 'validate': compare(e, s, '%s: the final state is the validated one' % nm, last[1], u2, s, s)
        if not asc and cfl: compare(e, s, '%s: the capped CFL width' % nm, dt2, capped(e, e.v.set(ts, dt=cfl[-1][3])), s, s)
        w = e.deref(s, me)
        e.oblige(s, '%s: flag for the next step' % nm, bor(asc, e.v.get(w, 'solution_accepted')))
        for f in ('bt',) + FIELDS: compare(e, s, '%s: %s unchanged' % (nm, f), e.v.get(w, f), e.v.get(e.deref(pre, me), f), s, pre)
        for d in DIRS: compare(e, s, '%s: adiabatic index of the stages unchanged' % nm, e.v.get(w, 'utilde', d, 'gamma'), e.v.get(u, d, 'gamma'), s, s)
    if not oks: raise Unsupported('%s: no successful path' % nm)
    e.covered.add(k_next(e))


for ph in PHYS:
    @unit('next.%s.fixed' % ph, ['C11', 'C13', 'C14', 'C15', 'C17', 'C09'], 'RungeKuttaFehlberg::next_solution without step control: one step of the capped CFL width, variables updated, validated, time and iteration advanced')
    def _(e, ph=ph):
        st, g, E, S, me, tr, ur, rr, mr, ts, u, ghost = next_setup(e, ph, False)
        pre = st.clone()
        nm = 'RungeKuttaFehlberg::next_solution [%s]' % ph
        outs = e.exec_fn(st, k_next(e), g, [me, tr, ur, rr, mr])
        next_post(e, nm, ph, outs, pre, g, me, tr, ur, rr, mr, ts, u, False)

    @unit('next.%s.controlled' % ph, ['C12', 'C13', 'C14', 'C15', 'C17', 'C11'], 'RungeKuttaFehlberg::next_solution with step control: accepted only below the tolerance, repeated with the new width, capped, one final step from the given state')
    def _(e, ph=ph):
        st, g, E, S, me, tr, ur, rr, mr, ts, u, ghost = next_setup(e, ph, True)
        pre = st.clone()
        nm = 'RungeKuttaFehlberg::next_solution, controlled [%s]' % ph

        def inv(e, s):
            v, t, gh = e.deref(s, me), e.deref(s, tr), s.cells[ghost]
            acc, d = e.v.get(v, 'solution_accepted'), e.v.get(t, 'dt')
            out = [('an accepted trial was below the tolerance', bimp(acc, flt(e.v.get(v, 'err_new'), fc(1)))), ('an accepted trial was made in this step', bimp(acc, gh.fields[0])),
                   ('the next trial has the new width', bimp(band(gh.fields[0], bnot(acc)), fsame(d, gh.fields[1])))]
            out += [('a width is not negative', fle(fc(0), d)), ('the width of the next trial is positive', bor(acc, flt(fc(0), d)))]
            return out + [('an accepted width ' + n, bimp(acc, gl)) for n, gl in capped_goals(e, ts, d, e.v.get(ts, 't'))]

        def dom(e, s):
            n = e.v.get(e.deref(s, me), 'n_asc')
            return [('fewer than 2^63 trials per step', icmp('lt', n, 2 ** 63)), ('', icmp('ge', n, 0))]

        e.while_rule = WhileRule('time integrator', inv, dom)
        outs = e.exec_fn(st, k_next(e), g, [me, tr, ur, rr, mr])
        e.while_rule = None

        for s, kind, v in outs:
            if kind == 'ret' and v.var == 0 and e.feasible(s):
                e.oblige(s, '%s: the accepted trial was below the tolerance' % nm, band(s.cells[ghost].fields[0], flt(e.v.get(e.deref(s, me), 'err_new'), fc(1))))
        next_post(e, nm, ph, outs, pre, g, me, tr, ur, rr, mr, ts, u, True)
