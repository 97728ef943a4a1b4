"""CFL condition and time step bookkeeping."""
from u_flux import *

TS = '@time::timestep::TimeStep'


def sym_ts(e, st, name='t'):
    p = e.prog
    v = unspecified(e, TS)
    for n in p.fields(TS):
        ty = [f[1] for f in p.adts[p.adt(TS)]['variants'][0]['fields'] if f[0] == n][0]
        if ty == 'f64': v = e.v.set(v, **{n: Fl(z3.Real('%s.%s' % (name, n)))})
        elif ty == 'usize':
            x = z3.Int('%s.%s' % (name, n)); st.assume(z3.And(x >= 0, x < 2 ** 63)); v = e.v.set(v, **{n: x})
        else: v = e.v.set(v, **{n: Adt(p.adt('DtKind'), p.variant('DtKind', 'Init'), ())})
    return v


def exists_goal(e, st, name, shape, pred, kind='post'):
    """obligation: some index of the shape satisfies pred"""
    g = e.fresh('none', B)
    f = Fact(g, shape, lambda k: bnot(pred(k)), ''); f.rows = True
    e.facts.append(f)
    e.oblige(st.clone().assume(g), name, False, kind)


def speed(e, u, mesh, k):
    """max(|v-c|,|v+c|) / cell width"""
    ev, cw = e.v.get(u, 'cent', 'eigen_vals'), e.v.get(mesh, 'cell_width_inv')
    E = ev.shape[0]
    return fmul(fmax2(fabs(ev.get((0, k))), fabs(ev.get((E - 1, k)))), cw.get((k,)))


for ph in PHYS:
    @unit('cfl.%s' % ph, ['C24', 'C13'], 'State::calc_dt_cfl: c divided by the largest max(|v-c|,|v+c|)/width over all cells')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        st.assume(S < 2 ** 53)
        mesh, mr = the_mesh(e, st, S)
        ur = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state'); u = e.deref(st, ur)
        moving(e, e.v.get(u, 'cent'), 'cell')
        c = Fl(z3.Real('c_cfl')); st.assume(rlt(rv(0), c.v))
        pre = st.clone()
        outs = e.exec_fn(st, state_fn(e, 'calc_dt_cfl'), genv, [ur, c, mr])
        n = 0
        for s, kind, v in outs:
            if kind != 'ret' or not e.feasible(s): continue
            n += 1
            if v.var != 0: e.oblige(s, 'State::calc_dt_cfl [%s]: Ok for finite moving flow' % ph, False); continue
            dt = v.fields[0]
            k = e.fresh('k', I); e.add_index(k); s.assume(models.in_range((k,), (S,)))
            e.add_index(z3.IntVal(0))
            sp = speed(e, u, mesh, k)
            nm = 'State::calc_dt_cfl [%s]: ' % ph
            e.oblige(s, nm + 'no wave of any cell travels further than c cell widths', rle(rmul(dt.v, sp.v), c.v))
            e.oblige(s, nm + 'the step is positive', rlt(rv(0), dt.v))
            exists_goal(e, s, nm + 'some cell attains the bound', (S,), lambda k: req(rmul(dt.v, speed(e, u, mesh, k[0]).v), c.v))
            frame_ok(e, pre, s, [ur.cell, mr.cell], 'State::calc_dt_cfl')
        if not n: raise Unsupported('no path returns')
        e.covered.add(state_fn(e, 'calc_dt_cfl'))

    @unit('cfl.finite.%s' % ph, ['C17', 'C13', 'C24'], 'State::calc_dt_cfl returns Ok only with a finite step (nan and infinities modelled)')
    def _(e, ph=ph):
        XREAL[0] = True
        st, genv, E, S = setup(e, ph)
        u = named(e, st, sym_state(e, st, genv, 'u', (E, S), True), 'state')
        m = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S), True), 'mesh')
        ensure(e, state_fn(e, 'calc_dt_cfl'), st, [u, flagged_fl('c_cfl'), m], genv, 'State::calc_dt_cfl', lambda s, v: [('finite', v.fields[0].finite)] if v.var == 0 else [])


def cfl_outcome(e, fixed): return (z3.Bool('cfl_ok'), z3.Real('dt_cfl')) if fixed else (e.fresh('cfl_ok', B), e.fresh('dt_cfl', R))


def c_cfl(e, fixed=False):
    """abstract contract: Ok(dt) with some finite dt or an error; the state is not changed"""
    def eff(e, st, args, genv, pre):
        ok, d = cfl_outcome(e, fixed)
        return [Out(st, Ok(Fl(d)), ok), Out(st.clone(), Err(Opaque('err', ())), bnot(ok))]
    return Contract('State::calc_dt_cfl', state_fn(e, 'calc_dt_cfl'), eff)


def numerics_config(e, st):
    p = e.prog
    k = p.adt('NumericsConfig')
    v = unspecified(e, k)
    for n in ('t0', 't_end', 'dt_min', 'dt_max', 'dt_cfl_param'): v = e.v.set(v, **{n: Fl(z3.Real('config.' + n))})
    x = z3.Int('config.iter_max'); st.assume(z3.And(x >= 0, x < 2 ** 63))
    return e.v.set(v, iter_max=x)


def new_ts(e, cfg, count):
    g = lambda n: e.v.get(cfg, n)
    v = unspecified(e, TS)
    return e.v.set(v, iter=0, iter_max=g('iter_max'), t=g('t0'), t_end=g('t_end'), dt=fc(0), dt_min=g('dt_min'), dt_max=g('dt_max'), dt_cfl_param=g('dt_cfl_param'),
                   dt_kind=e.prog.enum('DtKind', 'Init'), dt_output=fdiv(fsub(g('t_end'), g('t0')), ffrom_int(count)), t_next_output=g('t0'))


def c_ts_new(e): return Contract('TimeStep::new', e.prog.method(TS, 'new'), lambda e, st, args, genv, pre: [Out(st, new_ts(e, e.deref(st, args[0]), args[1]))])


@unit('timestep.new', ['C20', 'C13', 'C14'], 'TimeStep::new: start, end, limits and output interval are those of the configuration')
def _(e):
    st = State()
    cfg = numerics_config(e, st)
    n = z3.Int('output_counter_max'); st.assume(z3.And(n >= 1, n < 2 ** 53))
    verify(e, c_ts_new(e), st, [named(e, st, cfg, 'numerics configuration'), n], {})


def capped(e, ts):
    """smallest of the width, the maximum, the time to the end and the time to the next output"""
    g = lambda n: e.v.get(ts, n)
    d = fmin2(fmin2(g('dt'), g('dt_max')), fsub(g('t_end'), g('t')))
    return fmin2(d, fsub(g('t_next_output'), g('t')))


def eff_cap(e, st, args, genv, pre):
    r = e.strip(st, args[0]); ts = e.read(st, r)
    e.write(st, r, e.v.set(ts, dt=capped(e, ts)))
    return [Out(st)]


def c_cap(e): return Contract('TimeStep::cap_dt', e.prog.method(TS, 'cap_dt'), eff_cap)


@unit('timestep.cap', ['C13', 'C12', 'C14'], 'TimeStep::cap_dt: the smallest of the width, the maximum, the time to the end and the time to the next output')
def _(e):
    st = State()
    ts = sym_ts(e, st)
    st.assume(rlt(rv(0), e.v.get(ts, 't_next_output').v))
    e.facts.append(Fact(True, (1,), lambda k: True, 'domain: the next output time is positive'))
    verify(e, c_cap(e), st, [named(e, st, ts, 'time step')], {})


def c_dt_expl(e, fixed=False):
    """Ok with the CFL width if it is not below the minimum, an error otherwise; nothing but dt and dt_kind changes"""
    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[0]); ts = e.read(st, r)
        ok, d = cfl_outcome(e, fixed); d = Fl(d)
        s1, s2 = st, st.clone()
        e.write(s1, r, e.v.set(ts, dt=d, dt_kind=e.prog.enum('DtKind', 'Cfl')))
        e.write(s2, r, e.v.set(ts, dt=HavocFl(rv(0)) if fixed else Fl(e.fresh('dt_failed', R))))
        small = flt(d, e.v.get(ts, 'dt_min'))
        return [Out(s1, Ok(UNIT), band(ok, bnot(small))), Out(s2, Err(Opaque('err', ())), bor(bnot(ok), small))]
    return Contract('TimeStep::calc_dt_expl', e.prog.method(TS, 'calc_dt_expl'), eff)


@unit('timestep.calc_dt_expl', ['C13', 'C12', 'C24'], 'TimeStep::calc_dt_expl: the CFL width, or an error if there is none or it is below the minimum; time is not advanced')
def _(e):
    for ph in PHYS:
        st, genv, E, S = setup(e, ph)
        e.contracts[c_cfl(e).key] = c_cfl(e, True)
        ts = sym_ts(e, st)
        a = [named(e, st, ts, 'time step'), named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state'), named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')]
        verify(e, c_dt_expl(e, True), st, a, genv, ph)
