"""Construction of the solver, initialisation of a simulation and the main loop."""
from u_next import *

SOLVER, WRITER = '@solver::Solver', '@writer::Writer'
TT = ['abstract', 'T']
ERR = Err(Opaque('err', ()))
conf = Opaque('configuration', '')


def gen(genv, **kw):
    g = dict(genv); g['N'] = NFT; g['T'] = TT
    g.update(kw)
    return g


def called(e, name, key, ret, failing=True):
    """contract of a function of which only matters with what it is called, whether it fails and what it returns"""
    def eff(e, st, args, genv, pre):
        st.event(name, *[e.deref(st, a) if isinstance(a, Ref) else a for a in args])
        v = ret(e, st, args, genv) if callable(ret) else ret
        if not failing: return [Out(st, v)]
        ok = z3.Bool('%s succeeds' % name)
        return [Out(st, Ok(v), ok), Out(st.clone(), ERR, bnot(ok))]
    c = Contract(name, key, eff)
    e.contracts[key] = c
    return z3.Bool('%s succeeds' % name)


def result_goals(e, outs, nm, oks, post):
    """Ok exactly if every component succeeds; post checks the successful results"""
    n = 0
    for s, kind, v in outs:
        if kind != 'ret' or not e.feasible(s): continue
        e.oblige(s, '%s: Ok if and only if every component succeeds' % nm, beq(v.var == 0, band(*oks)))
        if v.var == 0: n += 1; post(s, v.fields[0])
    if not n: raise Unsupported('%s: no successful path' % nm)


def events(s, name): return [x[1:] for x in s.trace if x[0] == name]


def one_event(e, s, nm, name, want):
    ev = events(s, name)
    e.oblige(s, '%s: %s exactly once' % (nm, name), len(ev) == 1)
    if len(ev) == 1:
        for a, b in zip(ev[0], want):
            if b is not None: compare(e, s, '%s: argument of %s' % (nm, name), a, b, s, s)


def whole_config(e, st):
    """configuration with recognisable parts"""
    v = blank(e, 'CorriesConfig')
    pc, _ = sym_physics_config(e, st)
    n = z3.Int('output_counter_max'); st.assume(z3.And(n >= 1, n < 2 ** 53))
    v = e.v.set(v, physics_config=pc, mesh_config=blank(e, 'MeshConfig'), output_counter_max=n, print_banner=z3.Bool('print_banner'), writer_config=SymList('writer_config', z3.Int('outputs'), []))
    k = e.prog.adt('NumFluxConfig')
    num = e.v.set(numerics_config(e, st), numflux_config=Adt(k, e.prog.variant(k, 'Hll'), ()))
    v = e.v.set(v, numerics_config=num)
    return v


def blank_mesh(e, st, genv, E, S): return sym_mesh(e, st, genv, 'mesh', (E, S))


def trait_ret(e, tag): return lambda e, st, args, genv: Adt(tag, 0, ())


for ph in PHYS:
    @unit('rhs.new.%s' % ph, ['C20', 'C05'], 'Rhs::new: flux scheme of the configuration, boundary conditions on their sides; a refused scheme is an error')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        cfg = whole_config(e, st)
        mr = named(e, st, blank_mesh(e, st, genv, E, S), 'mesh'); cr = named(e, st, cfg, 'configuration')
        ok = called(e, 'NumFlux::new', trait_key(e, 'NumFlux', 'new'), trait_ret(e, '$numflux'))
        called(e, 'init_boundary_condition', e.prog.free('boundaryconditions::init_boundary_condition'),
               lambda e, st, args, g: Adt('$bc', 0, (args[0],)), False)
        nm = 'Rhs::new [%s]' % ph
        g = gen(genv)
        outs = e.exec_fn(st, e.prog.method(RHS, 'new'), g, [cr, mr])

        def post(s, v):
            one_event(e, s, nm, 'NumFlux::new', [e.v.get(cfg, 'numerics_config', 'numflux_config'), e.deref(s, mr)])
            for a, b in events(s, 'init_boundary_condition'): compare(e, s, nm + ': configuration of the boundary conditions', b, cfg, s, s)
            for side in ('west', 'east'):
                x = e.v.get(v, 'boundary_' + side)
                while isinstance(x, (BoxV, Ref)): x = e.deref1(s, x)
                compare(e, s, '%s: boundary condition %s' % (nm, side), x, Adt('$bc', 0, (direction(e, side),)), s, s)
            sh = e.v.get(v, 'full_rhs').shape
            e.oblige(s, nm + ': room for every cell', band(icmp('eq', sh[0], E), icmp('eq', sh[1], S)))
        result_goals(e, outs, nm, [ok], post)
        e.covered.add(e.prog.method(RHS, 'new'))

    @unit('solver.new.%s' % ph, ['C20', 'C13'], 'Solver::new: time step, time integrator and right hand side of the configuration; a failing component is an error')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        cfg = whole_config(e, st)
        mr = named(e, st, blank_mesh(e, st, genv, E, S), 'mesh'); cr = named(e, st, cfg, 'configuration')
        e.contracts[c_ts_new(e).key] = c_ts_new(e)
        a = called(e, 'TimeSolver::new', trait_key(e, 'TimeSolver', 'new'), trait_ret(e, '$timesolver'))
        b = called(e, 'Rhs::new', e.prog.method(RHS, 'new'), trait_ret(e, '$rhs'))
        nm = 'Solver::new [%s]' % ph
        outs = e.exec_fn(st, e.prog.method(SOLVER, 'new'), gen(genv), [cr, mr])

        def post(s, v):
            one_event(e, s, nm, 'TimeSolver::new', [cfg])
            one_event(e, s, nm, 'Rhs::new', [cfg, e.deref(s, mr)])
            compare(e, s, nm + ': time step', e.v.get(v, 'timestep'), new_ts(e, e.v.get(cfg, 'numerics_config'), e.v.get(cfg, 'output_counter_max')), s, s)
            compare(e, s, nm + ': time integrator', e.v.get(v, 'time_solver'), Adt('$timesolver', 0, ()), s, s)
            compare(e, s, nm + ': right hand side', e.v.get(v, 'rhs'), Adt('$rhs', 0, ()), s, s)
        result_goals(e, outs, nm, [a, b], post)
        e.covered.add(e.prog.method(SOLVER, 'new'))


# ---------------------------------------------------------------- one step through the solver
def sym_solver(e, st, genv, ts):
    v = blank(e, SOLVER)
    return e.v.set(v, timestep=ts, time_solver=Adt('$timesolver', 0, ()), rhs=sym_rhs(e, st, genv), phantom_type=Adt('std::marker::PhantomData', 0, ()))


def advance(e, st, tr, ur, n, ok, kind=None):
    """effect of a time step on time step and state: one more iteration; on success t advances by a width that meets the limits (contract of TimeSolver::next_solution)"""
    ts, u = e.read(st, tr), e.read(st, ur)
    g = lambda f: e.v.get(ts, f)
    d = Fl(z3.Real('dt!%s' % n)); k = kind or Adt(e.prog.adt('DtKind'), e.prog.variant('DtKind', 'Cfl'), ())
    bad = st.clone()
    e.write(st, tr, e.v.set(ts, iter=iadd(g('iter'), 1), dt=d, t=fadd(g('t'), d), dt_kind=k))
    for _, gl in capped_goals(e, ts, d, g('t')): st.assume(zb(gl))
    st.assume(zb(fle(fc(0), d)))
    e.write(bad, tr, e.v.set(ts, iter=iadd(g('iter'), 1), dt=Fl(z3.Real('dt_failed!%s' % n)), dt_kind=k))
    for s, x in ((st, ''), (bad, 'failed!')):
        e.write(s, ur, Adt(u.key, u.var, [scratch(e, f, 'u!%s%s!%d' % (x, n, i), ['zero_vec']) if isinstance(f, Adt) and f.key == e.prog.adt(VARS) else f for i, f in enumerate(u.fields)]))
    return [(st, ok), (bad, bnot(ok))]


for ph in PHYS:
    @unit('solver.next.%s' % ph, ['C15', 'C11'], 'Solver::next_solution: the step of the time integrator; an error if the step fails or the iteration limit is reached')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        ts = sym_ts(e, st)
        sr = named(e, st, sym_solver(e, st, genv, ts), 'solver')
        ur = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state')
        mr = named(e, st, blank_mesh(e, st, genv, E, S), 'mesh')
        ok = z3.Bool('step_ok')

        def eff(e, s, args, g, pre):
            tr, ur_ = e.strip(s, args[1]), e.strip(s, args[2])
            s.event('next', *[e.deref(s, a) for a in args])
            return [Out(x, Ok(UNIT) if i == 0 else ERR, c) for i, (x, c) in enumerate(advance(e, s, tr, ur_, 0, ok))]
        key = trait_key(e, 'TimeSolver', 'next_solution')
        e.contracts[key] = Contract('TimeSolver::next_solution', key, eff)
        pre = st.clone()
        nm = 'Solver::next_solution [%s]' % ph
        want = dict((i, (s, c)) for i, (s, c) in enumerate(advance(e, pre.clone(), field_ref(e, sr, SOLVER, 'timestep'), ur, 0, ok)))
        lim = icmp('ge', iadd(e.v.get(ts, 'iter'), 1), e.v.get(ts, 'iter_max'))
        n = 0
        for s, kind, v in e.exec_fn(st, e.prog.method(SOLVER, 'next_solution'), gen(genv), [sr, ur, mr]):
            if kind != 'ret' or not e.feasible(s): continue
            n += 1
            e.oblige(s, nm + ': Ok if and only if the step succeeds and the iteration limit is not reached', beq(v.var == 0, band(ok, bnot(lim))))
            one_event(e, s, nm, 'next', [None, ts, e.deref(pre, ur), e.v.get(e.deref(pre, sr), 'rhs'), e.deref(pre, mr)])
            for i in (0, 1):
                s2 = s.clone().assume(zb(want[i][1]))
                if not e.feasible(s2): continue
                compare(e, s2, nm + ': solver', e.deref(s, sr), e.deref(want[i][0], sr), s, want[i][0])
                compare(e, s2, nm + ': state', e.deref(s, ur), e.deref(want[i][0], ur), s, want[i][0])
        if not n: raise Unsupported('no path returns')
        e.covered.add(e.prog.method(SOLVER, 'next_solution'))


# ---------------------------------------------------------------- initialisation
def init_key(e):
    for im in e.prog.impls:
        if im['self'][0] == 'adt' and im['self'][1] == e.prog.adt('CorriesConfig') and im['trait'] is None:
            for n, k in im['items']:
                if n == 'init_corries': return k
    raise LostAnchor('CorriesConfig::init_corries not found')


for ph in PHYS:
    @unit('init.corries.%s' % ph, ['C20', 'C16'], 'CorriesConfig::init_corries: nothing happens for a rejected configuration; components of the configuration; the initial condition once, then variables and ghost cells; every error is returned')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        cfg = whole_config(e, st)
        cr = named(e, st, cfg, 'configuration')
        m0, u0 = blank_mesh(e, st, genv, E, S), sym_state(e, st, genv, 'u', (E, S))
        ts = sym_ts(e, st); s0 = sym_solver(e, st, genv, ts)
        w0 = e.v.set(blank(e, WRITER), print_banner=z3.Bool('writer.print_banner'))
        c = c_pred(e, 'CorriesConfig', lambda w: z3.Bool('configuration accepted')); e.contracts[c.key] = c
        valid = z3.Bool('configuration accepted')
        oks = [valid, called(e, 'Mesh::new', e.prog.method(MESH, 'new'), m0), called(e, 'Solver::new', e.prog.method(SOLVER, 'new'), s0), called(e, 'Writer::new', e.prog.method(WRITER, 'new'), w0),
               called(e, 'write_metadata', e.prog.method(WRITER, 'write_metadata'), UNIT)]
        called(e, 'State::new', state_fn(e, 'new'), u0, False)
        for x in (c_state_full(e, 'update_vars_from_prim'), c_init_we(e)): e.contracts[x.key] = x
        install_bc(e)
        P1 = LamArr((E, S), BaseArr('initial.prim', (E, S)).get); C1 = BaseArr('initial.c_sound', (S,))
        oki = z3.Bool('initial condition succeeds'); oks.append(oki)

        def init_fn(e, s, args):
            """the user's initial condition: any primitive state and sound speed"""
            s.event('init_fn', e.deref(s, args[0]), e.deref(s, args[1]), e.deref(s, args[2]))
            r = e.strip(s, args[0]); u = e.read(s, r)
            e.write(s, r, e.v.set(u, cent=e.v.set(e.v.get(u, 'cent'), prim=P1, c_sound=C1)))
            a, b = s, s.clone()
            return [(x, 'ret', v) for x, v, c in ((a.assume(oki), Ok(UNIT), 0), (b.assume(z3.Not(oki)), ERR, 0)) if e.feasible(x)]
        nm = 'CorriesConfig::init_corries [%s]' % ph
        outs = e.exec_fn(st, init_key(e), gen(genv), [cr, Opaque('fnval', init_fn)])
        for s, kind, v in outs:
            if kind != 'ret' or not e.feasible(s): continue
            if v.var != 0: e.oblige(s.clone().assume(z3.Not(valid)), nm + ': nothing is created or written for a rejected configuration', not [x for x in s.trace if x[0] != 'State::new'])
            e.oblige(s, nm + ': metadata and initial condition only after every component exists', e_order(s))

        def post(s, v):
            one_event(e, s, nm, 'Mesh::new', [e.v.get(cfg, 'mesh_config')])
            one_event(e, s, nm, 'Solver::new', [cfg, m0])
            one_event(e, s, nm, 'Writer::new', [cfg, m0])
            one_event(e, s, nm, 'write_metadata', [None])
            one_event(e, s, nm, 'init_fn', [u0, s0, m0])
            one_event(e, s, nm, 'State::new', [e.v.get(cfg, 'physics_config')])
            u, sol, m, w = v.fields
            compare(e, s, nm + ': mesh', m, m0, s, s)
            compare(e, s, nm + ': writer', w, w0, s, s)
            for f in ('timestep', 'time_solver'): compare(e, s, '%s: solver %s' % (nm, f), e.v.get(sol, f), e.v.get(s0, f), s, s)
            x = State(); x.pc = list(s.pc)
            r = named(e, x, e.v.set(u0, cent=e.v.set(e.v.get(u0, 'cent'), prim=P1, c_sound=C1)), 'expected')
            eff_state_update('cent', None)(e, x, [r, bc_box(e, x, 'west'), bc_box(e, x, 'east'), named(e, x, m0, 'm')], genv, None)
            eff_init_we(e, x, [r], genv, None)
            compare(e, s, nm + ': state', u, e.deref(x, r), s, x)
        result_goals(e, outs, nm, oks, post)
        e.covered.add(init_key(e))


def e_order(s):
    t = [x[0] for x in s.trace]
    for late in ('write_metadata', 'init_fn'):
        for early in ('Mesh::new', 'Solver::new', 'Writer::new'):
            if late in t and (early not in t or t.index(late) < t.index(early)): return False
    return True


# ---------------------------------------------------------------- the main loop
def run_key(e):
    for im in e.prog.impls:
        if im['trait'] and im['trait'][0].split('::')[-1] == 'Runner':
            for n, k in im['items']:
                if n == 'run_corries': return k
    raise LostAnchor('Runner::run_corries not found')


SHOWN = ('iter', 't', 'dt', 'dt_kind')


def same_moment(e, s, nm, got, ts): 
    for f in SHOWN: compare(e, s, '%s: %s of the output is current' % (nm, f), e.v.get(got, f), e.v.get(ts, f), s, s, 'assert')


for ph in PHYS:
    @unit('run.%s' % ph, ['C14', 'C15'], 'run_corries: outputs at the start, at every output time and at the end, each with current data; stops at the end or at the first error with one marked dump')
    def _(e, ph=ph):
        st, genv, E, S = setup(e, ph)
        p = e.prog
        nm = 'run_corries [%s]' % ph
        ts = sym_ts(e, st)
        g = lambda f: e.v.get(ts, f)
        N = z3.Int('output_counter_max'); t0, D = Fl(z3.Real('t0')), g('dt_output')
        st.assume(z3.And(N >= 1, N < 2 ** 53))
        # contract of TimeStep::new and Validation: the start of a run
        regular = Adt(p.adt('DtKind'), None, ())        # some kind other than an error dump; cannot be inspected
        ts = e.v.set(ts, t=t0, t_next_output=t0, iter=0, dt_kind=regular)
        for c in (rlt(rv(0), g('dt_min').v), rlt(g('dt_min').v, D.v), rle(rv(0), t0.v), req(g('t_end').v, radd(t0.v, rmul(z3.ToReal(N), D.v)))): st.assume(zb(c))
        st.assume(N * 1 >= 1); st.assume(zb(rle(D.v, rsub(g('t_end').v, t0.v))))
        e.facts.append(Fact(True, (1,), lambda k: True, 'domain: the output interval exceeds the minimum step width'))
        comp = tup(sym_state(e, st, genv, 'u', (E, S)), sym_solver(e, st, genv, ts), blank_mesh(e, st, genv, E, S), e.v.set(blank(e, WRITER), output_counter=0))
        me = named(e, st, comp, 'simulation')
        # ghost: outputs written, data collected last, failed step, outputs since
        gh = e.new_cell(st, Adt('$ghost', 0, (0, False, 0)))
        fld = lambda s, i: Ref(me.cell, me.path + (('f', i),), True)
        tsr = lambda: Ref(me.cell, me.path + (('f', 1), ('f', p.fidx(SOLVER, 'timestep'))), True)
        ur = lambda: Ref(me.cell, me.path + (('f', 0),), True)
        nominal = lambda w: radd(t0.v, rmul(z3.ToReal(zi(w)), D.v))

        def w_update(e, s, args, gv, pre):
            s.event('collect', *[e.deref(s, a) for a in args[1:4]])
            ok = e.fresh('collect_ok', B)
            b = s.clone(); broken(b)
            return [Out(s, Ok(UNIT), ok), Out(b, ERR, bnot(ok))]

        def broken(s):
            w, f, d = s.cells[gh].fields
            s.event('output failed')

        def w_write(e, s, args, gv, pre):
            w, f, d = s.cells[gh].fields
            last = s.trace[-1] if s.trace else ('',)
            e.oblige(s, nm + ': data are collected before they are written', last[0] == 'collect')
            t = e.deref(s, tsr())
            if last[0] == 'collect':
                compare(e, s, nm + ': the output shows the current state', last[1], e.v.get(e.deref(s, ur()), 'cent'), s, s, 'assert')
                same_moment(e, s, nm, last[2], t)
                compare(e, s, nm + ': the output shows the mesh', last[3], e.deref(s, fld(s, 2)), s, s, 'assert')
                dump = last[2].fields[p.fidx(TS, 'dt_kind')].var == p.variant('DtKind', 'ErrorDump')
                if f is False: e.oblige(s, nm + ': only an error dump is marked as one', not dump)
                elif f is True:
                    e.oblige(s, nm + ': the output after a failing step is marked as an error dump', dump)
            if f is False:
                tm = e.v.get(t, 't').v
                e.oblige(s, nm + ': no output beyond the last one', icmp('le', w, N))
                e.oblige(s, nm + ': an output is written when its time has been reached', band(rle(rsub(nominal(w), g('dt_min').v), tm), rle(tm, nominal(w))))
            s.event('write')
            ok = e.fresh('write_ok', B)
            b = s.clone(); broken(b)
            s.cells[gh] = Adt('$ghost', 0, (iadd(w, 1) if f is False else w, f, iadd(d, 1) if f is True else d))
            return [Out(s, Ok(UNIT), ok), Out(b, ERR, bnot(ok))]

        def next_sol(e, s, args, gv, pre):
            w, f, d = s.cells[gh].fields
            t = e.deref(s, tsr())
            e.oblige(s, nm + ': no step is taken after a failing one', f is False)
            e.oblige(s, nm + ': no step is taken after the end time', flt(e.v.get(t, 't'), g('t_end')))
            e.oblige(s, nm + ': a step is taken by the simulation on its state and mesh', all(isinstance(a, Ref) and e.strip(s, a) == b or path_same(e, s, a, b) for a, b in zip(args, (fld(s, 1), fld(s, 0), fld(s, 2)))))
            e.oblige(s, nm + ': a step is taken only before the next output time', flt(e.v.get(t, 't'), e.v.get(t, 't_next_output')))
            n = e.fresh_n; e.fresh_n += 1
            ok = z3.Bool('solver_ok!%d' % n)
            sol = e.strip(s, args[0])
            res = advance(e, s, Ref(sol.cell, sol.path + (('f', p.fidx(SOLVER, 'timestep')),), True), e.strip(s, args[1]), n, ok, regular)
            (a, ca), (b, cb) = res
            a.assume(zb(flt_int(e, a, tsr)))
            b.cells[gh] = Adt('$ghost', 0, (w, True, 0))
            # a step that reaches the iteration limit fails although time has advanced
            c = a.clone(); c.cells[gh] = b.cells[gh]
            lim = z3.Bool('limit!%d' % n)
            return [Out(a, Ok(UNIT), band(ca, bnot(lim))), Out(c, ERR, band(ca, lim)), Out(b, ERR, cb)]

        def flt_int(e, s, tsr):
            n = e.v.get(e.deref(s, tsr()), 'iter')
            return icmp('lt', n, 2 ** 63)

        for name, k, f in (('Writer::update_data', p.method(WRITER, 'update_data'), w_update), ('Writer::write_output', p.method(WRITER, 'write_output'), w_write), ('Solver::next_solution', p.method(SOLVER, 'next_solution'), next_sol)):
            e.contracts[k] = Contract(name, k, f)

        def inv(e, s):
            w, f, d = s.cells[gh].fields
            t = e.deref(s, tsr()); h = lambda n: e.v.get(t, n)
            fin = icmp('eq', w, isub(iadd(N, 2), 1))
            out = [('no failing step so far', bnot(f) if not isinstance(f, bool) else not f), ('number of outputs', band(icmp('le', 0, w), icmp('le', w, iadd(N, 1)))),
                   ('next output time', bimp(icmp('le', w, N), req(h('t_next_output').v, nominal(w)))),
                   ('no output time after the last output', bimp(fin, req(h('t_next_output').v, radd(g('t_end').v, D.v)))),
                   ('the last output was written at the end', bimp(fin, rle(rsub(g('t_end').v, g('dt_min').v), h('t').v))),
                   ('time does not pass the next output time', rle(h('t').v, h('t_next_output').v)), ('time does not pass the end', rle(h('t').v, g('t_end').v)),
                   ('iterations', icmp('le', 0, h('iter')))]
            return out

        def mark(e, head): head.trace = (('loop',),)
        e.while_rule = WhileRule(nm, inv, None, mark)
        pre = st.clone()
        outs = e.exec_fn(st, run_key(e), gen(genv), [me])
        e.while_rule = None
        n = 0
        for s, kind, v in outs:
            if kind != 'ret' or not e.feasible(s): continue
            w, f, d = s.cells[gh].fields
            t = e.deref(s, tsr())
            failed_out = bool(events(s, 'output failed'))
            if v.var == 0:
                n += 1
                e.oblige(s, nm + ': success only if every step succeeded', bnot(f) if not isinstance(f, bool) else not f)
                e.oblige(s, nm + ': success only if every output succeeded', not failed_out)
                e.oblige(s, nm + ': output_counter_max + 1 outputs', icmp('eq', w, iadd(N, 1)))
                e.oblige(s, nm + ': the run stops at the end time', band(rle(rsub(g('t_end').v, g('dt_min').v), e.v.get(t, 't').v), rle(e.v.get(t, 't').v, g('t_end').v)))
            else:
                e.oblige(s, nm + ': an error only after a failing step or output', True if (f is True or failed_out) else f if f is not False else False)
                if f is True and not failed_out: e.oblige(s, nm + ': one error dump after a failing step', icmp('eq', d, 1))
        if not n: raise Unsupported('no successful path')
        e.covered.add(run_key(e))


def path_same(e, s, a, b):
    a = e.strip(s, a)
    return isinstance(a, Ref) and a.cell == b.cell and len(a.path) == len(b.path) and all(path_eq(x, y) for x, y in zip(a.path, b.path))
