"""Configuration: validation accepts exactly the admissible parameters (nan and infinities modelled); default configurations."""
from u_time import *


def blank(e, name, var=0):
    return unspecified(e, name, var)


def vkey(e, name): return e.prog.method(name, 'validate', 'Validation')


def c_pred(e, name, cond):
    """Ok if and only if cond(value)"""
    def eff(e, st, args, genv, pre):
        c = cond(e.deref(st, args[0]))
        return [Out(st, Ok(UNIT), c), Out(st.clone(), Err(Opaque('err', ())), bnot(c))]
    return Contract('%s::validate' % name, vkey(e, name), eff)


def fl_unit(uid, title):
    def deco(f):
        @unit(uid, ['C16'], title + ' (nan and infinities modelled)')
        def _(e):
            XREAL[0] = True
            f(e)
        return f
    return deco


def pos(e, v, n): return ('%s > 0' % n, (), lambda k: flt(fc(0), e.v.get(v, n)))


def val(e, name, v, checks):
    st = State()
    verify_validate(e, name + '::validate', vkey(e, name), st, [named(e, st, v, name)], {}, checks)


@fl_unit('config.mesh', 'MeshConfig::validate: Ok if and only if xi_in < xi_out')
def _(e):
    v = e.v.set(blank(e, 'MeshConfig'), mode=e.prog.enum('MeshMode', 'Cartesian'), xi_in=flagged_fl('xi_in'), xi_out=flagged_fl('xi_out'))
    val(e, 'MeshConfig', v, [('xi_in < xi_out', (), lambda k: flt(e.v.get(v, 'xi_in'), e.v.get(v, 'xi_out')))])


@fl_unit('config.physics', 'PhysicsConfig::validate: Ok if and only if 1 < gamma < 2')
def _(e):
    v = e.v.set(blank(e, 'PhysicsConfig'), adiabatic_index=flagged_fl('gamma'))
    g = e.v.get(v, 'adiabatic_index')
    val(e, 'PhysicsConfig', v, [('1 < gamma', (), lambda k: flt(fc(1), g)), ('gamma < 2', (), lambda k: flt(g, fc(2)))])


def limiters(e):
    p = e.prog; k = p.adt('LimiterMode'); th = flagged_fl('theta')
    for x in p.adts[k]['variants']:
        v = Adt(k, p.variant(k, x['name']), (th,) if x['fields'] else ())
        yield x['name'], v, ([('the Monocent parameter exceeds 1', (), lambda k: flt(fc(1), th))] if x['name'] == 'Monocent' else [])


def numfluxes(e):
    p = e.prog; k = p.adt('NumFluxConfig')
    yield 'Hll', Adt(k, p.variant(k, 'Hll'), ()), []
    for n, lv, ch in limiters(e): yield 'Kt/' + n, Adt(k, p.variant(k, 'Kt'), (lv,)), ch


@fl_unit('config.numflux', 'LimiterMode::validate and NumFluxConfig::validate: a Monocent parameter must exceed 1, everything else is accepted')
def _(e):
    for n, v, ch in limiters(e): val(e, 'LimiterMode', v, ch)
    for n, v, ch in numfluxes(e): val(e, 'NumFluxConfig', v, ch)


ASC = ('asc_relative_tolerance', 'asc_absolute_tolerance', 'asc_timestep_friction')


def rkf_config(e, asc=None, mode=None, flagged=True):
    v = blank(e, 'RkfConfig')
    f = flagged_fl if flagged else (lambda n: Fl(z3.Real(n)))
    v = e.v.set(v, asc=z3.Bool('asc') if asc is None else asc, **{n: f(n) for n in ASC})
    return e.v.set(v, rkf_mode=e.prog.enum('RKFMode', mode)) if mode else v


@fl_unit('config.rkf', 'RkfConfig::validate and TimeIntegrationConfig::validate: Ok if and only if tolerances and friction are positive')
def _(e):
    v = rkf_config(e)
    ch = [pos(e, v, n) for n in ASC]
    val(e, 'RkfConfig', v, ch)
    c = c_pred(e, 'RkfConfig', lambda x: z3.Bool('rkf_admissible'))
    e.contracts[c.key] = c
    k = e.prog.adt('TimeIntegrationConfig')
    val(e, 'TimeIntegrationConfig', Adt(k, e.prog.variant(k, 'Rkf'), (v,)), [('the Runge-Kutta-Fehlberg part is admissible', (), lambda k: z3.Bool('rkf_admissible'))])


def numerics_checks(e, v):
    g = lambda n: e.v.get(v, n)
    return [('iter_max > 0', (), lambda k: icmp('lt', 0, g('iter_max'))), ('t0 >= 0', (), lambda k: fle(fc(0), g('t0'))), ('t_end > t0', (), lambda k: flt(g('t0'), g('t_end')))] + \
        [pos(e, v, n) for n in ('dt_min', 'dt_max', 'dt_cfl_param')]


@fl_unit('config.numerics', 'NumericsConfig::validate: Ok if and only if iteration limit, times, step limits, CFL number, flux and time integration parts are admissible')
def _(e):
    st = State()
    v = blank(e, 'NumericsConfig')
    x = z3.Int('iter_max'); st.assume(z3.And(x >= 0, x < 2 ** 64))
    v = e.v.set(v, iter_max=x, **{n: flagged_fl(n) for n in ('t0', 't_end', 'dt_min', 'dt_max', 'dt_cfl_param')})
    A, T = z3.Bool('numflux_admissible'), z3.Bool('time_integration_admissible')
    for c in (c_pred(e, 'NumFluxConfig', lambda w: A), c_pred(e, 'TimeIntegrationConfig', lambda w: T)): e.contracts[c.key] = c
    verify_validate(e, 'NumericsConfig::validate', vkey(e, 'NumericsConfig'), st, [named(e, st, v, 'NumericsConfig')], {},
                    numerics_checks(e, v) + [('the flux part is admissible', (), lambda k: A), ('the time integration part is admissible', (), lambda k: T)])


def data_list(e, name='data_names'):
    """arbitrary list of quantities; returns the list and the predicate 'quantity i is a vector'"""
    p = e.prog; k = p.adt('DataName')
    n = z3.Int(name + '.len')
    kind, eq = z3.Function(name + '.kind', I, I), z3.Function(name + '.eq', I, I)
    alts, vec = [], []
    for i, x in enumerate(p.adts[k]['variants']):
        if x['name'] in ('XiCent', 'XiWest', 'XiEast', 'Prim', 'Cons', 'CSound'): vec.append(i)
        alts.append((lambda j, i=i: kind(zi(j)) == i, lambda j, i=i, x=x: Adt(k, i, (eq(zi(j)),) if x['fields'] else ())))
    return n, SymList(name, n, alts), lambda j: bor(*[kind(zi(j)) == i for i in vec])


@unit('config.output', ['C16'], 'OutputConfig::validate: Ok if and only if file outputs name a folder and a file and scalar outputs contain no vectors; any number of quantities', budget=120)
def _(e):
    p = e.prog
    for sm in ('Stdout', 'File'):
        for cm in ('Scalar', 'Vector'):
            st = State()
            n, names, vec = data_list(e); st.assume(n >= 0)
            v = e.v.set(blank(e, 'OutputConfig'), stream_mode=p.enum('StreamMode', sm), string_conversion_mode=p.enum('ToStringConversionMode', cm),
                        folder_name=StrV(Opaque('sym', 'folder')), file_name=StrV(Opaque('sym', 'file')), data_names=names)
            ch = []
            if sm == 'File': ch += [('a folder is named', (), lambda k: bnot(z3.Bool('empty!folder'))), ('a file is named', (), lambda k: bnot(z3.Bool('empty!file')))]
            if cm == 'Scalar': ch += [('scalar output contains no vector', (n,), lambda k: bnot(vec(k[0])))]
            verify_validate(e, 'OutputConfig::validate [%s, %s]' % (sm, cm), vkey(e, 'OutputConfig'), st, [named(e, st, v, 'OutputConfig')], {}, ch)


def corries_config(e, st, **kw):
    v = blank(e, 'CorriesConfig')
    return e.v.set(v, **kw)


@unit('config.corries', ['C16'], 'CorriesConfig::validate: Ok if and only if the mesh, physics, numerics parts and every output are admissible; any number of outputs')
def _(e):
    st = State()
    n = z3.Int('outputs'); st.assume(n >= 0)
    adm = z3.Function('output_admissible', I, B)
    ident = lambda i: e.v.set(blank(e, 'OutputConfig'), precision=zi(i))
    v = e.v.set(blank(e, 'CorriesConfig'), mesh_config=blank(e, 'MeshConfig'), physics_config=blank(e, 'PhysicsConfig'), numerics_config=blank(e, 'NumericsConfig'),
                writer_config=SymList('writer_config', n, [(lambda i: True, ident)]))
    ch = []
    for x in ('Mesh', 'Physics', 'Numerics'):
        b = z3.Bool('%s_admissible' % x.lower())
        c = c_pred(e, x + 'Config', lambda w, b=b: b); e.contracts[c.key] = c
        ch.append(('the %s part is admissible' % x.lower(), (), lambda k, b=b: b))
    c = c_pred(e, 'OutputConfig', lambda w: adm(e.v.get(w, 'precision'))); e.contracts[c.key] = c
    ch.append(('every output is admissible', (n,), lambda k: adm(zi(k[0]))))
    verify_validate(e, 'CorriesConfig::validate', vkey(e, 'CorriesConfig'), st, [named(e, st, v, 'CorriesConfig')], {}, ch)
