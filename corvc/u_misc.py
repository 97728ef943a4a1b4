"""Units, initial conditions, default configurations."""
from fractions import Fraction as F
from u_bc import *

UNITS_T = '@units::Units'


def refer(st, e, v, name): return named(e, st, v, name)


for mode in ('SI', 'CGS'):
    @unit('units.%s' % mode, ['C21'], 'Units (%s): every conversion of every value' % mode)
    def _(e, mode=mode):
        p = e.prog
        X = z3.Real('x'); x = Fl(X)
        st0 = State()
        u = None
        for s, k, v in e.exec_fn(st0.clone(), p.method(UNITS_T, 'new'), {}, [p.enum('UnitsMode', mode)]): u = v
        want = {'length': {'si': 1 if mode == 'SI' else F(1, 100), 'cgs': 100 if mode == 'SI' else 1}, 'mass': {'si': 1 if mode == 'SI' else F(1, 1000), 'cgs': 1000 if mode == 'SI' else 1},
                'time': {'si': 1, 'cgs': 1}}
        for q in want:
            for t in ('si', 'cgs'):
                f = want[q][t]
                st = st0.clone()
                key = p.method(UNITS_T, 'convert_%s_to_%s' % (q, t))

                def post(s, v, f=f, q=q, t=t):
                    # constants of the source are doubles: a relative deviation of 1e-12 is rounding
                    if f == 1 and not (t == 'cgs' and mode == 'CGS' and q != 'time'): return [('the value is unchanged', fsame(v, x))]
                    d = rsub(v.v, rmul(rv(f), X)); lim = rmul(rv(F(1, 10 ** 12)), fabs(x).v)
                    return [('multiplies by %s' % f, band(rle(d, lim), rle(rneg(d), lim)))]
                r = named(e, st, u, 'units')
                pre = st.clone()
                ensure(e, key, st, [r, x], {}, 'Units::convert_%s_to_%s [%s]' % (q, t, mode), post)
        # the result in CGS is 100 / 1000 times the result in SI
        for q, f in (('length', 100), ('mass', 1000)):
            st = st0.clone(); r = named(e, st, u, 'units')
            for s1, k1, a in e.exec_fn(st, p.method(UNITS_T, 'convert_%s_to_si' % q), {}, [r, x]):
                for s2, k2, b in e.exec_fn(s1, p.method(UNITS_T, 'convert_%s_to_cgs' % q), {}, [r, x]):
                    d = rsub(b.v, rmul(rv(f), a.v)); lim = rmul(rv(F(f, 10 ** 12)), fabs(a).v)
                    e.oblige(s2, 'Units [%s]: the CGS %s is %d times the SI %s' % (mode, q, f, q), band(rle(d, lim), rle(rneg(d), lim)))


# ---------------------------------------------------------------- initial conditions
def half(S): return isimp(zi(S) / 2)


def noh_prim(e, v, ph):
    U = e.v.get(v, 'prim'); E, S = U.shape
    return LamArr(U.shape, lambda x: pick(x[0], [fc(1), fite(icmp('lt', x[1], half(S)), fc(1), fc(-1))] + ([f64_exact(1e-5)] if ph == 'adiabatic' else [])))


def pick(j, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1): r = fite(icmp('eq', j, k), vals[k], r)
    return r


def eff_noh(ph):
    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[0]); u = e.read(st, r); c = e.v.get(u, 'cent')
        n = e.v.set(c, prim=noh_prim(e, c, ph))
        if ph == 'isot': n = e.v.set(n, c_sound=const_arr(e.v.get(c, 'c_sound').shape, fc(1)))
        e.write(st, r, e.v.set(u, cent=n))
        return [Out(st, Ok(UNIT))]
    return eff


def eff_sod(ph):
    def eff(e, st, args, genv, pre):
        if ph != 'adiabatic': return [Out(st, Err(Opaque('err', ())))]
        r = e.strip(st, args[0]); u = e.read(st, r); c = e.v.get(u, 'cent')
        U = e.v.get(c, 'prim'); S = U.shape[1]
        left = lambda x: icmp('lt', x[1], half(S))
        n = LamArr(U.shape, lambda x: pick(x[0], [fite(left(x), fc(1), fc(0.125)), fc(0), fite(left(x), fc(1), f64_exact(0.1))]))
        e.write(st, r, e.v.set(u, cent=e.v.set(c, prim=n)))
        return [Out(st, Ok(UNIT))]
    return eff


for ph in PHYS:
    for nm, eff in (('noh', eff_noh), ('sod', eff_sod)):
        @unit('init.%s.%s' % (nm, ph), ['C22'], 'init_%s [%s]: the documented primitive state in every cell, nothing else' % (nm, ph))
        def _(e, ph=ph, nm=nm, eff=eff):
            st, genv, E, S = setup(e, ph)
            st.assume(S < 2 ** 53)
            u = named(e, st, sym_state(e, st, genv, 'u', (E, S)), 'state')
            m = named(e, st, sym_mesh(e, st, genv, 'mesh', (E, S)), 'mesh')
            sol = named(e, st, UNINIT, 'solver')
            g = dict(genv, N=['abstract', 'N'], T=['abstract', 'T'])
            verify(e, Contract('init_%s' % nm, e.prog.free('initfuncs::init_%s' % nm), eff(ph)), st, [u, sol, m], g, ph)


# ---------------------------------------------------------------- default configurations
def istr(n): return StrV(Opaque('sym', n))


def dname(e, n, *a): return e.prog.enum('DataName', n, *a)


def default_stdout(e, names):
    p = e.prog
    return e.v.set(blank(e, 'OutputConfig'), stream_mode=p.enum('StreamMode', 'Stdout'), formatting_mode=p.enum('FormattingMode', 'TSV'),
                   string_conversion_mode=p.enum('ToStringConversionMode', 'Scalar'), folder_name=StrV(''), should_clear_out_folder=False, file_name=StrV(''),
                   precision=HavocAny(), should_print_ghostcells=False, should_print_metadata=False, data_names=names)


def default_file(e, names):
    p = e.prog
    return e.v.set(blank(e, 'OutputConfig'), stream_mode=p.enum('StreamMode', 'File'), formatting_mode=p.enum('FormattingMode', 'CSV'),
                   string_conversion_mode=p.enum('ToStringConversionMode', 'Vector'), folder_name=istr('folder'), should_clear_out_folder=True, file_name=istr('file'),
                   precision=HavocAny(), should_print_ghostcells=True, should_print_metadata=True, data_names=names)


def std_names(e): return ListV([dname(e, n) for n in ('Iter', 'T', 'Dt', 'DtKind')])
def file_names(e, E): return ListV([dname(e, 'T'), dname(e, 'XiCent')] + [dname(e, 'Prim', j) for j in range(E)])


def oc(e, name): return e.prog.method('OutputConfig', name)


@unit('defaults.output', ['C23'], 'OutputConfig::default_*: exactly the given quantities and names')
def _(e):
    st0 = State()
    n, names, vec = data_list(e); st0.assume(n >= 0)
    ret = lambda v: (lambda e, s, a, g, pre: [Out(s, v)])
    C = lambda name, v: Contract('OutputConfig::' + name, oc(e, name), ret(v))
    verify(e, C('default_stdout', default_stdout(e, std_names(e))), st0.clone(), [], {})
    verify(e, C('default_stdout_with_names', default_stdout(e, names)), st0.clone(), [names], {})
    st = st0.clone()
    a = [e.ref_to(st, istr('folder')), e.ref_to(st, istr('file'))]
    verify(e, C('default_file_with_names', default_file(e, names)), st.clone(), a + [names], {})
    for E in (1, 2, 3, 4): verify(e, C('default_file', default_file(e, file_names(e, E))), st.clone(), a + [E], {}, '%d equations' % E)


def hll_or_kt(e, nf):
    p = e.prog; k = p.adt('NumFluxConfig'); l = p.adt('LimiterMode')
    return Adt(k, p.variant(k, 'Hll'), ()) if nf == 'hll' else Adt(k, p.variant(k, 'Kt'), (Adt(l, p.variant(l, 'VanLeer'), ()),))


for nf in ('hll', 'kt'):
    for ph in PHYS:
        @unit('defaults.corries.%s.%s' % (nf, ph), ['C23', 'C16'], 'CorriesConfig::default_riemann_test: the requested flux scheme, all primitive variables, accepted by validation')
        def _(e, nf=nf, ph=ph):
            p = e.prog
            E = PHYS[ph][1]; S = z3.Int('S')
            st = State(); st.assume(z3.And(S >= 5, S < 2 ** 53))
            T = Fl(z3.Real('t_end')); st.assume(rlt(rv(0), T.v))
            genv = {'E': ['cint', E], 'S': ['cval', S], 'N': ['adt', p.adt({'hll': '@rhs::numflux::hll::Hll', 'kt': '@rhs::numflux::kt::Kt'}[nf]), [['cint', E], ['cval', S]]]}
            args = [T, e.ref_to(st, istr('folder')), e.ref_to(st, istr('file'))]
            st.assume(z3.Not(z3.Bool('empty!folder'))); st.assume(z3.Not(z3.Bool('empty!file')))
            nm = 'CorriesConfig::default_riemann_test [%s, %s]' % (nf, ph)
            n = 0
            for s, k, v in e.exec_fn(st, p.method('CorriesConfig', 'default_riemann_test'), genv, args):
                if k != 'ret' or not e.feasible(s): continue
                n += 1
                g = lambda *a: e.v.get(v, *a)
                compare(e, s, nm + ': flux scheme', g('numerics_config', 'numflux_config'), hll_or_kt(e, nf), s, s)
                compare(e, s, nm + ': end time', g('numerics_config', 't_end'), T, s, s)
                compare(e, s, nm + ': start time', g('numerics_config', 't0'), fc(0), s, s)
                bm = p.adt('BoundaryMode'); ng = Adt(bm, p.variant(bm, 'NoGradients'), ())
                compare(e, s, nm + ': west boundary', g('boundary_condition_west'), ng, s, s)
                compare(e, s, nm + ': east boundary', g('boundary_condition_east'), ng, s, s)
                compare(e, s, nm + ': outputs', g('writer_config'), ListV([default_stdout(e, std_names(e)), default_file(e, file_names(e, E))]), s, s)
                e.oblige(s, nm + ': no adaptive step control', bnot(g('numerics_config', 'time_integration_config').fields[0].fields[p.fidx('RkfConfig', 'asc')]))
                ok = 0
                r = named(e, s, v, 'configuration')
                for s2, k2, w in e.exec_fn(s, vkey(e, 'CorriesConfig'), {}, [r]):
                    if k2 == 'ret' and e.feasible(s2): ok += 1; e.oblige(s2, nm + ': accepted by validation', w.var == 0)
                if not ok: raise Unsupported('validation never returns')
            if not n: raise Unsupported('no path returns')
            e.covered.add(p.method('CorriesConfig', 'default_riemann_test'))
