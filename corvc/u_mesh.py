"""Mesh: geometry as defining formulas, rejection of non-finite meshes."""
from u_state import *


def mesh_config(e, st, flagged=False):
    p = e.prog
    v = unspecified(e, 'MeshConfig')
    f = (lambda n: Fl(z3.Real(n), *[z3.Bool(n + x) for x in ('!nan', '!pinf', '!ninf')])) if flagged else (lambda n: Fl(z3.Real(n)))
    v = e.v.set(v, mode=p.enum('MeshMode', 'Cartesian'), xi_in=f('xi_in'), xi_out=f('xi_out'))
    if 'ratio_disk' in p.fields('MeshConfig'): v = e.v.set(v, ratio_disk=f('ratio_disk'))
    return v, named(e, st, v, 'mesh configuration')


def spec_mesh(e, cfg, S):
    g = lambda n: e.v.get(cfg, n)
    a, b = g('xi_in'), g('xi_out')
    c = lambda f: lam((S,), lambda i: f(i[0]))
    k = lambda x: const_arr((S,), fc(x))
    dxi = fdiv(fsub(b, a), ffrom_int(isub(S, 4)))
    west = lambda i: fadd(a, fmul(dxi, ffrom_int(isub(i, 2))))
    cent = lambda i: fadd(west(i), fmul(HALF, dxi))
    east = lambda i: fadd(west(i), dxi)
    width = lambda i: fsub(east(i), west(i))
    inv = lambda f: c(lambda i: fdiv(ONE, f(i)))
    dv = lambda i: fdiv(ONE, dxi)
    one, zero = lambda i: ONE, lambda i: fc(0)
    m = dict(mode=g('mode'), is_logarithmic=False, is_linear=True, n_comp=isub(S, 4), n_gc=2, n_all=S, imin=0, imax=isub(S, 1), ixi_in=2, ixi_out=isub(S, 3),
             xi_in=a, xi_out=b, dxi=dxi, deta=ONE, dphi=ONE, xi_cent=c(cent), xi_west=c(west), xi_east=c(east), xi_cent_inv=inv(cent), xi_west_inv=inv(west), xi_east_inv=inv(east),
             line_xi=c(lambda i: dxi), line_xi_inv=inv(lambda i: dxi), area_cell=c(lambda i: fabs(fmul(width(i), width(i)))), volume=c(lambda i: dxi),
             deta_dphi_d_volume=c(dv), cell_width=c(width), cell_width_inv=inv(width), sqrt_g=k(1),
             d_area_xi_deta_dphi_west=k(1), d_area_xi_deta_dphi_east=k(1), area_west=k(1), area_east=k(1))
    for h in ('xi', 'eta', 'phi'):
        for l in DIRS[:0] + ('cent', 'west', 'east'): m['h_%s_%s' % (h, l)] = k(1)
    for n in ('cexe', 'cpxp'): m[n] = c(lambda i: fmul(fc(0), dv(i))); m['minus_' + n] = c(lambda i: fmul(fc(0), dv(i)))
    for n in ('cxex', 'cpep', 'cxpx', 'cepe'): m[n] = k(1); m['minus_' + n] = k(-1)
    v = unspecified(e, MESH)
    return e.v.set(v, **m)


def mesh_env(e):
    genv, E, S = base_env(e, 'isot')
    st = State(); st.assume(S >= 5); st.assume(S < 2 ** 53)
    return {'S': genv['S']}, st, S


def c_mesh_new(e):
    return Contract('Mesh::new', e.prog.method(MESH, 'new'), lambda e, st, args, genv, pre: [Out(st, Ok(spec_mesh(e, e.deref(st, args[0]), e.cval(genv['S']))))])


@unit('mesh.new', ['C04', 'C20'], 'Mesh::new: every field equals its defining formula, for every cell and every number of cells')
def _(e):
    genv, st, S = mesh_env(e)
    cfg, r = mesh_config(e, st)
    verify(e, c_mesh_new(e), st, [r], genv)


def float_fields(e, v):
    for n, x in zip(e.prog.fields(v.key), v.fields):
        if isinstance(x, Fl): yield n, x, None
        elif isinstance(x, Arr): yield n, x, x.shape


def finite_checks(e, v, name, skip=()):
    """[(name, shape, predicate)]: every float of the struct is finite"""
    out = []
    for n, x, sh in float_fields(e, v):
        if n in skip: continue
        if sh is None: out.append(('%s.%s is finite' % (name, n), (), lambda k, x=x: x.finite))
        else: out.append(('%s.%s is finite in every cell' % (name, n), sh, lambda k, x=x: x.get(k).finite))
    return out


def mesh_checks(e, v, genv): return finite_checks(e, v, 'mesh', ('xi_in', 'xi_out'))
def c_mesh_validate(e): return c_validate('Mesh::validate', e.prog.method(MESH, 'validate', 'Validation'), mesh_checks)


@unit('mesh.validate', ['C04', 'C17'], 'Mesh::validate: Ok if and only if every entry of the mesh is finite (nan and infinities modelled)')
def _(e):
    XREAL[0] = True
    genv, st, S = mesh_env(e)
    m = sym_mesh(e, st, genv, 'mesh', (2, S), True)
    verify_validate(e, 'Mesh::validate', c_mesh_validate(e).key, st, [named(e, st, m, 'mesh')], genv, mesh_checks(e, m, genv))


@unit('mesh.finite', ['C04', 'C17'], 'Mesh::new returns Ok only for a mesh all of whose entries are finite (nan and infinities modelled)')
def _(e):
    XREAL[0] = True
    genv, st, S = mesh_env(e)
    cfg, r = mesh_config(e, st, True)
    e.contracts[c_mesh_validate(e).key] = c_mesh_validate(e)

    def post(s, v): return checks_goals(e, s, mesh_checks(e, v.fields[0], genv)) if v.var == 0 else []
    ensure(e, e.prog.method(MESH, 'new'), st, [r], genv, 'Mesh::new', post)


@unit('lemma.mesh.tiling', ['C04'], 'over the contract of Mesh::new: interior cells tile [xi_in, xi_out], cells are contiguous and uniform')
def _(e):
    genv, st, S = mesh_env(e)
    cfg, r = mesh_config(e, st)
    st.assume(rlt(e.v.get(cfg, 'xi_in').v, e.v.get(cfg, 'xi_out').v))
    m = spec_mesh(e, cfg, S)
    g = lambda n, i: e.v.get(m, n).get((i,))
    i = z3.Int('i'); st.assume(z3.And(i >= 0, i < S))
    eq = lambda n, a, b: e.oblige(st, 'lemma: ' + n, fsame(a, b), 'lemma')
    eq('the first interior face is xi_in', g('xi_west', 2), e.v.get(cfg, 'xi_in'))
    eq('the last interior face is xi_out', g('xi_east', isub(S, 3)), e.v.get(cfg, 'xi_out'))
    eq('neighbours share a face', g('xi_east', i), g('xi_west', iadd(i, 1)))
    eq('centres lie midway', fmul(fc(2), g('xi_cent', i)), fadd(g('xi_west', i), g('xi_east', i)))
    eq('uniform width', g('cell_width', i), e.v.get(m, 'dxi'))
    e.oblige(st, 'lemma: cells have positive width', rlt(rv(0), g('cell_width', i).v), 'lemma')
    eq('inverse width', fmul(g('cell_width', i), g('cell_width_inv', i)), ONE)
