"""Numerical fluxes: HLL and KT, limiters, conservation, symmetry."""
from u_mesh import *

HLL, KT = '@rhs::numflux::hll::Hll', '@rhs::numflux::kt::Kt'
MODES = ('NoLimiter', 'MinMod', 'Superbee', 'Monocent', 'VanLeer')


def nf_config(e, st, scheme, mode=None):
    """symbolic NumFluxConfig value"""
    p = e.prog
    nc = p.adt('NumFluxConfig')
    if scheme == 'hll': v = Adt(nc, p.variant(nc, 'Hll'), ())
    else:
        lm = p.adt('LimiterMode')
        m = Adt(lm, p.variant(lm, mode), (Fl(z3.Real('theta')),) if mode == 'Monocent' else ())
        v = Adt(nc, p.variant(nc, 'Kt'), (m,))
    return v, named(e, st, v, 'flux configuration')


def the_mesh(e, st, S):
    """the mesh built from an arbitrary configuration (contract of Mesh::new)"""
    cfg, r = mesh_config(e, st)
    st.assume(rlt(e.v.get(cfg, 'xi_in').v, e.v.get(cfg, 'xi_out').v))
    m = spec_mesh(e, cfg, S)
    return m, named(e, st, m, 'mesh')


# ---------------------------------------------------------------- objects reachable through their public functions
def havoc(e, v, name, n=[0]):
    """arbitrary value of the same shape"""
    n[0] += 1
    nm = '%s~%d' % (name, n[0])
    if isinstance(v, Arr): return BaseArr(nm, v.shape)
    if isinstance(v, Fl): return Fl(z3.Real(nm))
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return z3.Bool(nm)
    if isinstance(v, int) or (is_z3(v) and z3.is_int(v)): return z3.Int(nm)
    if isinstance(v, Adt) and v.key in e.adts and e.adts[v.key]['kind'] == 'struct': return Adt(v.key, v.var, [havoc(e, x, nm) for x in v.fields])
    raise Unsupported('arbitrary value of %r' % (v,))


def differs(e, a, b): return not (a is b)


def changed_fields(e, st, old, new, name, acc):
    """object invariant by iteration: fields a call changes become arbitrary, all others keep their constructed value"""
    if old is new: return old
    if isinstance(old, Adt) and isinstance(new, Adt) and old.key == new.key and old.var == new.var and old.key in e.adts and e.adts[old.key]['kind'] == 'struct':
        return Adt(old.key, old.var, [changed_fields(e, st, x, y, '%s.%s' % (name, f[0]), acc) for x, y, f in zip(old.fields, new.fields, e.adts[old.key]['variants'][0]['fields'])])
    acc.append(name)
    return havoc(e, old, name)


def is_havoc(v): return isinstance(v, BaseArr) and '~' in v.name


def stable(e, st, obj, call, name, rounds=4):
    """call(e, state, object reference) -> outcomes; returns an object value describing every reachable object of this kind"""
    nobl, nfact = len(e.obls), len(e.facts)
    for _ in range(rounds):
        s = st.clone(); r = e.ref_to(s, obj, True)
        acc = []
        new = obj
        for o in call(e, s, r):
            if o[1] != 'ret': continue
            new = changed_fields(e, st, new, step_val(e, obj, o[0].cells[r.cell], new), name, acc)
        del e.obls[nobl:]; del e.facts[nfact:]
        if not acc: return new
        obj = new
    raise Unsupported('no stable description of %s' % name)


def step_val(e, obj, after, new):
    """field by field: unchanged or already arbitrary -> keep, else the new value"""
    if after is obj: return new
    if isinstance(obj, Adt) and isinstance(after, Adt) and isinstance(new, Adt) and obj.key == after.key and obj.var == after.var and len(obj.fields) == len(after.fields):
        return Adt(obj.key, obj.var, [step_val(e, x, y, z) for x, y, z in zip(obj.fields, after.fields, new.fields)])
    if is_havoc(obj): return new
    return after


# ---------------------------------------------------------------- specification of the schemes
def diff_of_flux(e, mesh, old, F):
    """time derivative: difference of the interface fluxes over the cell volume in the interior, unchanged elsewhere"""
    lo, hi = e.v.get(mesh, 'ixi_in'), e.v.get(mesh, 'ixi_out')
    vol = e.v.get(mesh, 'volume')
    inside = lambda i: band(icmp('le', lo, i), icmp('le', i, hi))
    return LamArr(old.shape, lambda x: fite(inside(x[1]), fdiv(fsub(F(x[0], x[1]), F(x[0], isub(x[1], 1))), vol.get((x[1],))), old.get(x)))


def fmin2(a, b): return fite(flt(b, a), b, a)
def fmax2(a, b): return fite(flt(a, b), b, a)


def hll_flux(e, v):
    """interface flux between cells i and i+1 from centred variables v (flux and eigenvalues up to date)"""
    U, F, ev = e.v.get(v, 'cons'), e.v.get(v, 'flux'), e.v.get(v, 'eigen_vals')
    E = U.shape[0]

    def f(j, i):
        k = iadd(i, 1)
        sl = fmin2(fc(0), fmin2(ev.get((0, i)), ev.get((0, k))))
        sr = fmax2(fc(0), fmax2(ev.get((E - 1, i)), ev.get((E - 1, k))))
        return fdiv(fadd(fsub(fmul(sr, F.get((j, i))), fmul(sl, F.get((j, k)))), fmul(fmul(sr, sl), fsub(U.get((j, k)), U.get((j, i))))), fsub(sr, sl))
    return f


def eff_hll(e, st, args, genv, pre):
    me, dr, ur = [e.strip(st, a) for a in args[:3]]
    mesh = e.deref(st, args[3])
    u = e.read(st, ur); ph = ptype(e, genv)
    c = e.v.get(u, 'cent')
    c = e.v.set(c, flux=spec_flux(e, c, ph))
    e.write(st, ur, e.v.set(u, cent=c))
    e.write(st, dr, diff_of_flux(e, mesh, e.read(st, dr), hll_flux(e, c)))
    e.write(st, me, HavocAny())
    return [Out(st, Ok(UNIT))]


def sgn_agree(a, b): return band(flt(fc(0), fmul(a, b)))


def minmod2(a, b):
    same = bor(band(flt(fc(0), a), flt(fc(0), b)), band(flt(a, fc(0)), flt(b, fc(0))))
    m = fmin2(fabs(a), fabs(b))
    return fite(same, fite(flt(fc(0), a), m, fneg(m)), fc(0))


def slope(mode, theta):
    """limited cell-to-cell slope from backward a, forward b, central c difference"""
    def f(a, b, c):
        if mode == 'NoLimiter': return fmul(HALF, fadd(a, b))
        if mode == 'MinMod': return minmod2(a, b)
        same = bor(band(flt(fc(0), a), flt(fc(0), b)), band(flt(a, fc(0)), flt(b, fc(0))))
        sg = lambda m: fite(same, fite(flt(fc(0), a), m, fneg(m)), fc(0))
        if mode == 'Superbee': return sg(fmin2(fmin2(fabs(a), fabs(b)), fmul(HALF, fmax2(fabs(a), fabs(b)))))
        if mode == 'Monocent': return minmod2(minmod2(fmul(theta, a), fmul(theta, b)), c)
        if mode == 'VanLeer': return fdiv(fadd(fmul(a, fabs(b)), fmul(b, fabs(a))), fadd(fadd(fabs(a), fabs(b)), f64_exact(2.2250738585072014e-308)))
    return f


def face_cons(e, u, mesh, lim, loc):
    """reconstructed conserved variables at the west or east face"""
    U = e.v.get(u, 'cent', 'cons'); old = e.v.get(u, loc, 'cons')
    x, xf = e.v.get(mesh, 'xi_cent'), e.v.get(mesh, 'xi_' + loc)
    S = U.shape[1]

    def get(ix):
        j, i = ix
        a, b = fsub(U.get((j, i)), U.get((j, isub(i, 1)))), fsub(U.get((j, iadd(i, 1))), U.get((j, i)))
        c = fmul(HALF, fsub(U.get((j, iadd(i, 1))), U.get((j, isub(i, 1)))))
        s = fdiv(lim(a, b, c), e.v.get(mesh, 'dxi'))
        val = fadd(U.get((j, i)), fmul(s, fsub(xf.get((i,)), x.get((i,)))))
        return fite(band(icmp('le', 1, i), icmp('lt', i, isub(S, 1))), val, old.get((j, i)))
    return LamArr(U.shape, get)


def middle_free(e, v):
    """eigenvalues: first and last row as specified, middle rows free"""
    ev = e.v.get(v, 'eigen_vals'); E = ev.shape[0]
    return e.v.set(v, eigen_vals=LamArr(ev.shape, lambda x: ev.get(x) if x[0] in (0, E - 1) else HavocFl(rv(0))))


def kt_faces(e, u, mesh, lim, ph, cut=None):
    out = {}
    for loc in ('west', 'east'):
        v = e.v.set(e.v.get(u, loc), cons=cut[loc] if cut else face_cons(e, u, mesh, lim, loc))
        v = e.v.set(v, prim=spec_prim(e, v, ph))
        v = e.v.set(v, c_sound=spec_csound(e, v, ph))
        v = e.v.set(v, eigen_vals=spec_eigen(e, v, ph))
        out[loc] = e.v.set(v, flux=spec_flux(e, v, ph))
    return out


def kt_flux(e, u, mesh):
    """interface flux between cells i and i+1 from the face states"""
    W, Ea = e.v.get(u, 'west'), e.v.get(u, 'east')
    g = lambda v, n, j, i: e.v.get(v, n).get((j, i))
    E = e.v.get(W, 'cons').shape[0]

    def f(j, i):
        k = iadd(i, 1)
        ap = fmax2(fc(0), fmax2(g(W, 'eigen_vals', E - 1, k), g(Ea, 'eigen_vals', E - 1, i)))
        am = fmin2(fc(0), fmin2(g(W, 'eigen_vals', 0, k), g(Ea, 'eigen_vals', 0, i)))
        num = fadd(fsub(fmul(ap, g(Ea, 'flux', j, i)), fmul(am, g(W, 'flux', j, k))), fmul(fmul(ap, am), fsub(g(W, 'cons', j, k), g(Ea, 'cons', j, i))))
        return fdiv(num, fsub(ap, am))
    return f


def eff_kt(mode, theta, cut=None):
    def eff(e, st, args, genv, pre):
        me, dr, ur = [e.strip(st, a) for a in args[:3]]
        mesh = e.deref(st, args[3]); ph = ptype(e, genv)
        u = e.read(st, ur)
        f = kt_faces(e, u, mesh, slope(mode, theta), ph, cut)
        u2 = e.v.set(u, **f)
        e.write(st, dr, diff_of_flux(e, mesh, e.read(st, dr), kt_flux(e, u2, mesh)))
        e.write(st, ur, e.v.set(u, **{l: middle_free(e, v) for l, v in f.items()}))
        e.write(st, me, HavocAny())
        return [Out(st, Ok(UNIT))]
    return eff


def moving(e, v, what):
    """domain: in every cell the largest eigenvalue exceeds the smallest one (positive sound speed)"""
    ev = e.v.get(v, 'eigen_vals'); E = ev.shape[0]
    e.facts.append(Fact(True, ev.shape[1:], lambda i: flt(ev.get((0, i[0])), ev.get((E - 1, i[0]))), 'domain: the largest eigenvalue exceeds the smallest one in every %s' % what))


class FaceCut:
    """ghost assertion at the first use of the face values: they equal the reconstruction; afterwards they are opaque"""
    def __init__(self, e, contract, faces, name):
        self.e, self.c, self.name, self.spec, self.done = e, contract, contract.name, faces, {}
        self.sym = {l: BaseArr('face.' + l, faces[l].shape) for l in faces}

    def __call__(self, e, st, args, genv):
        r = e.strip(st, args[0])
        for l, sp in self.spec.items():
            if r.path and r.path[-1] == ('f', e.prog.fidx(STATE, l)) and l not in self.done:
                v = e.read(st, r)
                compare(e, st, 'reconstructed conserved variables at the %s faces' % l, e.v.get(v, 'cons'), sp, st, st, 'assert')
                st = st.clone()
                e.write(st, r, e.v.set(v, cons=self.sym[l]))
                self.done[l] = True
        return self.c(e, st, args, genv)


def nf_setup(e, ph, scheme, mode=None):
    st, genv, E, S = setup(e, ph)
    install(e, phys_contracts(e, ph), 'update_flux', 'update_prim', 'update_c_sound', 'update_eigen_vals_min', 'update_eigen_vals_max')
    cfg, cr = nf_config(e, st, scheme, mode)
    mesh, mr = the_mesh(e, st, S)
    adt = HLL if scheme == 'hll' else KT
    g = {'E': genv['E'], 'S': genv['S'], 'Self': ['adt', e.prog.adt(adt), [genv['E'], genv['S']]]}
    outs = [o for o in e.exec_fn(st, e.prog.method(adt, 'new', 'NumFlux'), g, [cr, mr]) if o[1] == 'ret']
    e.covered.add(e.prog.method(adt, 'new', 'NumFlux'))
    if len(outs) != 1 or outs[0][2].var != 0: raise Unsupported('%s::new has no unique result' % adt)
    st, obj = outs[0][0], outs[0][2].fields[0]
    key = e.prog.method(adt, 'calc_dflux_dxi', 'NumFlux')
    gf = dict(genv); gf['Self'] = g['Self']

    def args(s): return [named(e, s, BaseArr('dflux', (E, S)), 'time derivative'), named(e, s, sym_state(e, s, genv, 'u', (E, S)), 'state'), mr]
    obj = stable(e, st, obj, lambda e, s, r: e.exec_fn(s, key, gf, [r] + args(s)), scheme)
    return st, gf, E, S, obj, mesh, mr, key, args


def nf_unit(ph, scheme, mode=None):
    def run(e):
        st, genv, E, S, obj, mesh, mr, key, args = nf_setup(e, ph, scheme, mode)
        if mode == 'Monocent': st.assume(rlt(rv(1), z3.Real('theta')))
        a = [named(e, st, obj, scheme)] + args(st)
        u = e.deref(st, a[2])
        name = '%s::calc_dflux_dxi%s' % (scheme, ' (%s)' % mode if mode else '')
        if scheme == 'hll':
            moving(e, e.v.get(u, 'cent'), 'cell')
            verify(e, Contract(name, key, eff_hll), st, a, genv, ph)
        else:
            th = Fl(z3.Real('theta'))
            k = phys_contracts(e, ph)['update_prim']
            cut = FaceCut(e, k, {l: face_cons(e, u, mesh, slope(mode, th), l) for l in ('west', 'east')}, name)
            e.contracts[k.key] = cut
            for l, v in kt_faces(e, u, mesh, None, ph, cut.sym).items(): moving(e, v, 'cell at its %s face' % l)
            verify(e, Contract(name, key, eff_kt(mode, th, cut.sym)), st, a, genv, ph)
            if len(cut.done) != 2: raise LostAnchor('face values are not converted through Physics::update_prim')
    return run


for ph in PHYS:
    unit('hll.%s' % ph, ['C06', 'C09', 'C25'], 'Hll::calc_dflux_dxi: HLL interface fluxes of every interface, flux difference in every interior cell')(nf_unit(ph, 'hll'))
    for md in MODES:
        fast = md in ('NoLimiter', 'VanLeer')
        unit('kt.%s.%s' % (ph, md), ['C07', 'C08'] + (['C09', 'C25'] if fast else []), 'Kt::calc_dflux_dxi with %s: reconstruction, face variables, KT interface fluxes, flux difference' % md,
             budget=200 if fast else 450, tprops=[] if fast else ['C09', 'C25'])(nf_unit(ph, 'kt', md))
