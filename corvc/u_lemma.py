"""Lemmas over the contracts of the numerical fluxes: limiters, conservation, uniform flow, mirror symmetry."""
from u_flux import *

A_, B_, TH = Fl(z3.Real('a')), Fl(z3.Real('b')), Fl(z3.Real('theta'))
LIMITED = ('MinMod', 'Superbee', 'Monocent', 'VanLeer')


def central(a, b): return fmul(HALF, fadd(a, b))
def both(mode, a, b): return slope(mode, TH)(a, b, central(a, b))


@unit('lemma.limiter', ['C08', 'C25'], 'over the limiter formulas of the KT contract: zero at extrema, bounded by the neighbours, odd and symmetric')
def _(e):
    st = State(); st.assume(rlt(rv(1), TH.v))
    for md in MODES:
        s = both(md, A_, B_)
        if md in LIMITED:
            e.oblige(st.clone().assume(rle(rmul(A_.v, B_.v), rv(0))), 'lemma: %s vanishes at extrema and where a difference is zero' % md, req(s.v, rv(0)), 'lemma')
        if md in ('MinMod', 'Superbee', 'VanLeer'):
            h = fmul(HALF, s)
            for w, d in (('east', h), ('west', fneg(h))):
                lo, hi = fmin2(fc(0), fmin2(fneg(A_), B_)), fmax2(fc(0), fmax2(fneg(A_), B_))
                for n, sg in (('a, b > 0', 1), ('a, b < 0', -1), ('a*b <= 0', 0)):
                    t = st.clone()
                    if sg: t.assume(band(rlt(rv(0), rmul(rv(sg), A_.v)), rlt(rv(0), rmul(rv(sg), B_.v))))
                    else: t.assume(rle(rmul(A_.v, B_.v), rv(0)))
                    e.oblige(t, 'lemma: %s face value (%s) lies between the cell and its neighbours, %s' % (md, w, n), band(rle(lo.v, d.v), rle(d.v, hi.v)), 'lemma')
        e.oblige(st, 'lemma: %s is odd' % md, fsame(both(md, fneg(A_), fneg(B_)), fneg(s)), 'lemma')
        e.oblige(st, 'lemma: %s is symmetric' % md, fsame(both(md, B_, A_), s), 'lemma')
        z = fc(0)
        e.oblige(st, 'lemma: %s of zero differences is zero' % md, req(both(md, z, z).v, rv(0)), 'lemma')


def mirror_idx(S, i): return isub(isub(S, 1), i)


@unit('lemma.face.average', ['C08'], 'over the KT contract and the mesh contract: the two face values of a cell average to its cell value, half a slope away')
def _(e):
    for ph in PHYS:
        st, genv, E, S = setup(e, ph)
        mesh, mr = the_mesh(e, st, S)
        u = sym_state(e, st, genv, 'u', (E, S))
        i = e.fresh('i', I); st.assume(band(icmp('le', 1, i), icmp('lt', i, isub(S, 1))))
        L = z3.Function('L', R, R, R, R)
        lim = lambda a, b, c: Fl(L(a.v, b.v, c.v))
        W, Ea = face_cons(e, u, mesh, lim, 'west'), face_cons(e, u, mesh, lim, 'east')
        U = e.v.get(u, 'cent', 'cons')
        for j in range(E):
            e.oblige(st, 'lemma [%s]: west + east = 2*centre, equation %d' % (ph, j), fsame(fadd(W.get((j, i)), Ea.get((j, i))), fmul(fc(2), U.get((j, i)))), 'lemma')
            a, b = fsub(U.get((j, i)), U.get((j, isub(i, 1)))), fsub(U.get((j, iadd(i, 1))), U.get((j, i)))
            s = lim(a, b, fmul(HALF, fsub(U.get((j, iadd(i, 1))), U.get((j, isub(i, 1))))))
            e.oblige(st, 'lemma [%s]: east = centre + slope/2, equation %d' % (ph, j), fsame(Ea.get((j, i)), fadd(U.get((j, i)), fmul(HALF, s))), 'lemma')


# ---------------------------------------------------------------- conservation
@unit('lemma.telescope', ['C09'], 'over the contracts of both schemes: partial sums of volume times derivative telescope (induction over the cells)')
def _(e):
    for ph in PHYS:
        for scheme in ('hll', 'kt'):
            st, genv, E, S = setup(e, ph)
            st.assume(z3.ToReal(S) < 2 ** 53)
            mesh, mr = the_mesh(e, st, S)
            u = sym_state(e, st, genv, 'u', (E, S))
            moving(e, e.v.get(u, 'cent'), 'cell')
            F = hll_flux(e, e.v.get(u, 'cent')) if scheme == 'hll' else kt_flux(e, u, mesh)
            D = diff_of_flux(e, mesh, BaseArr('dflux', (E, S)), F)
            lo, hi = e.v.get(mesh, 'ixi_in'), e.v.get(mesh, 'ixi_out')
            P = z3.Function('partial_sum', z3.IntSort(), R)
            k = e.fresh('k', I); e.add_index(k)
            for j in range(E):
                Fk = lambda i: F(j, i)
                # the terms of the fluxes are opaque here: only their being functions of the interface matters
                G = z3.Function('flux_%s_%d' % (scheme, j), z3.IntSort(), R)
                Dk = diff_of_flux(e, mesh, BaseArr('dflux', (E, S)), lambda jj, i: Fl(G(zi(i))))
                vol = fdiv(ONE, e.v.get(mesh, 'deta_dphi_d_volume').get((k,)))
                s = st.clone().assume(band(icmp('le', lo, k), icmp('le', k, hi)))
                s.assume(req(P(zi(isub(k, 1))), rsub(G(zi(isub(k, 1))), G(zi(isub(lo, 1))))))
                s.assume(req(P(zi(k)), radd(P(zi(isub(k, 1))), rmul(vol.v, Dk.get((j, k)).v))))
                e.oblige(s, 'lemma [%s, %s]: sum up to cell k equals flux(k) - flux(first face), equation %d' % (ph, scheme, j), req(P(zi(k)), rsub(G(zi(k)), G(zi(isub(lo, 1))))), 'lemma')
                e.oblige(st, 'lemma [%s, %s]: volume times reciprocal volume is one, equation %d' % (ph, scheme, j), rlt(rv(0), e.v.get(mesh, 'deta_dphi_d_volume').get((lo,)).v), 'lemma')


# ---------------------------------------------------------------- uniform flow
def filled(e, v, ph):
    v = e.v.set(v, eigen_vals=spec_eigen(e, v, ph))
    return e.v.set(v, flux=spec_flux(e, v, ph))


def uniform(e, u, E, S):
    """every variable of the centred state is the same in every cell"""
    def row(name, n):
        return LamArr((E, S), lambda x: Fl(z3.Real('%s.%s' % (name, x[0])))) if n == 2 else LamArr((S,), lambda x: Fl(z3.Real(name)))
    c = e.v.get(u, 'cent')
    return e.v.set(u, cent=e.v.set(c, prim=row('prim', 2), cons=row('cons', 2), c_sound=row('c', 1), eigen_vals=row('ev', 2)))


@unit('lemma.uniform', ['C25'], 'over the contracts of both schemes: uniform flow has zero derivative in every interior cell')
def _(e):
    for ph in PHYS:
        st0, genv, E, S = setup(e, ph)
        mesh, mr = the_mesh(e, st0, S)
        u = uniform(e, sym_state(e, st0, genv, 'u', (E, S)), E, S)
        lo, hi = e.v.get(mesh, 'ixi_in'), e.v.get(mesh, 'ixi_out')
        i = e.fresh('i', I)
        st0.assume(band(icmp('le', lo, i), icmp('le', i, hi)))
        st0.assume(S < 2 ** 53)
        st = st0
        U = e.v.get(u, 'cent', 'cons')
        for mode in MODES:
            s = st.clone().assume(rlt(rv(1), TH.v))
            for loc in ('west', 'east'):
                for j in range(E):
                    for k in (i, isub(i, 1), iadd(i, 1)):
                        e.oblige(s, 'lemma [%s, %s]: %s faces of uniform flow equal the cell value, equation %d' % (ph, mode, loc, j), fsame(face_cons(e, u, mesh, slope(mode, TH), loc).get((j, k)), U.get((j, k))), 'lemma')
        c = filled(e, e.v.get(u, 'cent'), ph)
        u2 = e.v.set(u, west=c, east=c)     # uniform sound speed at the faces: State::init_west_east (isothermal), Physics::update_c_sound (adiabatic)
        for scheme, F in (('hll', hll_flux(e, c)), ('kt', kt_flux(e, u2, mesh))):
            for j in range(E):
                e.oblige(st, 'lemma [%s, %s]: interface fluxes of uniform flow are equal, equation %d' % (ph, scheme, j), fsame(F(j, i), F(j, isub(i, 1))), 'lemma')
        G = [Fl(z3.Real('G%d' % j)) for j in range(E)]
        D = diff_of_flux(e, mesh, BaseArr('dflux', (E, S)), lambda j, i: G[j])
        for j in range(E):
            e.oblige(st, 'lemma [%s]: equal interface fluxes give zero, equation %d' % (ph, j), req(D.get((j, i)).v, rv(0)), 'lemma')


# ---------------------------------------------------------------- mirror symmetry
SIGN = (1, -1, 1)


def sgn(j, x): return x if SIGN[j] > 0 else fneg(x)


def mirrored(e, v, S, names=('prim', 'cons', 'eigen_vals', 'flux', 'c_sound')):
    """cells reversed, velocity reversed; eigenvalues and physical fluxes follow from their formulas"""
    W, U, c = e.v.get(v, 'prim'), e.v.get(v, 'cons'), e.v.get(v, 'c_sound')
    m = lambda i: mirror_idx(S, i)
    return e.v.set(v, prim=LamArr(W.shape, lambda x: sgn(x[0], W.get((x[0], m(x[1]))))), cons=LamArr(U.shape, lambda x: sgn(x[0], U.get((x[0], m(x[1]))))),
                   c_sound=LamArr(c.shape, lambda x: c.get((m(x[0]),))))


@unit('lemma.mirror', ['C25'], 'over the contracts of both schemes: mirroring the flow mirrors interface fluxes, reconstruction and derivatives')
def _(e):
    for ph in PHYS:
        st, genv, E, S = setup(e, ph)
        st.assume(S < 2 ** 53)
        mesh, mr = the_mesh(e, st, S)
        u = sym_state(e, st, genv, 'u', (E, S))
        i = e.fresh('i', I); e.add_index(i)
        st.assume(band(icmp('le', 1, i), icmp('lt', i, isub(S, 2))))
        m = lambda i: mirror_idx(S, i)
        # HLL
        a = filled(e, e.v.get(u, 'cent'), ph)
        b = filled(e, mirrored(e, e.v.get(u, 'cent'), S), ph)
        moving(e, a, 'cell')
        # derived variables of the mirrored state are the mirrored derived variables
        for j in range(E):
            e.oblige(st, 'lemma [%s]: physical flux of the mirrored state, equation %d' % (ph, j), fsame(e.v.get(b, 'flux').get((j, i)), fneg(sgn(j, e.v.get(a, 'flux').get((j, m(i)))))), 'lemma')
        e.oblige(st, 'lemma [%s]: eigenvalues of the mirrored state' % ph, band(fsame(e.v.get(b, 'eigen_vals').get((0, i)), fneg(e.v.get(a, 'eigen_vals').get((E - 1, m(i))))),
                                                                              fsame(e.v.get(b, 'eigen_vals').get((E - 1, i)), fneg(e.v.get(a, 'eigen_vals').get((0, m(i)))))), 'lemma')
        # opaque derived variables with exactly these properties
        o = e.v.set(e.v.get(u, 'cent'))
        mir = lambda v: e.v.set(mirrored(e, v, S), flux=LamArr((E, S), lambda x: fneg(sgn(x[0], e.v.get(v, 'flux').get((x[0], m(x[1])))))),
                                eigen_vals=LamArr((E, S), lambda x: fneg(e.v.get(v, 'eigen_vals').get((E - 1 - x[0], m(x[1]))))))
        moving(e, o, 'cell')
        F, Fm = hll_flux(e, o), hll_flux(e, mir(o))
        for j in range(E):
            e.oblige(st, 'lemma [%s]: HLL interface flux mirrors, equation %d' % (ph, j), fsame(Fm(j, i), fneg(sgn(j, F(j, isub(isub(S, 2), i))))), 'lemma')
        # KT: reconstruction with any odd and symmetric limiter (lemma.limiter)
        L = z3.Function('L', R, R, R, R)
        lim = lambda a, b, c: Fl(L(a.v, b.v, c.v))
        um = e.v.set(u, cent=mirrored(e, e.v.get(u, 'cent'), S))
        for loc, other in (('west', 'east'), ('east', 'west')):
            for j in range(E):
                x, y = face_cons(e, um, mesh, lim, loc).get((j, i)), face_cons(e, u, mesh, lim, other).get((j, m(i)))
                U = e.v.get(u, 'cent', 'cons')
                k = m(i)
                bw, fw = fsub(U.get((j, k)), U.get((j, isub(k, 1)))), fsub(U.get((j, iadd(k, 1))), U.get((j, k)))
                ce = fmul(HALF, fsub(U.get((j, iadd(k, 1))), U.get((j, isub(k, 1)))))
                s = st.clone()
                # instance of odd + symmetric: L(-s*f, -s*b, -s*c) = -s*L(b, f, c)
                s.assume(fsame(lim(fneg(sgn(j, fw)), fneg(sgn(j, bw)), fneg(sgn(j, ce))), fneg(sgn(j, lim(bw, fw, ce)))))
                e.oblige(s, 'lemma [%s]: %s face of the mirrored state is the mirrored %s face, equation %d' % (ph, loc, other, j), fsame(x, sgn(j, y)), 'lemma')
        # KT interface flux over opaque faces
        W, Ea = e.v.get(u, 'west'), e.v.get(u, 'east')
        for v in (W, Ea): moving(e, v, 'cell at its faces')
        F = kt_flux(e, u, mesh)
        Fm = kt_flux(e, e.v.set(u, west=mir(Ea), east=mir(W)), mesh)
        for j in range(E):
            e.oblige(st, 'lemma [%s]: KT interface flux mirrors, equation %d' % (ph, j), fsame(Fm(j, i), fneg(sgn(j, F(j, isub(isub(S, 2), i))))), 'lemma')
        # derivative
        G = z3.Function('G', z3.IntSort(), R)
        for j in range(E):
            D = diff_of_flux(e, mesh, BaseArr('dflux', (E, S)), lambda jj, i: Fl(G(zi(i))))
            Dm = diff_of_flux(e, mesh, BaseArr('dflux', (E, S)), lambda jj, i: fneg(sgn(jj, Fl(G(zi(isub(isub(S, 2), i)))))))
            s = st.clone().assume(band(icmp('le', 2, i), icmp('le', i, isub(S, 3))))
            e.oblige(s, 'lemma [%s]: derivative mirrors, equation %d' % (ph, j), fsame(Dm.get((j, i)), sgn(j, D.get((j, m(i))))), 'lemma')
