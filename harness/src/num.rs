//! Oracles for the cell-wise and flux-difference properties.
use crate::{gen::*, util::*};
use corries::{prelude::*, state::variables::Variables};
use ndarray::{Array1, Array2};

pub type O = Result<String, String>;
const C: u8 = Direction::Cent as u8;
const W: u8 = Direction::West as u8;
const EA: u8 = Direction::East as u8;

#[macro_export]
macro_rules! sized {
    ($rng:expr, $f:ident) => {{
        match ($rng.n(2), $rng.n(6)) {
            (0, 0) => $f::<Euler1DIsot<6>, 2, 6>($rng),
            (0, 1) => $f::<Euler1DIsot<7>, 2, 7>($rng),
            (0, 2) => $f::<Euler1DIsot<8>, 2, 8>($rng),
            (0, 3) => $f::<Euler1DIsot<12>, 2, 12>($rng),
            (0, 4) => $f::<Euler1DIsot<21>, 2, 21>($rng),
            (0, _) => $f::<Euler1DIsot<100>, 2, 100>($rng),
            (_, 0) => $f::<Euler1DAdiabatic<6>, 3, 6>($rng),
            (_, 1) => $f::<Euler1DAdiabatic<7>, 3, 7>($rng),
            (_, 2) => $f::<Euler1DAdiabatic<8>, 3, 8>($rng),
            (_, 3) => $f::<Euler1DAdiabatic<12>, 3, 12>($rng),
            (_, 4) => $f::<Euler1DAdiabatic<21>, 3, 21>($rng),
            (_, _) => $f::<Euler1DAdiabatic<100>, 3, 100>($rng),
        }
    }};
}


fn cp<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>) -> [Variables<E, S>; 3] {
    [u.cent.clone(), u.west.clone(), u.east.clone()]
}
fn loc<P: Physics<E, S>, const E: usize, const S: usize>(u: &mut State<P, E, S>, d: usize) -> &mut Variables<E, S> {
    match d {
        0 => &mut u.cent,
        1 => &mut u.west,
        _ => &mut u.east,
    }
}
fn locr<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>, d: usize) -> &Variables<E, S> {
    match d {
        0 => &u.cent,
        1 => &u.west,
        _ => &u.east,
    }
}

/// run `f` on direction d (0 cent, 1 west, 2 east, 3 cent through the specialised method)
macro_rules! dir {
    ($u:expr, $d:expr, $fd:ident, $f:ident) => {
        match $d {
            0 => $u.$fd::<C>(),
            1 => $u.$fd::<W>(),
            2 => $u.$fd::<EA>(),
            _ => $u.$f(),
        }
    };
}

fn frames<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>, old: &[Variables<E, S>; 3], d: usize, except: &[&str]) -> R {
    for k in 0..3 {
        frame(&old[k], locr(u, k), if k == d { except } else { &[] }, ["cent", "west", "east"][k])?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C01
fn to_cons<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    let dd = rng.n(4);
    let d = dd % 3;
    let (g, w) = (locr(&u, d).gamma, locr(&u, d).prim.clone());
    scramble_cons(rng, loc(&mut u, d));
    let old = cp(&u);
    dir!(u, dd, update_cons_d, update_cons);
    let x = ref_cons(&w, g);
    cmp2("cons", &locr(&u, d).cons, &x, |_, _| 0.0)?;
    frames(&u, &old, d, &["cons"])?;
    // back again
    dir!(u, dd, update_prim_d, update_prim);
    cmp2("prim after a round trip", &locr(&u, d).prim, &w, |j, i| if j == 2 { x[[2, i]] } else { 0.0 })?;
    Ok(show(locr(&u, d)))
}
fn scramble_cons<const E: usize, const S: usize>(rng: &mut Rng, v: &mut Variables<E, S>) {
    for x in v.cons.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
}
fn to_prim<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    let dd = rng.n(4);
    let d = dd % 3;
    if rng.n(3) == 0 {
        // arbitrary conserved values, negative and zero momenta, energies below the kinetic energy
        let v = loc(&mut u, d);
        for i in 0..S {
            v.cons[[0, i]] = rng.sign() * rng.log(0.1, 10.0);
            v.cons[[1, i]] = [0.0, -0.0, rng.r(-3.0, 3.0)][rng.n(3)];
            if E == 3 {
                v.cons[[2, i]] = rng.r(-3.0, 10.0);
            }
        }
    }
    let (g, c) = (locr(&u, d).gamma, locr(&u, d).cons.clone());
    for x in loc(&mut u, d).prim.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
    let old = cp(&u);
    dir!(u, dd, update_prim_d, update_prim);
    cmp2("prim", &locr(&u, d).prim, &ref_prim(&c, g), |j, i| if j == 2 { c[[2, i]] } else { 0.0 })?;
    frames(&u, &old, d, &["prim"])?;
    dir!(u, dd, update_cons_d, update_cons);
    cmp2("cons after a round trip", &locr(&u, d).cons, &c, |j, i| {
        if j == 2 {
            c[[1, i]] * c[[1, i]] / c[[0, i]]
        } else {
            0.0
        }
    })?;
    Ok(show(locr(&u, d)))
}
pub fn c01(c: &mut Ctx) {
    c.cases("prim_to_cons", 300, |r, _| sized!(r, to_cons));
    c.cases("cons_to_prim", 300, |r, _| sized!(r, to_prim));
}

// ---------------------------------------------------------------- C02
fn flux<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    let dd = rng.n(4);
    let d = dd % 3;
    for x in loc(&mut u, d).flux.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
    for x in loc(&mut u, d).eigen_vals.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
    let old = cp(&u);
    dir!(u, dd, update_flux_d, update_flux);
    let v = &old[d];
    let x = ref_flux(&v.prim, &v.cons, &v.c_sound);
    cmp2("flux", &locr(&u, d).flux, &x, |j, i| {
        let (r, w) = (v.prim[[0, i]], v.prim[[1, i]].abs());
        let p = if E == 3 { v.prim[[2, i]] } else { r * v.c_sound[i] * v.c_sound[i] };
        match j {
            0 => r * w,
            1 => r * w * w + p,
            _ => (v.cons[[2, i]] + p) * w,
        }
    })?;
    frames(&u, &old, d, &["flux"])?;
    Ok(show(locr(&u, d)))
}
pub fn c02(c: &mut Ctx) {
    c.cases("flux", 400, |r, _| sized!(r, flux));
}

// ---------------------------------------------------------------- C03
fn derived<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    let dd = rng.n(4);
    let d = dd % 3;
    let which = rng.n(5);
    for x in loc(&mut u, d).eigen_vals.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
    if E == 3 && (which == 0 || which == 4) {
        for x in loc(&mut u, d).c_sound.iter_mut() {
            *x = rng.r(0.5, 3.0);
        }
    }
    let old = cp(&u);
    let v = &old[d];
    let c = ref_c(&v.prim, &v.c_sound, v.gamma);
    let mut eig = v.eigen_vals.clone();
    let full = ref_eigen(&v.prim, if which == 0 { &c } else { &v.c_sound });
    match which {
        0 => {
            dir!(u, dd, update_derived_variables_d, update_derived_variables);
            eig = full;
        },
        1 => {
            dir!(u, dd, update_eigen_vals_d, update_eigen_vals);
            eig = full;
        },
        2 => {
            dir!(u, dd, update_eigen_vals_min_d, update_eigen_vals_min);
            eig.row_mut(0).assign(&full.row(0));
        },
        3 => {
            dir!(u, dd, update_eigen_vals_max_d, update_eigen_vals_max);
            eig.row_mut(E - 1).assign(&full.row(E - 1));
        },
        _ => dir!(u, dd, update_c_sound_d, update_c_sound),
    }
    let n = locr(&u, d);
    if which == 0 || which == 4 {
        cmp1("c_sound", &n.c_sound, &c)?;
    }
    cmp2("eigen_vals", &n.eigen_vals, &eig, |_, i| v.prim[[1, i]].abs() + n.c_sound[i])?;
    for i in 0..S {
        want(same(n.eigen_min()[i], n.eigen_vals[[0, i]]), || format!("eigen_min of cell {i} is {:e}, not row 0", n.eigen_min()[i]))?;
        want(same(n.eigen_max()[i], n.eigen_vals[[E - 1, i]]), || format!("eigen_max of cell {i} is {:e}, not the last row", n.eigen_max()[i]))?;
    }
    let ex: &[&str] = match which {
        0 if E == 3 => &["c_sound", "eigen_vals"],
        0 | 1 | 2 | 3 => &["eigen_vals"],
        _ if E == 3 => &["c_sound"],
        _ => &[],
    };
    frames(&u, &old, d, ex)?;
    Ok(show(n))
}
/// boundary modes for which densities and pressures stay positive
pub fn tame(rng: &mut Rng, e: usize) -> BoundaryMode {
    if rng.n(3) == 0 {
        return BoundaryMode::NoGradients;
    }
    let pos = [CustomBoundaryMode::NoGradients, CustomBoundaryMode::NearZero];
    let vel = [
        CustomBoundaryMode::NoGradients,
        CustomBoundaryMode::Reflecting,
        CustomBoundaryMode::Extrapolate,
        CustomBoundaryMode::OutflowNoGradients,
        CustomBoundaryMode::OutFlowExtrapolate,
    ];
    let mut l = vec![];
    for j in 0..e {
        if rng.n(6) > 0 {
            l.push((j, if j == 1 { vel[rng.n(5)] } else { pos[rng.n(2)] }));
        }
    }
    BoundaryMode::Custom(l)
}
fn full<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let style = [0, 1, 2, 4, 6][rng.n(5)];
    let mut u = state::<P, E, S>(rng, style);
    let (m, mc) = mesh::<S>(rng);
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    cfg.mesh_config = mc;
    cfg.boundary_condition_west = tame(rng, E);
    cfg.boundary_condition_east = tame(rng, E);
    let mut rhs = Rhs::<Hll<E, S>, E, S>::new(&cfg, &m).map_err(|e| format!("Rhs::new: {e}"))?;
    let d = rng.n(3);
    let from_cons = rng.b();
    let v = loc(&mut u, d);
    if from_cons {
        for x in v.prim.iter_mut() {
            *x = rng.r(0.5, 3.0);
        }
    } else {
        scramble_cons(rng, v);
    }
    for x in v.eigen_vals.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
    if E == 3 {
        v.c_sound.fill(rng.r(0.5, 3.0));
    }
    let old = cp(&u);
    let (bw, be) = (&mut rhs.boundary_west, &mut rhs.boundary_east);
    match (from_cons, d, rng.b()) {
        (true, 0, false) => u.update_vars_from_cons(bw, be, &m),
        (true, 0, true) => u.update_vars_from_cons_d::<C>(bw, be, &m),
        (true, 1, _) => u.update_vars_from_cons_d::<W>(bw, be, &m),
        (true, _, _) => u.update_vars_from_cons_d::<EA>(bw, be, &m),
        (false, 0, false) => u.update_vars_from_prim(bw, be, &m),
        (false, 0, true) => u.update_vars_from_prim_d::<C>(bw, be, &m),
        (false, 1, _) => u.update_vars_from_prim_d::<W>(bw, be, &m),
        (false, _, _) => u.update_vars_from_prim_d::<EA>(bw, be, &m),
    }
    let v = &old[d];
    let mut w = if from_cons { ref_prim(&v.cons, v.gamma) } else { v.prim.clone() };
    ref_boundary(&mut w, false, &cfg.boundary_condition_west, &m.xi_cent);
    ref_boundary(&mut w, true, &cfg.boundary_condition_east, &m.xi_cent);
    let n = locr(&u, d);
    let amp = |j: usize, i: usize| {
        let mut s = 0.0;
        for k in 0..S {
            s = f64::max(s, w[[j, k]].abs());
        }
        if j == 2 {
            s += v.cons[[2, i]].abs();
        }
        s
    };
    cmp2("prim", &n.prim, &w, amp)?;
    let cons = ref_cons(&n.prim, v.gamma);
    cmp2("cons", &n.cons, &cons, |_, _| 0.0)?;
    let c = ref_c(&n.prim, &v.c_sound, v.gamma);
    cmp1("c_sound", &n.c_sound, &c)?;
    cmp2("eigen_vals", &n.eigen_vals, &ref_eigen(&n.prim, &c), |_, i| n.prim[[1, i]].abs() + c[i])?;
    frames(&u, &old, d, &["prim", "cons", "c_sound", "eigen_vals"])?;
    frame(&old[d], n, if E == 3 { &["prim", "cons", "c_sound", "eigen_vals"] } else { &["prim", "cons", "eigen_vals"] }, "updated")?;
    Ok(format!("west={:?} east={:?} {}", cfg.boundary_condition_west, cfg.boundary_condition_east, show(n)))
}
pub fn c03(c: &mut Ctx) {
    c.cases("derived", 400, |r, _| sized!(r, derived));
    c.cases("full_update", 400, |r, _| sized!(r, full));
}

// ---------------------------------------------------------------- C04
fn mesh_case<const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, false, true);
    let (m, mc) = mesh::<S>(rng);
    let (a, b) = (mc.xi_in, mc.xi_out);
    let sc = a.abs().max(b.abs());
    let n = S - 4;
    let dx = (b - a) / n as f64;
    let eq = |name: &str, got: f64, exp: f64, scale: f64| want(near(got, exp, scale), || format!("{name} = {got:e}, expected {exp:e} (xi_in={a:e}, xi_out={b:e}, S={S})"));
    want(
        m.imin == 0 && m.imax == S - 1 && m.n_all == S && m.n_comp == n && m.n_gc == 2 && m.ixi_in == 2 && m.ixi_out == S - 3,
        || format!("index limits {} {} {} {} {} {} {}", m.imin, m.imax, m.n_all, m.n_comp, m.n_gc, m.ixi_in, m.ixi_out),
    )?;
    want(!m.is_logarithmic, || "is_logarithmic on a Cartesian mesh".into())?;
    want(m.deta == 1.0 && m.dphi == 1.0 && m.is_linear, || "deta, dphi or is_linear".into())?;
    eq("xi_in", m.xi_in, a, 0.0)?;
    eq("xi_out", m.xi_out, b, 0.0)?;
    eq("dxi", m.dxi, dx, sc / n as f64)?;
    eq("west face of the first interior cell", m.xi_west[2], a, sc)?;
    eq("east face of the last interior cell", m.xi_east[S - 3], b, sc)?;
    for i in 0..S {
        let x = a + dx * (i as f64 - 2.0);
        eq(&format!("xi_west[{i}]"), m.xi_west[i], x, sc)?;
        eq(&format!("xi_cent[{i}]"), m.xi_cent[i], x + 0.5 * dx, sc)?;
        eq(&format!("xi_east[{i}]"), m.xi_east[i], x + dx, sc)?;
        eq(&format!("xi_west_inv[{i}]"), m.xi_west_inv[i], 1.0 / m.xi_west[i], 0.0)?;
        eq(&format!("xi_cent_inv[{i}]"), m.xi_cent_inv[i], 1.0 / m.xi_cent[i], 0.0)?;
        eq(&format!("xi_east_inv[{i}]"), m.xi_east_inv[i], 1.0 / m.xi_east[i], 0.0)?;
        eq(&format!("cell_width[{i}]"), m.cell_width[i], dx, sc)?;
        eq(&format!("cell_width_inv[{i}]"), m.cell_width_inv[i], 1.0 / m.cell_width[i], 0.0)?;
        let vol = m.dxi;
        let ddv = 1.0 / vol;
        for (nm, arr) in [
            ("h_xi_cent", &m.h_xi_cent), ("h_xi_west", &m.h_xi_west), ("h_xi_east", &m.h_xi_east),
            ("h_eta_cent", &m.h_eta_cent), ("h_eta_west", &m.h_eta_west), ("h_eta_east", &m.h_eta_east),
            ("h_phi_cent", &m.h_phi_cent), ("h_phi_west", &m.h_phi_west), ("h_phi_east", &m.h_phi_east),
            ("sqrt_g", &m.sqrt_g), ("line_xi", &m.line_xi),
            ("area_west", &m.area_west), ("area_east", &m.area_east), ("volume", &m.volume), ("deta_dphi_d_volume", &m.deta_dphi_d_volume),
            ("cexe", &m.cexe), ("cpxp", &m.cpxp), ("cxex", &m.cxex), ("cpep", &m.cpep), ("cxpx", &m.cxpx), ("cepe", &m.cepe),
            ("minus_cexe", &m.minus_cexe), ("minus_cpxp", &m.minus_cpxp), ("minus_cxex", &m.minus_cxex),
            ("minus_cpep", &m.minus_cpep), ("minus_cxpx", &m.minus_cxpx), ("minus_cepe", &m.minus_cepe),
        ] {
            let e = match nm {
                "line_xi" | "volume" => vol,
                "deta_dphi_d_volume" => ddv,
                "cexe" | "cpxp" | "minus_cexe" | "minus_cpxp" => 0.0,
                n if n.starts_with("minus") => -1.0,
                _ => 1.0,
            };
            eq(&format!("{nm}[{i}]"), arr[i], e, 0.0)?;
        }
        eq(&format!("line_xi_inv[{i}]"), m.line_xi_inv[i], 1.0 / m.line_xi[i], 0.0)?;
        eq(&format!("d_area_xi_deta_dphi_west[{i}]"), m.d_area_xi_deta_dphi_west[i], m.h_eta_west[i] * m.h_phi_west[i], 0.0)?;
        eq(&format!("d_area_xi_deta_dphi_east[{i}]"), m.d_area_xi_deta_dphi_east[i], m.h_eta_east[i] * m.h_phi_east[i], 0.0)?;
        eq(&format!("area_cell[{i}]"), m.area_cell[i], m.dxi * m.dxi, sc * m.dxi)?;
    }
    Ok(format!("S={S} {mc:?}"))
}
fn mesh_reject(rng: &mut Rng) -> O {
    const S: usize = 12;
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let (a, b) = match rng.n(3) {
        0 => (bad[rng.n(3)], 2.0),
        1 => (1.0, bad[rng.n(3)]),
        _ => (bad[rng.n(3)], bad[rng.n(3)]),
    };
    match Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: a, xi_out: b }) {
        Ok(_) => Err(format!("mesh with xi_in={a}, xi_out={b} was accepted")),
        Err(_) => Ok(format!("xi_in={a} xi_out={b} rejected")),
    }
}
pub fn c04(c: &mut Ctx) {
    c.cases("geometry", 120, |r, k| match k % 8 {
        0 => mesh_case::<5>(r),
        1 => mesh_case::<6>(r),
        2 => mesh_case::<7>(r),
        3 => mesh_case::<8>(r),
        4 => mesh_case::<12>(r),
        5 => mesh_case::<21>(r),
        6 => mesh_case::<100>(r),
        _ => mesh_case::<1000>(r),
    });
    c.cases("non_finite_rejected", 20, |r, _| mesh_reject(r));
}

// ---------------------------------------------------------------- C05
pub struct Nop;
impl<const E: usize, const S: usize> Physics<E, S> for Nop {
    const NUM_EQ: usize = E;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Nop
    }
    fn name() -> String {
        "nop".into()
    }
    fn update_prim(_: &mut Variables<E, S>) {}
    fn update_cons(_: &mut Variables<E, S>) {}
    fn update_derived_variables(_: &mut Variables<E, S>) {}
    fn update_flux(_: &mut Variables<E, S>) {}
    fn validate(_: &Variables<E, S>) -> color_eyre::Result<()> {
        Ok(())
    }
}
fn bc_case<const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let (m, mc) = mesh::<S>(rng);
    let kepler_ok = m.xi_cent[0] > 0.0;
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    cfg.mesh_config = mc;
    let mut pick = || loop {
        let b = boundary(rng, E);
        let k = match &b {
            BoundaryMode::Custom(l) => l.iter().any(|x| {
                matches!(x.1, CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler)
            }),
            _ => false,
        };
        if kepler_ok || !k {
            return b;
        }
    };
    cfg.boundary_condition_west = pick();
    cfg.boundary_condition_east = pick();
    let mut rhs = Rhs::<Hll<E, S>, E, S>::new(&cfg, &m).map_err(|e| format!("Rhs::new: {e}"))?;
    let mut u = State::<Nop, E, S>::new(&phys_config(1.4));
    for v in [&mut u.cent, &mut u.west, &mut u.east] {
        scramble(rng, v);
        for x in v.prim.iter_mut() {
            *x = [rng.r(-3.0, 3.0), 0.0, -0.0, rng.r(1.0, 2.0)][rng.n(4)];
        }
    }
    let old = cp(&u);
    u.update_vars_from_prim(&mut rhs.boundary_west, &mut rhs.boundary_east, &m);
    let mut w = old[0].prim.clone();
    ref_boundary(&mut w, false, &cfg.boundary_condition_west, &m.xi_cent);
    ref_boundary(&mut w, true, &cfg.boundary_condition_east, &m.xi_cent);
    let d = format!("west={:?} east={:?} before={:?}", cfg.boundary_condition_west, cfg.boundary_condition_east, old[0].prim);
    for j in 0..E {
        for i in 0..S {
            let (g, x) = (u.cent.prim[[j, i]], w[[j, i]]);
            let ok = if (2..S - 2).contains(&i) { g.to_bits() == x.to_bits() } else { near(g, x, 10.0) && (g != 0.0 || x != 0.0 || true) };
            want(ok, || format!("prim[{j},{i}] = {g:e}, expected {x:e}; {d}"))?;
        }
    }
    frames(&u, &old, 0, &["prim"])?;
    Ok(d)
}
pub fn c05(c: &mut Ctx) {
    c.cases("ghost_cells", 1500, |r, k| match k % 6 {
        0 => bc_case::<2, 6>(r),
        1 => bc_case::<3, 6>(r),
        2 => bc_case::<2, 7>(r),
        3 => bc_case::<3, 9>(r),
        4 => bc_case::<4, 12>(r),
        _ => bc_case::<2, 100>(r),
    });
}

// ---------------------------------------------------------------- flux schemes
pub const LIMITERS: usize = 5;
pub fn limiter(k: usize, rng: &mut Rng) -> LimiterMode {
    match k % LIMITERS {
        0 => LimiterMode::NoLimiter,
        1 => LimiterMode::MinMod,
        2 => LimiterMode::Superbee,
        3 => LimiterMode::Monocent(rng.r(1.01, 2.5)),
        _ => LimiterMode::VanLeer,
    }
}
fn minmod(v: &[f64]) -> f64 {
    if v.iter().all(|x| *x > 0.0) {
        v.iter().cloned().fold(f64::INFINITY, f64::min)
    } else if v.iter().all(|x| *x < 0.0) {
        v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)
    } else {
        0.0
    }
}
pub fn slope(l: LimiterMode, a: f64, b: f64) -> f64 {
    match l {
        LimiterMode::NoLimiter => 0.5 * (a + b),
        LimiterMode::MinMod => minmod(&[a, b]),
        LimiterMode::Superbee => {
            let m = minmod(&[a, b]);
            m.signum() * m.abs().min(0.5 * a.abs().max(b.abs()))
        },
        LimiterMode::Monocent(p) => minmod(&[p * a, p * b, 0.5 * (a + b)]),
        LimiterMode::VanLeer => {
            if a * b > 0.0 {
                2.0 * a * b / (a + b)
            } else {
                0.0
            }
        },
    }
}
/// interface fluxes f[s] between cells s and s+1, s in 1..=S-3, and a magnitude for comparisons
fn ref_hll<const E: usize, const S: usize>(v: &Variables<E, S>) -> (Array2<f64>, Array2<f64>) {
    let fl = ref_flux(&v.prim, &v.cons, &v.c_sound);
    let mut f = Array2::zeros((E, S));
    let mut a = Array2::zeros((E, S));
    for s in 1..=S - 3 {
        let sl = [0.0, v.eigen_vals[[0, s]], v.eigen_vals[[0, s + 1]]].into_iter().fold(f64::INFINITY, f64::min);
        let sr = [0.0, v.eigen_vals[[E - 1, s]], v.eigen_vals[[E - 1, s + 1]]].into_iter().fold(f64::NEG_INFINITY, f64::max);
        for j in 0..E {
            let (l, r) = (fl[[j, s]], fl[[j, s + 1]]);
            let (ul, ur) = (v.cons[[j, s]], v.cons[[j, s + 1]]);
            f[[j, s]] = (sr * l - sl * r + sr * sl * (ur - ul)) / (sr - sl);
            a[[j, s]] = ((sr * l).abs() + (sl * r).abs() + (sr * sl).abs() * (ul.abs() + ur.abs())) / (sr - sl);
        }
    }
    (f, a)
}
struct Faces {
    west: Array2<f64>,
    east: Array2<f64>,
}
fn ref_faces(u: &Array2<f64>, l: LimiterMode) -> Faces {
    let (mut w, mut e) = (u.clone(), u.clone());
    for j in 0..u.nrows() {
        for i in 1..u.ncols() - 1 {
            let h = 0.5 * slope(l, u[[j, i]] - u[[j, i - 1]], u[[j, i + 1]] - u[[j, i]]);
            w[[j, i]] -= h;
            e[[j, i]] += h;
        }
    }
    Faces { west: w, east: e }
}
fn ref_kt<const E: usize, const S: usize>(v: &Variables<E, S>, l: LimiterMode, cw: &Array1<f64>, ce: &Array1<f64>) -> Option<(Array2<f64>, Array2<f64>)> {
    let fc = ref_faces(&v.cons, l);
    let g = v.gamma;
    let (pw, pe) = (ref_prim(&fc.west, g), ref_prim(&fc.east, g));
    for i in 1..=S - 2 {
        for p in [&pw, &pe] {
            if !(p[[0, i]] > 0.0) || (E == 3 && !(p[[2, i]] > 1e-9 * v.cons[[2, i]].abs())) {
                return None;
            }
        }
    }
    let (sw, se) = (ref_c(&pw, cw, g), ref_c(&pe, ce, g));
    let (ew, ee) = (ref_eigen(&pw, &sw), ref_eigen(&pe, &se));
    let (fw, fe) = (ref_flux(&pw, &fc.west, &sw), ref_flux(&pe, &fc.east, &se));
    let mut f = Array2::zeros((E, S));
    let mut a = Array2::zeros((E, S));
    for s in 1..=S - 3 {
        let ap = 0f64.max(ew[[E - 1, s + 1]]).max(ee[[E - 1, s]]);
        let am = 0f64.min(ew[[0, s + 1]]).min(ee[[0, s]]);
        for j in 0..E {
            let (l, r) = (fe[[j, s]], fw[[j, s + 1]]);
            let (ul, ur) = (fc.east[[j, s]], fc.west[[j, s + 1]]);
            f[[j, s]] = (ap * l - am * r + ap * am * (ur - ul)) / (ap - am);
            a[[j, s]] = ((ap * l).abs() + (am * r).abs() + (ap * am).abs() * (ul.abs() + ur.abs())) / (ap - am);
        }
    }
    // the pressure at the faces carries the cancellation error of the energy
    if E == 3 {
        for s in 1..=S - 3 {
            let (ue, uv) = (unit_cons(2), units().1);
            let amp = (v.cons[[2, s]].abs() + v.cons[[2, s + 1]].abs()) / ue * (1.0 + (v.prim[[1, s]].abs() + v.prim[[1, s + 1]].abs()) / uv) * 1e2;
            for j in 0..E {
                a[[j, s]] += amp * unit_flux(j) * if j == 2 { 1.0 + v.prim[[1, s]].abs() / uv } else { 1.0 };
            }
        }
    }
    Some((f, a))
}
fn check_dflux<const S: usize>(got: &Array2<f64>, before: &Array2<f64>, f: &Array2<f64>, amp: &Array2<f64>, m: &Mesh<S>) -> R {
    for j in 0..got.nrows() {
        for i in 0..S {
            if (2..=S - 3).contains(&i) {
                let x = (f[[j, i]] - f[[j, i - 1]]) / m.dxi;
                want(near(got[[j, i]], x, (amp[[j, i]] + amp[[j, i - 1]]) / m.dxi), || format!("dflux[{j},{i}] = {:e}, expected {x:e}", got[[j, i]]))?;
            } else {
                want(same(got[[j, i]], before[[j, i]]), || format!("ghost entry dflux[{j},{i}] changed from {:e} to {:e}", before[[j, i]], got[[j, i]]))?;
            }
        }
    }
    Ok(())
}
fn noise(rng: &mut Rng, e: usize, s: usize) -> Array2<f64> {
    Array2::from_shape_fn((e, s), |_| rng.r(-1.0, 1.0))
}
fn style_flow(rng: &mut Rng) -> usize {
    [0, 1, 2, 4, 5, 6, 7, 8][rng.n(8)]
}
fn hll_case<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, mc) = mesh::<S>(rng);
    let mut h = Hll::<E, S>::new(&NumFluxConfig::Hll, &m).map_err(|e| e.to_string())?;
    let mut desc = String::new();
    // several evaluations with one object: nothing may be left over from the previous one
    for _ in 0..1 + rng.n(2) {
        let style = style_flow(rng);
        let mut u = state::<P, E, S>(rng, style);
        u.cent.flux.fill(0.0);
        let old = cp(&u);
        let before = noise(rng, E, S);
        let mut d = before.clone();
        h.calc_dflux_dxi(&mut d, &mut u, &m).map_err(|e| format!("error for a finite state: {e}; {}", show(&old[0])))?;
        let (f, a) = ref_hll(&old[0]);
        check_dflux(&d, &before, &f, &a, &m).map_err(|e| format!("{e}; {mc:?} {}", show(&old[0])))?;
        frame(&old[0], &u.cent, &["flux"], "cent")?;
        desc = show(&old[0]);
    }
    Ok(desc)
}
fn kt_case_l<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, mc) = mesh::<S>(rng);
    let k = rng.n(LIMITERS);
    let l = limiter(k, rng);
    let mut h = Kt::<E, S>::new(&NumFluxConfig::Kt { limiter_mode: l }, &m).map_err(|e| e.to_string())?;
    let mut desc = String::new();
    for _ in 0..1 + rng.n(2) {
        let style = style_flow(rng);
        let mut u = state::<P, E, S>(rng, style);
        let c = u.cent.c_sound.clone();
        if rng.b() {
            u.init_west_east();
        }
        let _ = c;
        u.west.gamma = u.cent.gamma;
        u.east.gamma = u.cent.gamma;
        let old = cp(&u);
        let before = noise(rng, E, S);
        let mut d = before.clone();
        let Some((f, a)) = ref_kt(&old[0], l, &old[1].c_sound, &old[2].c_sound) else {
            return Ok("trivial".into());
        };
        h.calc_dflux_dxi(&mut d, &mut u, &m).map_err(|e| format!("error for a finite state: {e}; {l:?} {}", show(&old[0])))?;
        check_dflux(&d, &before, &f, &a, &m).map_err(|e| format!("{e}; {l:?} {mc:?} {}", show(&old[0])))?;
        let fc = ref_faces(&old[0].cons, l);
        for j in 0..E {
            for i in 1..S - 1 {
                let sc = old[0].cons[[j, i]].abs() + old[0].cons[[j, i - 1]].abs() + old[0].cons[[j, i + 1]].abs();
                for (nm, got, x) in [("west", u.west.cons[[j, i]], fc.west[[j, i]]), ("east", u.east.cons[[j, i]], fc.east[[j, i]])] {
                    want(near(got, x, sc), || format!("{nm} face value [{j},{i}] = {got:e}, expected {x:e}; {l:?} {}", show(&old[0])))?;
                }
            }
        }
        frame(&old[0], &u.cent, &[], "cent")?;
        desc = format!("{l:?} {}", show(&old[0]));
    }
    Ok(desc)
}
pub fn c06(c: &mut Ctx) {
    c.cases("hll", 600, |r, _| sized!(r, hll_case));
}
pub fn c07(c: &mut Ctx) {
    c.cases("kt", 800, |r, _| sized!(r, kt_case_l));
}

// ---------------------------------------------------------------- C08
fn limiter_case<const S: usize>(rng: &mut Rng) -> O {
    let (m, _) = mesh::<S>(rng);
    let k = rng.n(LIMITERS);
    let l = limiter(k, rng);
    let mut h = Kt::<2, S>::new(&NumFluxConfig::Kt { limiter_mode: l }, &m).map_err(|e| e.to_string())?;
    let mut u = State::<Euler1DIsot<S>, 2, S>::new(&phys_config(1.4));
    for v in [&mut u.cent, &mut u.west, &mut u.east] {
        v.c_sound.fill(1.0);
    }
    let style = rng.n(5);
    let q = rng.r(0.1, 0.4);
    for i in 0..S {
        // densities stay positive for every limiter; momenta are arbitrary
        u.cent.cons[[0, i]] = match style {
            0 => 10.0 + rng.r(-1.0, 1.0),
            1 => 10.0 + [0.0, q, 2.0 * q, q][rng.n(4)],
            2 => 10.0 + if i % 2 == 0 { q } else { 0.0 },
            3 => 10.0 + q * i as f64 / S as f64,
            _ => 10.0 + q * (i * i) as f64 / (S * S) as f64,
        };
        u.cent.cons[[1, i]] = match style {
            0 => rng.sign() * rng.log(1e-12, 1e3),
            1 => [0.0, -1.0, 1.0, 2.0, -2.0, 3.0][rng.n(6)],
            2 => rng.r(-1.0, 1.0),
            3 => -(i as f64),
            _ => 1e-120 * rng.r(-1.0, 1.0),
        };
    }
    u.cent.prim.assign(&ref_prim(&u.cent.cons, 1.4));
    let x = u.cent.cons.clone();
    let mut d = Array2::zeros((2, S));
    h.calc_dflux_dxi(&mut d, &mut u, &m).map_err(|e| format!("error: {e}"))?;
    for j in 0..2 {
        for i in 1..S - 1 {
            let (p, q, r) = (x[[j, i - 1]], x[[j, i]], x[[j, i + 1]]);
            let s = slope(l, q - p, r - q);
            let (w, e) = (u.west.cons[[j, i]], u.east.cons[[j, i]]);
            let mag = p.abs() + q.abs() + r.abs();
            let inf = || format!("{l:?}, neighbours {p:e} {q:e} {r:e}: faces {w:e} {e:e}, expected slope {s:e}");
            want(near(w, q - 0.5 * s, mag) && near(e, q + 0.5 * s, mag), inf)?;
            if k % LIMITERS == 1 || k % LIMITERS == 2 || k % LIMITERS == 4 {
                let tol = 1e-12 * mag;
                let (lo, hi) = (p.min(q).min(r) - tol, p.max(q).max(r) + tol);
                want(w >= lo && w <= hi && e >= lo && e <= hi, || format!("face value outside the range of the neighbours: {}", inf()))?;
            }
            if k % LIMITERS != 0 && (q - p) * (r - q) <= 0.0 && q - p != r - q {
                want((w - q).abs() <= 1e-12 * mag && (e - q).abs() <= 1e-12 * mag, || format!("slope at an extremum: {}", inf()))?;
            }
        }
    }
    Ok(format!("{l:?} {:?}", x.row(1).to_vec()))
}
pub fn c08(c: &mut Ctx) {
    c.cases("slopes", 800, |r, k| match k % 4 {
        0 => limiter_case::<6>(r),
        1 => limiter_case::<9>(r),
        2 => limiter_case::<16>(r),
        _ => limiter_case::<40>(r),
    });
}

// ---------------------------------------------------------------- C09
fn sum_hll<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, _) = mesh::<S>(rng);
    let style = style_flow(rng);
    let mut u = state::<P, E, S>(rng, style);
    u.west.gamma = u.cent.gamma;
    u.east.gamma = u.cent.gamma;
    let old = cp(&u);
    let mut d = Array2::zeros((E, S));
    let which = rng.n(1 + LIMITERS);
    let r = if which == 0 {
        let mut h = Hll::<E, S>::new(&NumFluxConfig::Hll, &m).map_err(|e| e.to_string())?;
        h.calc_dflux_dxi(&mut d, &mut u, &m).map_err(|e| format!("error for a finite state: {e}"))?;
        Some(ref_hll(&old[0]))
    } else {
        let l = limiter(which, rng);
        let r = ref_kt(&old[0], l, &old[1].c_sound, &old[2].c_sound);
        if r.is_none() {
            return Ok("trivial".into());
        }
        let mut h = Kt::<E, S>::new(&NumFluxConfig::Kt { limiter_mode: l }, &m).map_err(|e| e.to_string())?;
        h.calc_dflux_dxi(&mut d, &mut u, &m).map_err(|e| format!("error for a finite state: {e}"))?;
        r
    };
    let (f, a) = r.unwrap();
    for j in 0..E {
        let tot: f64 = (2..=S - 3).map(|i| d[[j, i]] * m.dxi).sum();
        let x = f[[j, S - 3]] - f[[j, 1]];
        let sc: f64 = (1..=S - 3).map(|i| a[[j, i]]).sum();
        want(near(tot, x, sc), || format!("equation {j}: sum over interior cells {tot:e}, boundary fluxes {x:e}; scheme {which}, {}", show(&old[0])))?;
    }
    Ok(format!("scheme {which} {}", show(&old[0])))
}
/// a whole time step on a periodic-like configuration: both boundaries see identical uniform states,
/// so the total may not change at all
fn step_total<P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    fn go<P: Physics<E, S> + 'static, N: NumFlux<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng, nf: NumFluxConfig) -> O {
        roll_units(rng, false, false);
        let modes = [RKFMode::RK1, RKFMode::RK2, RKFMode::RK3, RKFMode::RK4, RKFMode::Heun2, RKFMode::RKF12, RKFMode::RKF45, RKFMode::SSPRK3, RKFMode::SSPRK5];
        let mut cfg = config(nf, modes[rng.n(9)]);
        cfg.physics_config.adiabatic_index = gamma(rng);
        let w = prims(rng, E, S, 8);
        let bump = rng.r(0.05, 0.5);
        let mut w2 = w.clone();
        // a bump well inside the domain
        for i in S / 2 - 2..S / 2 + 2 {
            w2[[0, i]] *= 1.0 + bump * rng.f();
            w2[[1, i]] += bump;
        }
        give(&w2, &Array1::from_elem(S, rng.log(0.5, 2.0)));
        let (mut u, mut solver, m, _) = cfg
            .init_corries::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>(init_given)
            .map_err(|e| format!("init: {e}"))?;
        let t0: Vec<f64> = (0..E).map(|j| (2..S - 2).map(|i| u.cent.cons[[j, i]]).sum()).collect();
        let size: f64 = (0..E).map(|j| w.row(j).iter().map(|x| x.abs()).sum::<f64>() / if j == 1 { 1.0 } else { units().0 }).sum();
        let mg: Vec<f64> = (0..E).map(|j| (2..S - 2).map(|i| u.cent.cons[[j, i]].abs() + u.cent.flux[[j, i]].abs()).sum::<f64>() + size * units().0).collect();
        for _ in 0..2 {
            if solver.next_solution(&mut u, &m).is_err() {
                return Ok("trivial".into());
            }
        }
        for j in 0..E {
            let t: f64 = (2..S - 2).map(|i| u.cent.cons[[j, i]]).sum();
            want((t - t0[j]).abs() <= 1e-10 * mg[j], || format!("{nf:?}: total of equation {j} changed from {:e} to {t:e} although both ends are uniform", t0[j]))?;
        }
        Ok(format!("{nf:?} totals {t0:?}"))
    }
    if rng.b() {
        go::<P, Hll<E, S>, E, S>(rng, NumFluxConfig::Hll)
    } else {
        let k = 1 + rng.n(LIMITERS - 1);
        let l = limiter(k, rng);
        go::<P, Kt<E, S>, E, S>(rng, NumFluxConfig::Kt { limiter_mode: l })
    }
}
pub fn c09(c: &mut Ctx) {
    c.cases("interior_sum", 600, |r, _| sized!(r, sum_hll));
    c.cases("step_totals", 60, |r, _| {
        if r.b() {
            step_total::<Euler1DIsot<60>, 2, 60>(r)
        } else {
            step_total::<Euler1DAdiabatic<80>, 3, 80>(r)
        }
    });
}

// ---------------------------------------------------------------- C19
fn assign_case<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let mut a = state::<P, E, S>(rng, 1);
    let mut b = state::<P, E, S>(rng, 1);
    b.west.cons.row_mut(0).fill(rng.r(3.0, 4.0));
    if rng.n(4) == 0 {
        b.cent.prim[[0, rng.n(S)]] = f64::NAN;
    }
    let (oa, ob) = (cp(&a), cp(&b));
    let k = rng.n(6);
    let hit: [bool; 3] = match k {
        0 => {
            a.assign(&b);
            [true; 3]
        },
        1 => {
            a.assign_vars(&b);
            [true, false, false]
        },
        2 => {
            a.assign_vars_d::<C>(&b);
            [true, false, false]
        },
        3 => {
            a.assign_vars_d::<W>(&b);
            [false, true, false]
        },
        4 => {
            a.assign_vars_d::<EA>(&b);
            [false, false, true]
        },
        _ => {
            b.init_west_east();
            let src = &ob[0];
            for d in 1..3 {
                copied(src, locr(&b, d), &ob[d])?;
            }
            frame(&ob[0], &b.cent, &[], "cent")?;
            return Ok("init_west_east".into());
        },
    };
    for d in 0..3 {
        if hit[d] {
            copied(&ob[d], locr(&a, d), &oa[d])?;
        } else {
            frame(&oa[d], locr(&a, d), &[], "untouched location")?;
        }
        frame(&ob[d], locr(&b, d), &[], "source")?;
    }
    Ok(format!("variant {k} {}", show(&ob[0])))
}
fn copied<const E: usize, const S: usize>(src: &Variables<E, S>, dst: &Variables<E, S>, _before: &Variables<E, S>) -> R {
    let mut x = dst.clone();
    x.eigen_vals = src.eigen_vals.clone();
    x.flux = src.flux.clone();
    x.gamma = src.gamma;
    frame(src, &x, &[], "copy")
}
pub fn c19(c: &mut Ctx) {
    c.cases("assign", 300, |r, _| sized!(r, assign_case));
}

// ---------------------------------------------------------------- C22
fn initf<P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    type N<const E: usize, const S: usize> = Hll<E, S>;
    let cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    let m = Mesh::<S>::new(&cfg.mesh_config).map_err(|e| e.to_string())?;
    let mut solver = Solver::<P, N<E, S>, RungeKuttaFehlberg<P, E, S>, E, S>::new(&cfg, &m).map_err(|e| e.to_string())?;
    let mut u = state::<P, E, S>(rng, 1);
    let old = cp(&u);
    let sod = rng.b();
    let r = if sod { corries::initfuncs::init_sod(&mut u, &mut solver, &m) } else { corries::initfuncs::init_noh(&mut u, &mut solver, &m) };
    if sod && !P::IS_ADIABATIC {
        want(r.is_err(), || "init_sod accepted isothermal physics".into())?;
        for d in 0..3 {
            frame(&old[d], locr(&u, d), &[], "state after a refused init_sod")?;
        }
        return Ok("sod refused".into());
    }
    r.map_err(|e| format!("init function failed: {e}"))?;
    for i in 0..S {
        let first = i < S / 2;
        let (rho, v, p) = if sod {
            if first {
                (1.0, 0.0, 1.0)
            } else {
                (0.125, 0.0, 0.1)
            }
        } else {
            (1.0, if first { 1.0 } else { -1.0 }, 1.0e-5)
        };
        let w = &u.cent.prim;
        want(w[[0, i]] == rho && w[[1, i]] == v && (E == 2 || w[[2, i]] == p), || format!("cell {i} of {S}: {:?}", w.column(i).to_vec()))?;
        if E == 2 {
            want(u.cent.c_sound[i] == 1.0, || format!("sound speed {:e} in cell {i}", u.cent.c_sound[i]))?;
        }
    }
    frames(&u, &old, 0, if E == 2 { &["prim", "c_sound"] } else { &["prim"] })?;
    Ok(format!("sod={sod} S={S} E={E}"))
}
pub fn c22(c: &mut Ctx) {
    c.cases("initial_states", 120, |r, _| sized!(r, initf));
    c.cases("initial_states_odd", 40, |r, _| {
        if r.b() {
            initf::<Euler1DIsot<13>, 2, 13>(r)
        } else {
            initf::<Euler1DAdiabatic<33>, 3, 33>(r)
        }
    });
}

// ---------------------------------------------------------------- C24
fn cfl<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, mc) = mesh::<S>(rng);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    if rng.b() {
        // one dominant cell with a fast wave in one direction
        let i = rng.n(S);
        let (v, c) = (rng.sign() * 1e5 * units().1, u.cent.c_sound[i]);
        u.cent.prim[[1, i]] = v;
        for j in 0..E {
            u.cent.eigen_vals[[j, i]] = v + c * (2.0 * j as f64 / (E - 1) as f64 - 1.0);
        }
    }
    let cf = [0.4, 1.0, rng.log(1e-3, 10.0)][rng.n(3)];
    let mut mx = 0.0f64;
    for i in 0..S {
        let e = u.cent.eigen_vals[[0, i]].abs().max(u.cent.eigen_vals[[E - 1, i]].abs());
        mx = mx.max(e / m.cell_width[i]);
    }
    let dt = u.calc_dt_cfl(cf, &m).map_err(|e| format!("error for a finite state: {e}"))?;
    want(near(dt, cf / mx, 0.0), || format!("dt = {dt:e}, expected {:e} for c_cfl={cf}, {mc:?}, eigenvalues {:?}", cf / mx, u.cent.eigen_vals))?;
    Ok(format!("c_cfl={cf} dt={dt:e} {}", show(&u.cent)))
}
/// without any characteristic speed there is no finite step
fn cfl_still<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let (m, mc) = mesh::<S>(rng);
    let style = rng.n(STYLES);
    let mut u = state::<P, E, S>(rng, style);
    u.cent.eigen_vals.fill(0.0);
    let cf = rng.log(1e-3, 10.0);
    let r = u.calc_dt_cfl(cf, &m);
    want(r.is_err(), || format!("dt = {:e} for a state without any wave, c_cfl={cf}, {mc:?}", r.as_ref().unwrap()))?;
    Ok(format!("c_cfl={cf} {mc:?}"))
}
pub fn c24(c: &mut Ctx) {
    c.cases("cfl_still", 40, |r, _| sized!(r, cfl_still));
    c.cases("cfl", 500, |r, _| sized!(r, cfl));
}

// ---------------------------------------------------------------- C25
fn run_scheme<P: Physics<E, S>, const E: usize, const S: usize>(u: &mut State<P, E, S>, m: &Mesh<S>, which: usize, l: LimiterMode) -> Result<Array2<f64>, String> {
    let mut d = Array2::zeros((E, S));
    if which == 0 {
        Hll::<E, S>::new(&NumFluxConfig::Hll, m).and_then(|mut h| h.calc_dflux_dxi(&mut d, u, m)).map_err(|e| e.to_string())?;
    } else {
        Kt::<E, S>::new(&NumFluxConfig::Kt { limiter_mode: l }, m).and_then(|mut h| h.calc_dflux_dxi(&mut d, u, m)).map_err(|e| e.to_string())?;
    }
    Ok(d)
}
/// size of fluxes and conserved variables in the units of the case
fn magnitude<const E: usize, const S: usize>(v: &Variables<E, S>) -> f64 {
    let mut a = 0.0f64;
    for j in 0..E {
        for i in 0..S {
            a = a.max(v.flux[[j, i]].abs() / unit_flux(j)).max(v.cons[[j, i]].abs() / unit_cons(j));
        }
    }
    a * (1.0 + v.eigen_vals.iter().map(|x| x.abs() / units().1).fold(0.0, f64::max))
}
fn uniform<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, _) = mesh::<S>(rng);
    let g = gamma(rng);
    let mut u = State::<P, E, S>::new(&phys_config(g));
    let w = prims(rng, E, S, 8);
    let c = Array1::from_elem(S, rng.log(0.1, 10.0) * units().1);
    for v in [&mut u.cent, &mut u.west, &mut u.east] {
        fill(v, &w, &c, g);
    }
    let which = rng.n(6);
    let l = limiter(which, rng);
    let d = run_scheme(&mut u, &m, which, l)?;
    let amp: f64 = magnitude(&u.cent);
    for j in 0..E {
        for i in 2..S - 2 {
            want((d[[j, i]] * m.dxi).abs() <= 1e-11 * amp * unit_flux(j), || format!("scheme {which} {l:?}: derivative [{j},{i}] of a uniform state is {:e}; {}", d[[j, i]], show(&u.cent)))?;
        }
    }
    Ok(format!("scheme {which} {}", show(&u.cent)))
}
fn mirror<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, true, true);
    let (m, _) = mesh::<S>(rng);
    let g = gamma(rng);
    let style = style_flow(rng);
    let w = prims(rng, E, S, style);
    let c = Array1::from_elem(S, rng.log(0.1, 10.0) * units().1);
    let mut w2 = w.clone();
    for j in 0..E {
        for i in 0..S {
            w2[[j, i]] = w[[j, S - 1 - i]] * if j == 1 { -1.0 } else { 1.0 };
        }
    }
    let which = rng.n(6);
    let l = limiter(which, rng);
    let mut out = vec![];
    let mut amp = 0.0f64;
    for x in [&w, &w2] {
        let mut u = State::<P, E, S>::new(&phys_config(g));
        for v in [&mut u.cent, &mut u.west, &mut u.east] {
            fill(v, x, &c, g);
        }
        if which > 0 && ref_kt(&u.cent, l, &c, &c).is_none() {
            return Ok("trivial".into());
        }
        amp = amp.max(magnitude(&u.cent));
        out.push(run_scheme(&mut u, &m, which, l)?);
    }
    for j in 0..E {
        for i in 2..S - 2 {
            let (x, y) = (out[1][[j, S - 1 - i]], out[0][[j, i]] * if j == 1 { -1.0 } else { 1.0 });
            want(near(x, y, amp * 1e2 * unit_flux(j) / m.dxi), || format!("scheme {which} {l:?}: derivative [{j},{i}] is {:e}, mirrored {:e}; rho, v, p = {:?}", out[0][[j, i]], out[1][[j, S - 1 - i]], w))?;
        }
    }
    Ok(format!("scheme {which} {w:?}"))
}
pub fn c25(c: &mut Ctx) {
    c.cases("uniform", 300, |r, _| sized!(r, uniform));
    c.cases("mirror", 400, |r, _| sized!(r, mirror));
}
