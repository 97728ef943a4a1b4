//! Generators of flow states and independent reference formulas.
use crate::util::*;
use corries::{prelude::*, state::variables::Variables};
use ndarray::{Array1, Array2};

pub const STYLES: usize = 9;

thread_local! {
    static UNITS: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((1.0, 1.0, 1.0)) };
}
pub fn reset_units() {
    UNITS.with(|u| u.set((1.0, 1.0, 1.0)));
}
/// units of density, velocity and length of the current case
pub fn units() -> (f64, f64, f64) {
    UNITS.with(|u| u.get())
}
/// in some cases all states and meshes are generated in other units; powers of two, so that rounding is the same as before
pub fn roll_units(rng: &mut Rng, velocity: bool, length: bool) {
    let mut pow = |on: bool, n: i32| if on { 2f64.powi(rng.n(2 * n as usize + 1) as i32 - n) } else { 1.0 };
    let u = (pow(true, 60), pow(velocity, 50), pow(length, 50));
    if rng.n(3) == 0 {
        UNITS.with(|x| x.set(u));
    }
}
/// unit of the conserved variable of an equation, and of its flux
pub fn unit_cons(j: usize) -> f64 {
    units().0 * units().1.powi(j as i32)
}
pub fn unit_flux(j: usize) -> f64 {
    unit_cons(j) * units().1
}

/// primitive variables of `s` cells, row per equation (rho, v[, p])
pub fn prims(rng: &mut Rng, e: usize, s: usize, style: usize) -> Array2<f64> {
    let mut w = Array2::zeros((e, s));
    let (r0, v0, p0) = (rng.log(0.1, 10.0), rng.r(-3.0, 3.0), rng.log(0.05, 20.0));
    let ph = rng.r(0.0, 6.0);
    let cut = 1 + rng.n(s - 1);
    let (r1, v1, p1) = (rng.log(0.1, 10.0), rng.r(-3.0, 3.0), rng.log(0.05, 20.0));
    for i in 0..s {
        let x = i as f64 / s as f64;
        let (r, v, p) = match style {
            0 => (
                r0 * (1.0 + 0.3 * (6.0 * x + ph).sin()),
                v0 + 0.5 * (5.0 * x + 2.0 * ph).cos(),
                p0 * (1.0 + 0.4 * (4.0 * x - ph).sin()),
            ),
            1 => (rng.log(0.1, 10.0), rng.r(-3.0, 3.0), rng.log(0.05, 20.0)),
            2 => {
                if i < cut {
                    (r0, v0, p0)
                } else {
                    (r1, v1, p1)
                }
            }
            3 => (rng.log(1e-6, 1e6), rng.sign() * rng.log(1e-6, 1e4), rng.log(1e-6, 1e6)),
            4 => (r0 * rng.r(0.9, 1.1), 40.0 + rng.r(0.0, 5.0), rng.log(0.05, 2.0)),
            5 => (r0 * rng.r(0.9, 1.1), -40.0 - rng.r(0.0, 5.0), rng.log(0.05, 2.0)),
            6 => (
                [r0, r1][rng.n(2)],
                [0.0, -0.0, v0, v1][rng.n(4)],
                [p0, p1][rng.n(2)],
            ),
            7 => (r0 * (1.0 + x), v0 * (x - 0.5), p0 * (1.0 + (1.0 - x) * (1.0 - x))),
            _ => (r0, v0, p0),
        };
        let (ur, uv, _) = units();
        w[[0, i]] = r * ur;
        w[[1, i]] = v * uv;
        if e == 3 {
            w[[2, i]] = p * ur * uv * uv;
        }
    }
    w
}

pub fn sounds(rng: &mut Rng, s: usize) -> Array1<f64> {
    let c = match rng.n(3) {
        0 => Array1::from_elem(s, rng.log(0.1, 10.0)),
        1 => Array1::from_shape_fn(s, |_| rng.log(0.1, 10.0)),
        _ => Array1::from_elem(s, 1.0),
    };
    c * units().1
}

pub fn phys_config(g: f64) -> PhysicsConfig {
    PhysicsConfig { adiabatic_index: g, units_mode: UnitsMode::SI }
}

pub fn gamma(rng: &mut Rng) -> f64 {
    [1.4, 5.0 / 3.0, 1.0001, 1.9999, rng.r(1.05, 1.95)][rng.n(5)]
}

pub fn ref_cons(w: &Array2<f64>, g: f64) -> Array2<f64> {
    let mut u = w.clone();
    for i in 0..w.ncols() {
        u[[1, i]] = w[[0, i]] * w[[1, i]];
        if w.nrows() == 3 {
            u[[2, i]] = w[[2, i]] / (g - 1.0) + 0.5 * w[[0, i]] * w[[1, i]] * w[[1, i]];
        }
    }
    u
}

pub fn ref_prim(u: &Array2<f64>, g: f64) -> Array2<f64> {
    let mut w = u.clone();
    for i in 0..u.ncols() {
        w[[1, i]] = u[[1, i]] / u[[0, i]];
        if u.nrows() == 3 {
            w[[2, i]] = (g - 1.0) * (u[[2, i]] - 0.5 * u[[1, i]] * u[[1, i]] / u[[0, i]]);
        }
    }
    w
}

pub fn ref_c(w: &Array2<f64>, c: &Array1<f64>, g: f64) -> Array1<f64> {
    if w.nrows() == 2 {
        return c.clone();
    }
    Array1::from_shape_fn(w.ncols(), |i| (g * w[[2, i]] / w[[0, i]]).sqrt())
}

pub fn ref_eigen(w: &Array2<f64>, c: &Array1<f64>) -> Array2<f64> {
    let e = w.nrows();
    Array2::from_shape_fn((e, w.ncols()), |(j, i)| {
        if j == 0 {
            w[[1, i]] - c[i]
        } else if j == e - 1 {
            w[[1, i]] + c[i]
        } else {
            w[[1, i]]
        }
    })
}

pub fn ref_flux(w: &Array2<f64>, u: &Array2<f64>, c: &Array1<f64>) -> Array2<f64> {
    Array2::from_shape_fn((w.nrows(), w.ncols()), |(j, i)| {
        let (r, v) = (w[[0, i]], w[[1, i]]);
        let p = if w.nrows() == 3 { w[[2, i]] } else { r * c[i] * c[i] };
        match j {
            0 => u[[1, i]],
            1 => u[[1, i]] * v + p,
            _ => (u[[2, i]] + p) * v,
        }
    })
}

/// set the variables of one location to consistent values for the given primitive variables
pub fn fill<const E: usize, const S: usize>(v: &mut Variables<E, S>, w: &Array2<f64>, c: &Array1<f64>, g: f64) {
    v.gamma = g;
    v.prim.assign(w);
    v.cons.assign(&ref_cons(w, g));
    v.c_sound.assign(&ref_c(w, c, g));
    v.eigen_vals.assign(&ref_eigen(w, &v.c_sound));
    v.flux.assign(&ref_flux(w, &v.cons, &v.c_sound));
}

/// fully consistent random state (all three locations filled independently)
pub fn state<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng, style: usize) -> State<P, E, S> {
    let g = gamma(rng);
    let mut u = State::<P, E, S>::new(&phys_config(g));
    let c = sounds(rng, S);
    let w = prims(rng, E, S, style);
    fill(&mut u.cent, &w, &c, g);
    let w = prims(rng, E, S, 1);
    fill(&mut u.west, &w, &c, g);
    let w = prims(rng, E, S, 1);
    fill(&mut u.east, &w, &c, g);
    u
}

/// overwrite every field with unrelated numbers (frame checks)
pub fn scramble<const E: usize, const S: usize>(rng: &mut Rng, v: &mut Variables<E, S>) {
    for x in v.prim.iter_mut().chain(v.cons.iter_mut()).chain(v.eigen_vals.iter_mut()).chain(v.flux.iter_mut()) {
        *x = rng.r(0.5, 3.0);
    }
    for x in v.c_sound.iter_mut() {
        *x = rng.r(0.5, 3.0);
    }
}

pub fn mesh<const S: usize>(rng: &mut Rng) -> (Mesh<S>, MeshConfig) {
    let (a, b) = match rng.n(5) {
        0 => (1.0, if S < 7 { 2.2 } else { 2.0 }),
        1 => {
            let a = rng.log(1.0, 1e3);
            (a, a * (1.0 + rng.log(0.2, 1e2)))
        }
        2 => {
            let a = -rng.r(10.0, 14.0);
            (a, a + rng.r(1.1, 2.2))
        }
        3 => (rng.r(0.31, 0.33) - 1.0, rng.r(1.71, 1.73)),
        _ => {
            let a = rng.r(5.0, 10.0);
            (a, a + rng.r(2.0, 100.0))
        }
    };
    let ul = units().2;
    let mc = MeshConfig { mode: MeshMode::Cartesian, xi_in: a * ul, xi_out: b * ul };
    match Mesh::<S>::new(&mc) {
        Ok(m) => (m, mc),
        Err(_) => {
            let mc = MeshConfig { mode: MeshMode::Cartesian, xi_in: ul, xi_out: 2.2 * ul };
            (Mesh::<S>::new(&mc).expect("mesh on [1, 2.2]"), mc)
        }
    }
}

/// first difference between two sets of variables outside the listed fields
pub fn frame<const E: usize, const S: usize>(a: &Variables<E, S>, b: &Variables<E, S>, except: &[&str], name: &str) -> R {
    let m2 = |n: &str, x: &Array2<f64>, y: &Array2<f64>| -> R {
        if except.contains(&n) {
            return Ok(());
        }
        for ((ix, p), q) in x.indexed_iter().zip(y.iter()) {
            want(same(*p, *q), || format!("{name}.{n}{ix:?} changed from {p:e} to {q:e}"))?;
        }
        Ok(())
    };
    m2("prim", &a.prim, &b.prim)?;
    m2("cons", &a.cons, &b.cons)?;
    m2("eigen_vals", &a.eigen_vals, &b.eigen_vals)?;
    m2("flux", &a.flux, &b.flux)?;
    if !except.contains(&"c_sound") {
        for i in 0..S {
            want(same(a.c_sound[i], b.c_sound[i]), || format!("{name}.c_sound[{i}] changed from {:e} to {:e}", a.c_sound[i], b.c_sound[i]))?;
        }
    }
    want(same(a.gamma, b.gamma), || format!("{name}.gamma changed from {:e} to {:e}", a.gamma, b.gamma))
}

pub fn cmp2(name: &str, got: &Array2<f64>, exp: &Array2<f64>, scale: impl Fn(usize, usize) -> f64) -> R {
    for j in 0..exp.nrows() {
        for i in 0..exp.ncols() {
            let (g, x) = (got[[j, i]], exp[[j, i]]);
            want(near(g, x, scale(j, i)), || format!("{name}[{j},{i}] = {g:e}, expected {x:e}"))?;
        }
    }
    Ok(())
}

pub fn cmp1(name: &str, got: &Array1<f64>, exp: &Array1<f64>) -> R {
    for i in 0..exp.len() {
        let (g, x) = (got[i], exp[i]);
        want(near(g, x, x), || format!("{name}[{i}] = {g:e}, expected {x:e}"))?;
    }
    Ok(())
}

pub fn show<const E: usize, const S: usize>(v: &Variables<E, S>) -> String {
    format!("gamma={:?} prim={:?} c={:?}", v.gamma, v.prim.iter().collect::<Vec<_>>(), v.c_sound.iter().collect::<Vec<_>>())
}

/// minimal configuration without outputs
pub fn config(nf: NumFluxConfig, rk: RKFMode) -> CorriesConfig {
    CorriesConfig {
        print_banner: false,
        mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: 1.0, xi_out: 2.2 },
        physics_config: PhysicsConfig::default(),
        boundary_condition_west: BoundaryMode::NoGradients,
        boundary_condition_east: BoundaryMode::NoGradients,
        numerics_config: NumericsConfig {
            numflux_config: nf,
            time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                rkf_mode: rk,
                asc: false,
                asc_relative_tolerance: 0.001,
                asc_absolute_tolerance: 0.001,
                asc_timestep_friction: 0.08,
            }),
            iter_max: 1_000_000,
            t0: 0.0,
            t_end: 1.0,
            dt_min: 1.0e-12,
            dt_max: f64::MAX,
            dt_cfl_param: 0.4,
        },
        output_counter_max: 1,
        writer_config: vec![],
    }
}

pub const CUSTOM: [CustomBoundaryMode; 8] = [
    CustomBoundaryMode::Extrapolate,
    CustomBoundaryMode::ExtrapolateDensityKepler,
    CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
    CustomBoundaryMode::NearZero,
    CustomBoundaryMode::NoGradients,
    CustomBoundaryMode::OutflowNoGradients,
    CustomBoundaryMode::OutFlowExtrapolate,
    CustomBoundaryMode::Reflecting,
];

pub fn boundary(rng: &mut Rng, e: usize) -> BoundaryMode {
    if rng.n(5) == 0 {
        return BoundaryMode::NoGradients;
    }
    let n = rng.n(e + 2);
    BoundaryMode::Custom((0..n).map(|_| (rng.n(e), CUSTOM[rng.n(8)])).collect())
}

/// reference boundary condition
pub fn ref_boundary(p: &mut Array2<f64>, east: bool, mode: &BoundaryMode, xc: &Array1<f64>) {
    let s = p.ncols();
    let list: Vec<(usize, CustomBoundaryMode)> = match mode {
        BoundaryMode::NoGradients => (0..p.nrows()).map(|j| (j, CustomBoundaryMode::NoGradients)).collect(),
        BoundaryMode::Custom(l) => l.clone(),
    };
    // cells counted from the boundary: g[0] outermost ghost cell, g[1], then interior
    let at = |k: usize| if east { s - 1 - k } else { k };
    for (j, m) in list {
        let (a, b) = (p[[j, at(2)]], p[[j, at(3)]]);
        let nograd = [a, a];
        let refl = [-b, -a];
        let extra = [3.0 * a - 2.0 * b, 2.0 * a - b];
        let inward = if east { a.is_sign_negative() } else { a.is_sign_positive() };
        let g: [f64; 2] = match m {
            CustomBoundaryMode::NoGradients => nograd,
            CustomBoundaryMode::Reflecting => refl,
            CustomBoundaryMode::Extrapolate => extra,
            CustomBoundaryMode::NearZero => [1e-10 * a, 1e-10 * a],
            CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler => {
                let g1 = a / (xc[at(1)] / xc[at(2)]).sqrt();
                [g1 / (xc[at(0)] / xc[at(1)]).sqrt(), g1]
            }
            CustomBoundaryMode::OutflowNoGradients => {
                if inward {
                    refl
                } else {
                    nograd
                }
            }
            CustomBoundaryMode::OutFlowExtrapolate => {
                if inward {
                    refl
                } else {
                    extra
                }
            }
        };
        // the inner ghost cell may itself be an input of the outer one when there is a single interior cell;
        // write the inner one first, as the distance from the boundary grows outwards
        p[[j, at(1)]] = g[1];
        p[[j, at(0)]] = g[0];
    }
}

thread_local! {
    static GIVEN: std::cell::RefCell<Option<(Array2<f64>, Array1<f64>)>> = std::cell::RefCell::new(None);
    static GIVEN_CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
/// set the primitive variables and sound speeds `init_given` will put into the state
pub fn give(w: &Array2<f64>, c: &Array1<f64>) {
    GIVEN.with(|g| *g.borrow_mut() = Some((w.clone(), c.clone())));
    GIVEN_CALLS.with(|g| g.set(0));
}
pub fn init_calls() -> usize {
    GIVEN_CALLS.with(|g| g.get())
}
pub fn init_given<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    GIVEN_CALLS.with(|g| g.set(g.get() + 1));
    GIVEN.with(|g| {
        let g = g.borrow();
        let (w, c) = g.as_ref().unwrap();
        u.cent.prim.assign(w);
        u.cent.c_sound.assign(c);
    });
    Ok(())
}
