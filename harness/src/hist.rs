//! Long-lived objects: nothing of earlier calls may show in later ones. Every call on an object that has a history is
//! compared, bit by bit, with the same call on an object made for it.
use crate::{gen::*, num::O, num::LIMITERS, rk::*, sized, util::*};
use corries::{prelude::*, state::variables::Variables, time::timestep::TimeStep};
use ndarray::{Array1, Array2};

fn copy_vars<const E: usize, const S: usize>(a: &mut Variables<E, S>, b: &Variables<E, S>) {
    a.gamma = b.gamma;
    a.prim.assign(&b.prim);
    a.cons.assign(&b.cons);
    a.c_sound.assign(&b.c_sound);
    a.eigen_vals.assign(&b.eigen_vals);
    a.flux.assign(&b.flux);
}
/// new object with the public contents of `u`
pub fn fresh<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>) -> State<P, E, S> {
    let mut v = State::<P, E, S>::new(&phys_config(u.cent.gamma));
    copy_vars(&mut v.cent, &u.cent);
    copy_vars(&mut v.west, &u.west);
    copy_vars(&mut v.east, &u.east);
    v
}
fn fresh_time(n: &NumericsConfig, counter_max: usize, t: &TimeStep) -> TimeStep {
    let mut x = TimeStep::new(n, counter_max);
    x.iter = t.iter;
    x.iter_max = t.iter_max;
    x.t = t.t;
    x.t_end = t.t_end;
    x.dt = t.dt;
    x.dt_min = t.dt_min;
    x.dt_kind = t.dt_kind;
    x.dt_output = t.dt_output;
    x.t_next_output = t.t_next_output;
    x
}
pub fn agree<P: Physics<E, S>, const E: usize, const S: usize>(a: &State<P, E, S>, b: &State<P, E, S>) -> R {
    frame(&b.cent, &a.cent, &[], "cent")?;
    frame(&b.west, &a.west, &[], "west")?;
    frame(&b.east, &a.east, &[], "east")
}
/// few distinct values whose sums, products and squares are exact
fn coarse(rng: &mut Rng, e: usize, s: usize) -> Array2<f64> {
    Array2::from_shape_fn((e, s), |(j, _)| match j {
        0 => [0.5, 1.0, 2.0][rng.n(3)],
        1 => [-1.0, -0.5, 0.0, 0.5, 1.0][rng.n(5)],
        _ => [0.5, 1.0, 2.0][rng.n(3)],
    })
}
/// a state that shares much with the previous one
fn related(rng: &mut Rng, w: &Array2<f64>) -> (Array2<f64>, usize) {
    let (e, s) = w.dim();
    let mut x = w.clone();
    let k = rng.n(8);
    match k {
        0 => {},
        1 | 2 => {
            let lo = if k == 1 { 0 } else { 2 };
            for j in 0..e {
                for i in lo..s - lo {
                    x[[j, i]] = w[[j, s - 1 - i]];
                }
            }
        },
        3 => {
            let (a, b) = (rng.n(s), rng.n(s));
            for j in 0..e {
                x.swap([j, a], [j, b]);
            }
        },
        4 => {
            let (j, i) = (rng.n(e), rng.n(s));
            x[[j, i]] *= 1.5;
        },
        5 => {
            let n = 1 + rng.n(s - 1);
            for j in 0..e {
                for i in 0..s {
                    x[[j, i]] = w[[j, (i + n) % s]];
                }
            }
        },
        6 => {
            for i in 0..s {
                x[[1, i]] = -w[[1, i]];
            }
        },
        _ => x = coarse(rng, e, s),
    }
    (x, k)
}
fn start<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> (State<P, E, S>, Array2<f64>) {
    let exact = rng.n(3) > 0;
    let g = if exact { 1.5 } else { gamma(rng) };
    let style = [0, 1, 2, 6][rng.n(4)];
    let w = if exact { coarse(rng, E, S) } else { prims(rng, E, S, style) };
    let mut u = State::<P, E, S>::new(&phys_config(g));
    let c = if exact { Array1::from_elem(S, 1.0) } else { Array1::from_elem(S, rng.log(0.5, 2.0)) };
    for v in [&mut u.cent, &mut u.west, &mut u.east] {
        fill(v, &w, &c, g);
    }
    (u, w)
}
fn refill<P: Physics<E, S>, const E: usize, const S: usize>(u: &mut State<P, E, S>, w: &Array2<f64>) {
    let (g, c) = (u.cent.gamma, u.cent.c_sound.clone());
    fill(&mut u.cent, w, &c, g);
}
fn length(rng: &mut Rng) -> usize {
    [3, 8, 20, 40, 150, 300][rng.n(6)]
}
fn schemes(rng: &mut Rng) -> NumFluxConfig {
    match rng.n(1 + LIMITERS) {
        0 => NumFluxConfig::Hll,
        k => NumFluxConfig::Kt { limiter_mode: crate::num::limiter(k, rng) },
    }
}

/// one flux scheme, many states
fn scheme<N: NumFlux<E, S>, P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng, nf: &NumFluxConfig) -> O {
    let (m, _) = mesh::<S>(rng);
    let (mut u, mut w) = start::<P, E, S>(rng);
    let mut h = N::new(nf, &m).map_err(|e| e.to_string())?;
    let n = length(rng);
    let mut how = vec![];
    for k in 0..n {
        let mut v = fresh(&u);
        let (mut d, mut x) = (Array2::zeros((E, S)), Array2::zeros((E, S)));
        let r = h.calc_dflux_dxi(&mut d, &mut u, &m);
        let q = N::new(nf, &m).and_then(|mut h| h.calc_dflux_dxi(&mut x, &mut v, &m));
        let info = || format!("evaluation {k} of one {nf:?} object, changes of the state so far {how:?}, {w:?}");
        want(r.is_ok() == q.is_ok(), || format!("an object with a history and a new one differ in success: {}", info()))?;
        if r.is_err() {
            break;
        }
        for ((ix, a), b) in d.indexed_iter().zip(x.iter()) {
            want(same(*a, *b), || format!("dflux{ix:?} = {a:e}, a new object gives {b:e}; {}", info()))?;
        }
        agree(&u, &v).map_err(|e| format!("against a new object: {e}; {}", info()))?;
        let (y, kind) = related(rng, &w);
        w = y;
        how.push(kind);
        refill(&mut u, &w);
    }
    Ok(format!("{n} evaluations {nf:?}"))
}
pub fn hll<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    scheme::<Hll<E, S>, P, E, S>(rng, &NumFluxConfig::Hll)
}
pub fn kt<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let k = rng.n(LIMITERS);
    let l = crate::num::limiter(k, rng);
    scheme::<Kt<E, S>, P, E, S>(rng, &NumFluxConfig::Kt { limiter_mode: l })
}

/// one right-hand side, many states
pub fn rhs<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    fn go<N: NumFlux<E, S>, P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng, nf: NumFluxConfig) -> O {
        let (m, mc) = mesh::<S>(rng);
        let mut cfg = config(nf, RKFMode::Heun2);
        cfg.mesh_config = mc;
        cfg.boundary_condition_west = crate::num::tame(rng, E);
        cfg.boundary_condition_east = crate::num::tame(rng, E);
        let (mut u, mut w) = start::<P, E, S>(rng);
        let new = || Rhs::<N, E, S>::new(&cfg, &m).map_err(|e| format!("Rhs::new: {e}"));
        let mut r = new()?;
        let n = length(rng);
        let mut how = vec![];
        for k in 0..n {
            let mut v = fresh(&u);
            let mut f = new()?;
            let (a, b) = (r.update(&mut u, &m), f.update(&mut v, &m));
            let info = || format!("evaluation {k} of one object, {:?}, west={:?} east={:?}, changes of the state so far {how:?}, {w:?}", cfg.numerics_config.numflux_config, cfg.boundary_condition_west, cfg.boundary_condition_east);
            want(a.is_ok() == b.is_ok(), || format!("an object with a history and a new one differ in success: {}", info()))?;
            if a.is_err() {
                break;
            }
            for j in 0..E {
                for i in 2..S - 2 {
                    let (x, y) = (r.full_rhs[[j, i]], f.full_rhs[[j, i]]);
                    want(same(x, y), || format!("right-hand side [{j},{i}] = {x:e}, a new object gives {y:e}; {}", info()))?;
                }
            }
            agree(&u, &v).map_err(|e| format!("against a new object: {e}; {}", info()))?;
            let (y, kind) = related(rng, &w);
            w = y;
            how.push(kind);
            refill(&mut u, &w);
        }
        Ok(format!("{n} evaluations {:?}", cfg.numerics_config.numflux_config))
    }
    match schemes(rng) {
        NumFluxConfig::Hll => go::<Hll<E, S>, P, E, S>(rng, NumFluxConfig::Hll),
        nf => go::<Kt<E, S>, P, E, S>(rng, nf),
    }
}

/// one pair of boundary conditions, many states
pub fn boundaries<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let (m, mc) = mesh::<S>(rng);
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    cfg.mesh_config = mc;
    cfg.boundary_condition_west = crate::num::tame(rng, E);
    cfg.boundary_condition_east = crate::num::tame(rng, E);
    let (mut u, mut w) = start::<P, E, S>(rng);
    let mut r = Rhs::<Hll<E, S>, E, S>::new(&cfg, &m).map_err(|e| format!("Rhs::new: {e}"))?;
    let n = length(rng);
    for k in 0..n {
        let mut x = w.clone();
        ref_boundary(&mut x, false, &cfg.boundary_condition_west, &m.xi_cent);
        ref_boundary(&mut x, true, &cfg.boundary_condition_east, &m.xi_cent);
        if rng.b() {
            u.update_vars_from_cons(&mut r.boundary_west, &mut r.boundary_east, &m);
        } else {
            u.update_vars_from_prim(&mut r.boundary_west, &mut r.boundary_east, &m);
        }
        let size = |j: usize| w.row(j).iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        cmp2("prim", &u.cent.prim, &x, |j, _| if j == 2 { 20.0 * (size(2) + size(0) * size(1) * size(1)) } else { 10.0 * size(j) })
            .map_err(|e| format!("update {k} with the same boundary conditions: {e}; west={:?} east={:?} {w:?}", cfg.boundary_condition_west, cfg.boundary_condition_east))?;
        w = related(rng, &w).0;
        refill(&mut u, &w);
    }
    Ok(format!("{n} updates west={:?} east={:?}", cfg.boundary_condition_west, cfg.boundary_condition_east))
}

/// functions of one state object, in any order
pub fn functions<P: Physics<E, S>, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let (m, mc) = mesh::<S>(rng);
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    cfg.mesh_config = mc;
    let mut bc = Rhs::<Hll<E, S>, E, S>::new(&cfg, &m).map_err(|e| format!("Rhs::new: {e}"))?;
    let (mut u, mut w) = start::<P, E, S>(rng);
    let mut log = vec![];
    let n = length(rng);
    for _ in 0..n {
        let mut v = fresh(&u);
        let k = rng.n(12);
        log.push(k);
        macro_rules! both {
            ($f:ident) => {{
                u.$f();
                v.$f();
            }};
        }
        match k {
            0 => both!(update_prim),
            1 => both!(update_cons),
            2 => both!(update_derived_variables),
            3 => both!(update_c_sound),
            4 => both!(update_eigen_vals),
            5 => both!(update_flux),
            6 => both!(init_west_east),
            7 => {
                u.update_vars_from_prim(&mut bc.boundary_west, &mut bc.boundary_east, &m);
                v.update_vars_from_prim(&mut bc.boundary_west, &mut bc.boundary_east, &m);
            },
            8 => {
                u.update_vars_from_cons(&mut bc.boundary_west, &mut bc.boundary_east, &m);
                v.update_vars_from_cons(&mut bc.boundary_west, &mut bc.boundary_east, &m);
            },
            9 => {
                let (a, b) = (u.calc_dt_cfl(0.4, &m), v.calc_dt_cfl(0.4, &m));
                match (&a, &b) {
                    (Ok(x), Ok(y)) => want(same(*x, *y), || format!("calc_dt_cfl gives {x:e}, for a new object {y:e}; calls {log:?}"))?,
                    _ => want(a.is_ok() == b.is_ok(), || format!("calc_dt_cfl differs in success; calls {log:?}"))?,
                }
            },
            10 => both!(update_eigen_vals_max),
            _ => {
                let t = State::<P, E, S>::new(&phys_config(1.3));
                let mut t = fresh(&t);
                let x = coarse(rng, E, S);
                let c = Array1::from_elem(S, 1.0);
                for q in [&mut t.cent, &mut t.west, &mut t.east] {
                    fill(q, &x, &c, 1.5);
                }
                u.assign(&t);
                v.assign(&t);
                w = x;
            },
        }
        agree(&u, &v).map_err(|e| format!("against a new object: {e}; calls {log:?}"))?;
        if rng.n(3) == 0 {
            w = related(rng, &w).0;
            refill(&mut u, &w);
        } else if rng.n(3) == 0 {
            // only one field is set anew
            let x = related(rng, &w).0;
            match rng.n(3) {
                0 => u.cent.prim.assign(&x),
                1 => u.cent.cons.assign(&ref_cons(&x, u.cent.gamma)),
                _ => u.cent.eigen_vals.assign(&ref_eigen(&x, &u.cent.c_sound)),
            }
        }
    }
    Ok(format!("{n} calls"))
}

/// one solver, many steps; without step control a step depends on the state and the time step only
pub fn steps<P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    fn go<N: NumFlux<E, S> + 'static, P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng, nf: NumFluxConfig) -> O {
        type T<P, const E: usize, const S: usize> = RungeKuttaFehlberg<P, E, S>;
        let mode = MODES[rng.n(9)];
        let mut cfg = config(nf, mode);
        cfg.physics_config.adiabatic_index = 1.5;
        cfg.boundary_condition_west = crate::num::tame(rng, E);
        cfg.boundary_condition_east = crate::num::tame(rng, E);
        let n = &mut cfg.numerics_config;
        n.t_end = 1e6;
        n.dt_cfl_param = rng.log(0.05, 0.4);
        n.dt_max = if rng.b() { f64::MAX } else { rng.log(1e-3, 1.0) };
        n.dt_min = 1e-300;
        let (cf, dmax) = (n.dt_cfl_param, n.dt_max);
        let mut w = coarse(rng, E, S);
        let c = Array1::from_elem(S, 1.0);
        give(&w, &c);
        let (mut u, mut s, m, _) = cfg.init_corries::<P, N, T<P, E, S>, E, S>(init_given).map_err(|e| format!("init: {e}"))?;
        let k = [3, 8, 20, 40][rng.n(4)];
        let mut how = vec![];
        for i in 0..k {
            if rng.n(3) > 0 {
                s.timestep.t_next_output = s.timestep.t + rng.log(1e-4, 1.0);
            } else {
                s.timestep.t_next_output = 1e6;
            }
            let mut v = fresh(&u);
            let mut f = Solver::<P, N, T<P, E, S>, E, S>::new(&cfg, &m).map_err(|e| format!("Solver::new: {e}"))?;
            f.timestep = fresh_time(&cfg.numerics_config, cfg.output_counter_max, &s.timestep);
            let e = ref_eigen(&u.cent.prim, &ref_c(&u.cent.prim, &u.cent.c_sound, u.cent.gamma));
            let mut mx = 0.0f64;
            for j in 0..S {
                mx = mx.max(e[[0, j]].abs().max(e[[E - 1, j]].abs()) / m.cell_width[j]);
            }
            let (t0, lim) = (s.timestep.t, s.timestep.t_next_output);
            let info = || format!("step {i} of one solver, {mode:?} {:?}, west={:?} east={:?}, changes of the state so far {how:?}", cfg.numerics_config.numflux_config, cfg.boundary_condition_west, cfg.boundary_condition_east);
            let (a, b) = (s.next_solution(&mut u, &m), f.next_solution(&mut v, &m));
            want(a.is_ok() == b.is_ok(), || format!("a solver with a history and a new one differ in success; {}", info()))?;
            if a.is_err() {
                break;
            }
            let dt = s.timestep.dt;
            want(dt * mx <= cf * (1.0 + 1e-9), || format!("dt = {dt:e}: a wave travels {:e} cell widths, at most {cf} allowed; {}", dt * mx, info()))?;
            want(dt <= dmax && s.timestep.t <= lim * (1.0 + 1e-12), || format!("dt = {dt:e} exceeds the limits {dmax:e} and {:e}; {}", lim - t0, info()))?;
            want(same(dt, f.timestep.dt) && same(s.timestep.t, f.timestep.t), || format!("dt = {dt:e}, a new solver takes {:e}; {}", f.timestep.dt, info()))?;
            frame(&v.cent, &u.cent, &[], "state").map_err(|e| format!("against a new solver: {e}; {}", info()))?;
            if u.cent.validate_finite().is_err() {
                break;
            }
            if rng.n(3) == 0 {
                let (y, kind) = related(rng, &w);
                w = y;
                how.push(kind);
                give(&w, &c);
                for q in [&mut u.cent, &mut u.west, &mut u.east] {
                    fill(q, &w, &c, 1.5);
                }
            } else {
                how.push(9);
            }
        }
        Ok(format!("{k} steps, {mode:?} {:?}", cfg.numerics_config.numflux_config))
    }
    match schemes(rng) {
        NumFluxConfig::Hll => go::<Hll<E, S>, P, E, S>(rng, NumFluxConfig::Hll),
        nf => go::<Kt<E, S>, P, E, S>(rng, nf),
    }
}
trait Finite {
    fn validate_finite(&self) -> R;
}
impl<const E: usize, const S: usize> Finite for Variables<E, S> {
    fn validate_finite(&self) -> R {
        want(self.prim.iter().all(|x| x.is_finite()) && self.prim.row(0).iter().all(|x| *x > 0.0), || String::new())
    }
}

pub fn all(c: &mut Ctx, which: &[&str]) {
    for w in which {
        match *w {
            "hll" => c.cases("history_hll", 60, |r, _| sized!(r, hll)),
            "kt" => c.cases("history_kt", 60, |r, _| sized!(r, kt)),
            "rhs" => c.cases("history_rhs", 80, |r, _| sized!(r, rhs)),
            "boundaries" => c.cases("history_boundaries", 60, |r, _| sized!(r, boundaries)),
            "functions" => c.cases("history_functions", 80, |r, _| sized!(r, functions)),
            "steps" => c.cases("history_steps", 80, |r, _| sized!(r, steps)),
            _ => unreachable!(),
        }
    }
}
