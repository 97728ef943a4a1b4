//! Oracles for the time integration: tableaux, steps, step control, step limits.
use crate::{gen::*, num::O, sized, util::*};
use corries::{prelude::*, state::variables::Variables, time::timestep::TimeStep};
use color_eyre::{eyre::bail, Result};
use ndarray::{Array1, Array2};
use std::cell::RefCell;

/// one evaluation of the flux operator as seen by it
#[derive(Clone)]
pub struct Seen {
    pub cons: Array2<f64>,
    pub prim: Array2<f64>,
    pub c: Array1<f64>,
    pub eig: Array2<f64>,
}
type Op = Box<dyn FnMut(usize, &Seen, &mut Array2<f64>) -> Result<()>>;
thread_local! {
    pub static LOG: RefCell<Vec<Seen>> = RefCell::new(vec![]);
    pub static OP: RefCell<Option<Op>> = RefCell::new(None);
}
pub fn set_op(f: impl FnMut(usize, &Seen, &mut Array2<f64>) -> Result<()> + 'static) {
    LOG.with(|l| l.borrow_mut().clear());
    OP.with(|o| *o.borrow_mut() = Some(Box::new(f)));
}
pub fn log() -> Vec<Seen> {
    LOG.with(|l| l.borrow().clone())
}
/// user-supplied flux scheme that records its input and returns whatever the oracle wants
pub struct Probe;
impl<const E: usize, const S: usize> NumFlux<E, S> for Probe {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> {
        Ok(Probe)
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(&mut self, d: &mut Array2<f64>, u: &mut State<P, E, S>, _: &Mesh<S>) -> Result<()> {
        let v: &Variables<E, S> = &u.cent;
        let s = Seen { cons: v.cons.clone(), prim: v.prim.clone(), c: v.c_sound.clone(), eig: v.eigen_vals.clone() };
        let n = LOG.with(|l| {
            l.borrow_mut().push(s.clone());
            l.borrow().len() - 1
        });
        OP.with(|o| match o.borrow_mut().as_mut() {
            Some(f) => f(n, &s, d),
            None => bail!("no operator"),
        })
    }
}

pub const MODES: [RKFMode; 9] =
    [RKFMode::RK1, RKFMode::RK2, RKFMode::RK3, RKFMode::RK4, RKFMode::Heun2, RKFMode::RKF12, RKFMode::RKF45, RKFMode::SSPRK3, RKFMode::SSPRK5];
pub const EMBEDDED: [RKFMode; 6] = [RKFMode::RK3, RKFMode::Heun2, RKFMode::RKF12, RKFMode::RKF45, RKFMode::SSPRK3, RKFMode::SSPRK5];

pub struct Tab {
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    pub d: Vec<f64>,
}
/// textbook tableaux: stage coefficients, weights, difference of the weights to the embedded solution
pub fn tab(m: RKFMode) -> Tab {
    let (a, b, l): (Vec<Vec<f64>>, Vec<f64>, Vec<f64>) = match m {
        RKFMode::RK1 => (vec![vec![]], vec![1.0], vec![]),
        RKFMode::RK2 => (vec![vec![], vec![0.5]], vec![0.0, 1.0], vec![]),
        RKFMode::RK3 => (vec![vec![], vec![0.5], vec![-1.0, 2.0]], vec![1.0 / 6.0, 2.0 / 3.0, 1.0 / 6.0], vec![0.0, 1.0, 0.0]),
        RKFMode::RK4 => (
            vec![vec![], vec![0.5], vec![0.0, 0.5], vec![0.0, 0.0, 1.0]],
            vec![1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
            vec![],
        ),
        RKFMode::Heun2 => (vec![vec![], vec![1.0]], vec![0.5, 0.5], vec![1.0, 0.0]),
        RKFMode::RKF12 => (
            vec![vec![], vec![0.5], vec![1.0 / 256.0, 255.0 / 256.0]],
            vec![1.0 / 512.0, 255.0 / 256.0, 1.0 / 512.0],
            vec![1.0 / 256.0, 255.0 / 256.0, 0.0],
        ),
        RKFMode::RKF45 => (
            vec![
                vec![],
                vec![0.25],
                vec![3.0 / 32.0, 9.0 / 32.0],
                vec![1932.0 / 2197.0, -7200.0 / 2197.0, 7296.0 / 2197.0],
                vec![439.0 / 216.0, -8.0, 3680.0 / 513.0, -845.0 / 4104.0],
                vec![-8.0 / 27.0, 2.0, -3544.0 / 2565.0, 1859.0 / 4104.0, -11.0 / 40.0],
            ],
            vec![16.0 / 135.0, 0.0, 6656.0 / 12825.0, 28561.0 / 56430.0, -9.0 / 50.0, 2.0 / 55.0],
            vec![25.0 / 216.0, 0.0, 1408.0 / 2565.0, 2197.0 / 4104.0, -0.2, 0.0],
        ),
        RKFMode::SSPRK3 => (vec![vec![], vec![1.0], vec![0.25, 0.25]], vec![1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0], vec![0.5, 0.5, 0.0]),
        RKFMode::SSPRK5 => (
            vec![
                vec![],
                vec![0.36717],
                vec![0.26802, 0.31720],
                vec![0.11606, 0.13735, 0.18816],
                vec![0.11212, 0.13269, 0.18178, 0.41980],
            ],
            vec![0.17279, 0.094505, 0.12947, 0.29899, 0.30424],
            vec![0.12293, 0.31981, -0.15316, 0.31887, 0.39155],
        ),
    };
    let d = if l.is_empty() { vec![0.0; b.len()] } else { b.iter().zip(&l).map(|(x, y)| x - y).collect() };
    Tab { a, b, d }
}

type Isot<const S: usize> = Euler1DIsot<S>;
type Sim<P, const E: usize, const S: usize> = (State<P, E, S>, Solver<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>, Mesh<S>, Writer);

fn sim<P: Physics<E, S> + 'static, const E: usize, const S: usize>(cfg: &CorriesConfig) -> std::result::Result<Sim<P, E, S>, String> {
    cfg.init_corries::<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>(init_given).map_err(|e| format!("init_corries: {e}"))
}
fn rkcfg(mode: RKFMode, asc: bool, rtol: f64, atol: f64, fric: f64) -> CorriesConfig {
    let mut c = config(NumFluxConfig::Hll, mode);
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc,
        asc_relative_tolerance: rtol,
        asc_absolute_tolerance: atol,
        asc_timestep_friction: fric,
    });
    c.numerics_config.t_end = 1e6;
    c
}

// ---------------------------------------------------------------- C10
const T: usize = 14;
fn uniform_rest() -> (Array2<f64>, Array1<f64>) {
    let mut w = Array2::zeros((2, T));
    w.row_mut(0).fill(10.0);
    (w, Array1::from_elem(T, 1.0))
}
/// extract a and b with an operator whose stage q only acts on cell 3+q
fn extract(mode: RKFMode, asc: bool) -> std::result::Result<(Vec<Vec<f64>>, Vec<f64>), String> {
    let cfg = rkcfg(mode, asc, 1e9, 0.001, 0.08);
    let (w, c) = uniform_rest();
    give(&w, &c);
    let (mut u, mut s, m, _) = sim::<Isot<T>, 2, T>(&cfg)?;
    let stages = tab(mode).b.len();
    s.timestep.t_next_output = 1e6;
    let eff = asc && !matches!(mode, RKFMode::RK1 | RKFMode::RK2 | RKFMode::RK4);
    let per = stages;
    set_op(move |n, _, d| {
        d.fill(0.0);
        d[[0, 3 + n % per]] = 1.0;
        Ok(())
    });
    let u0 = u.cent.cons.clone();
    s.next_solution(&mut u, &m).map_err(|e| format!("step: {e:?}"))?;
    let log = log();
    let evals = if eff { 2 * stages } else { stages };
    want(log.len() == evals, || format!("{mode:?} asc={asc}: {} evaluations of the flux operator, expected {evals}", log.len()))?;
    let dt = s.timestep.dt;
    let base = evals - stages;
    let mut a = vec![];
    for q in 0..stages {
        let row: Vec<f64> = (0..stages).map(|p| -(log[base + q].cons[[0, 3 + p]] - u0[[0, 3 + p]]) / dt).collect();
        a.push(row);
    }
    let b = (0..stages).map(|p| -(u.cent.cons[[0, 3 + p]] - u0[[0, 3 + p]]) / dt).collect();
    Ok((a, b))
}
fn residual(a: &[Vec<f64>], b: &[f64], order: usize) -> (f64, &'static str) {
    let s = b.len();
    let c: Vec<f64> = (0..s).map(|i| a[i].iter().sum()).collect();
    let mv = |x: &[f64]| -> Vec<f64> { (0..s).map(|i| (0..s).map(|j| a[i][j] * x[j]).sum()).collect() };
    let mul = |x: &[f64], y: &[f64]| -> Vec<f64> { x.iter().zip(y).map(|(p, q)| p * q).collect() };
    let dot = |x: &[f64]| -> f64 { b.iter().zip(x).map(|(p, q)| p * q).sum() };
    let one = vec![1.0; s];
    let c2 = mul(&c, &c);
    let c3 = mul(&c2, &c);
    let ac = mv(&c);
    let ac2 = mv(&c2);
    let aac = mv(&ac);
    let mut l = vec![(dot(&one) - 1.0, "sum b = 1")];
    if order >= 2 {
        l.push((dot(&c) - 0.5, "sum b c = 1/2"));
    }
    if order >= 3 {
        l.push((dot(&c2) - 1.0 / 3.0, "sum b c^2 = 1/3"));
        l.push((dot(&ac) - 1.0 / 6.0, "sum b A c = 1/6"));
    }
    if order >= 4 {
        l.push((dot(&c3) - 0.25, "sum b c^3 = 1/4"));
        l.push((dot(&mul(&c, &ac)) - 0.125, "sum b c A c = 1/8"));
        l.push((dot(&ac2) - 1.0 / 12.0, "sum b A c^2 = 1/12"));
        l.push((dot(&aac) - 1.0 / 24.0, "sum b A A c = 1/24"));
    }
    if order >= 5 {
        l.push((dot(&mul(&c3, &c)) - 0.2, "sum b c^4 = 1/5"));
        l.push((dot(&mul(&c2, &ac)) - 0.1, "sum b c^2 A c = 1/10"));
        l.push((dot(&mul(&ac, &ac)) - 0.05, "sum b (A c)^2 = 1/20"));
        l.push((dot(&mul(&c, &ac2)) - 1.0 / 15.0, "sum b c A c^2 = 1/15"));
        l.push((dot(&mul(&c, &aac)) - 1.0 / 30.0, "sum b c A A c = 1/30"));
        l.push((dot(&mv(&c3)) - 0.05, "sum b A c^3 = 1/20"));
        l.push((dot(&mv(&mul(&c, &ac))) - 1.0 / 40.0, "sum b A c A c = 1/40"));
        l.push((dot(&mv(&ac2)) - 1.0 / 60.0, "sum b A A c^2 = 1/60"));
        l.push((dot(&mv(&aac)) - 1.0 / 120.0, "sum b A A A c = 1/120"));
    }
    l.into_iter().fold((0.0, ""), |m, x| if x.0.abs() > m.0 || x.0.is_nan() { (x.0.abs(), x.1) } else { m })
}
fn order(mode: RKFMode) -> (usize, Option<usize>, f64) {
    match mode {
        RKFMode::RK1 => (1, None, 1e-9),
        RKFMode::RK2 => (2, None, 1e-9),
        RKFMode::Heun2 => (2, Some(1), 1e-9),
        RKFMode::RK3 => (3, Some(1), 1e-9),
        RKFMode::SSPRK3 => (3, Some(1), 1e-9),
        RKFMode::RK4 => (4, None, 1e-9),
        RKFMode::RKF12 => (2, Some(1), 1e-9),
        RKFMode::RKF45 => (5, Some(4), 1e-9),
        RKFMode::SSPRK5 => (3, Some(4), 1.1e-5),
    }
}
fn tableau(mode: RKFMode, asc: bool) -> O {
    let (a, b) = extract(mode, asc)?;
    let s = b.len();
    for q in 0..s {
        for p in q..s {
            want(a[q][p].abs() < 1e-9, || format!("{mode:?}: stage {q} depends on stage {p}"))?;
        }
    }
    let (o, low, tol) = order(mode);
    let (r, name) = residual(&a, &b, o);
    want(r <= tol, || format!("{mode:?}: order condition {name} violated by {r:e}; b = {b:?}, a = {a:?}"))?;
    if let Some(lo) = low {
        let d = differences(mode)?;
        let ok = [1.0, -1.0].iter().any(|sg| {
            let bl: Vec<f64> = b.iter().zip(&d).map(|(x, y)| x - sg * y).collect();
            residual(&a, &bl, lo).0 <= tol.max(1e-6)
        });
        want(ok, || format!("{mode:?}: the embedded solution is not of order {lo}; differences of the weights (up to sign) {d:?}"))?;
        want(d.iter().any(|x| x.abs() > 1e-4), || format!("{mode:?}: no embedded solution"))?;
    }
    Ok(format!("{mode:?} asc={asc} b={b:?}"))
}
/// |sum_q (b_high-b_low)_q k_q| from the width suggested after one accepted trial
fn err_of(mode: RKFMode, k: &[f64]) -> std::result::Result<f64, String> {
    let s = k.len();
    let mut rtol = 1e-3;
    for _ in 0..60 {
        let cfg = rkcfg(mode, true, rtol, 0.001, 0.08);
        let (w, c) = uniform_rest();
        give(&w, &c);
        let (mut u, mut sv, m, _) = sim::<Isot<T>, 2, T>(&cfg)?;
        sv.timestep.t_next_output = 1e6;
        let dt0 = u.calc_dt_cfl(0.4, &m).map_err(|e| e.to_string())?;
        let kk = k.to_vec();
        set_op(move |n, _, d| {
            d.fill(0.0);
            d[[0, 5]] = kk[n % kk.len()];
            Ok(())
        });
        let u0 = u.cent.cons[[0, 5]];
        if let Err(e) = sv.next_solution(&mut u, &m) {
            return Err(format!("step: {e:?}"));
        }
        let n = log().len() / s;
        let ratio = sv.timestep.dt / dt0;
        if n == 2 && ratio < 3.999 {
            // accepted at first trial: ratio = 0.9 err^(-1/stages)
            let err = (0.9 / ratio).powi(s as i32);
            // value of the high order solution of the first trial
            let t = tab(mode);
            let bk: f64 = t.b.iter().zip(k).map(|(x, y)| x * y).sum();
            return Ok(err * rtol * (u0 - dt0 * bk + 0.001).abs() / dt0);
        }
        rtol *= if n == 2 { 0.2 } else { 3.0 };
        if rtol < 1e-14 {
            return Ok(0.0);
        }
    }
    Err(format!("{mode:?}: no tolerance gives a measurable width"))
}
fn differences(mode: RKFMode) -> std::result::Result<Vec<f64>, String> {
    let s = tab(mode).b.len();
    let unit = |q: usize| (0..s).map(|p| if p == q { 1.0 } else { 0.0 }).collect::<Vec<f64>>();
    let mut d = vec![];
    for q in 0..s {
        d.push(err_of(mode, &unit(q))?);
    }
    let r = (0..s).fold(0, |m, q| if d[q] > d[m] { q } else { m });
    for q in 0..s {
        if q != r && d[q] > 1e-9 {
            let mut k = unit(q);
            k[r] = 1.0;
            let both = err_of(mode, &k)?;
            if (both - (d[r] - d[q])).abs() < (both - (d[r] + d[q])).abs() {
                d[q] = -d[q];
            }
        }
    }
    Ok(d)
}
pub fn c10(c: &mut Ctx) {
    c.scale = 1;
    c.cases("order_conditions", 18, |_, k| tableau(MODES[k as usize % 9], k >= 9));
}

// ---------------------------------------------------------------- C11
/// a nonlinear operator using every derived quantity and the ghost cells
fn operator(s: &Seen, d: &mut Array2<f64>, amp: f64) {
    let (e, n) = s.prim.dim();
    for j in 0..e {
        for i in 0..n {
            let (l, r) = (i.saturating_sub(1), (i + 1).min(n - 1));
            let x = s.prim[[j, r]] - s.prim[[j, l]] + 0.3 * (s.cons[[j, i]] * 1.7).sin() + 0.1 * (s.eig[[0, r]] - s.eig[[e - 1, l]]) + 0.2 * (s.c[l] + s.c[r]).cos();
            d[[j, i]] = amp * x.clamp(-10.0, 10.0);
        }
    }
}
fn consistent(cons: &Array2<f64>, c0: &Array1<f64>, g: f64, cfg: &CorriesConfig, xc: &Array1<f64>) -> Seen {
    let mut prim = ref_prim(cons, g);
    ref_boundary(&mut prim, false, &cfg.boundary_condition_west, xc);
    ref_boundary(&mut prim, true, &cfg.boundary_condition_east, xc);
    let cons = ref_cons(&prim, g);
    let c = ref_c(&prim, c0, g);
    let eig = ref_eigen(&prim, &c);
    Seen { cons, prim, c, eig }
}
fn rk_case<P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    roll_units(rng, false, false);
    let mode = MODES[rng.n(9)];
    let mut cfg = rkcfg(mode, matches!(mode, RKFMode::RK1 | RKFMode::RK2 | RKFMode::RK4) && rng.b(), 0.001, 0.001, 0.08);
    let g = gamma(rng);
    cfg.physics_config.adiabatic_index = g;
    if rng.b() {
        cfg.boundary_condition_west = BoundaryMode::Custom((0..E).map(|j| (j, if j == 1 { CustomBoundaryMode::Reflecting } else { CustomBoundaryMode::NoGradients })).collect());
    }
    if rng.b() {
        cfg.boundary_condition_east = BoundaryMode::Custom((0..E).map(|j| (j, if j == 1 { CustomBoundaryMode::Extrapolate } else { CustomBoundaryMode::NoGradients })).collect());
    }
    let style = rng.n(3);
    let w = prims(rng, E, S, style);
    give(&w, &sounds(rng, S));
    let (mut u, mut s, m, _) = sim::<P, E, S>(&cfg)?;
    s.timestep.t_next_output = 1e6;
    // small amplitudes: densities and pressures stay positive
    let amp = 0.02 / S as f64 * w.row(0).iter().cloned().fold(1.0, f64::min) / m.dxi.min(1.0);
    let t = tab(mode);
    for step in 0..1 + rng.n(3) {
        set_op(move |_, x, d| {
            operator(x, d, amp);
            Ok(())
        });
        let (u0, c0) = (u.cent.cons.clone(), u.cent.c_sound.clone());
        let (t0, it0) = (s.timestep.t, s.timestep.iter);
        if s.next_solution(&mut u, &m).is_err() {
            return Ok("trivial".into());
        }
        let dt = s.timestep.dt;
        let log = log();
        want(log.len() == t.b.len(), || format!("{mode:?}: {} evaluations in a step, expected {}", log.len(), t.b.len()))?;
        let mut ks: Vec<Array2<f64>> = vec![];
        let ctx = |e: String| format!("{mode:?} step {step} dt={dt:e}: {e}; gamma={g} west={:?} east={:?} prim={w:?}", cfg.boundary_condition_west, cfg.boundary_condition_east);
        let sc: Vec<f64> = (0..E).map(|j| u0.row(j).iter().map(|x| x.abs()).fold(0.0, f64::max) + u0[[0, 0]].abs()).collect();
        for q in 0..t.b.len() {
            let mut x = u0.clone();
            for (p, k) in ks.iter().enumerate() {
                x = x - k * (dt * t.a[q][p]);
            }
            let e = consistent(&x, &c0, g, &cfg, &m.xi_cent);
            cmp2("stage cons", &log[q].cons, &e.cons, |j, _| sc[j]).map_err(|r| ctx(format!("stage {q}: {r}")))?;
            cmp2("stage prim", &log[q].prim, &e.prim, |j, _| 1e2 * sc[j] / if j == 1 { units().0 } else { 1.0 }).map_err(|r| ctx(format!("stage {q}: {r}")))?;
            cmp2("stage eigen_vals", &log[q].eig, &e.eig, |_, _| 1e3 * sc[1] / units().0).map_err(|r| ctx(format!("stage {q}: {r}")))?;
            let mut d = Array2::zeros((E, S));
            operator(&log[q], &mut d, amp);
            ks.push(d);
        }
        let mut x = u0.clone();
        for (q, k) in ks.iter().enumerate() {
            x = x - k * (dt * t.b[q]);
        }
        let e = consistent(&x, &c0, g, &cfg, &m.xi_cent);
        cmp2("cons", &u.cent.cons, &e.cons, |j, _| sc[j]).map_err(|r| ctx(r))?;
        cmp2("prim", &u.cent.prim, &e.prim, |j, _| 1e2 * sc[j] / if j == 1 { units().0 } else { 1.0 }).map_err(|r| ctx(r))?;
        cmp2("eigen_vals", &u.cent.eigen_vals, &e.eig, |_, _| 1e3 * sc[1] / units().0).map_err(|r| ctx(r))?;
        want(s.timestep.t == t0 + dt, || ctx(format!("time went from {t0:e} to {:e}", s.timestep.t)))?;
        want(s.timestep.iter == it0 + 1, || ctx(format!("iteration went from {it0} to {}", s.timestep.iter)))?;
    }
    Ok(format!("{mode:?} gamma={g} prim={:?}", w.row(0).to_vec()))
}
pub fn c11(c: &mut Ctx) {
    c.cases("rk_step", 500, |r, _| sized!(r, rk_case));
}

// ---------------------------------------------------------------- C12
fn adaptive(rng: &mut Rng) -> O {
    const S: usize = 14;
    type P = Euler1DIsot<S>;
    let mode = EMBEDDED[rng.n(6)];
    let t = tab(mode);
    let n = t.b.len();
    let (rtol, atol, fric) = (rng.log(1e-6, 1e-1), rng.log(1e-6, 1e-1), rng.log(0.01, 0.3));
    let mut cfg = rkcfg(mode, true, rtol, atol, fric);
    cfg.numerics_config.dt_max = if rng.n(3) == 0 { rng.log(1e-3, 0.1) } else { f64::MAX };
    let mut w = Array2::zeros((2, S));
    w.row_mut(0).fill(rng.r(5.0, 10.0));
    w.row_mut(1).fill(rng.r(0.2, 1.0));
    give(&w, &Array1::from_elem(S, rng.log(0.5, 2.0)));
    let (mut u, mut s, m, _) = sim::<P, 2, S>(&cfg)?;
    let mut descs = vec![];
    for step in 0..1 + rng.n(4) {
        s.timestep.t_next_output = if rng.n(3) == 0 { s.timestep.t + rng.log(1e-3, 1.0) } else { 1e6 };
        if rng.n(5) == 0 {
            s.timestep.t_end = s.timestep.t + rng.log(1e-3, 1.0);
        }
        let size = rng.log(1e-4, 30.0);
        let cell = 2 + rng.n(S - 4);
        // where the difference of the two solutions is largest, plus noise in ghost cells that must not count
        set_op(move |i, _, d| {
            d.fill(0.0);
            let r = (i % n) as f64;
            for j in 0..2 {
                d[[j, cell]] = size * (1.0 + 0.7 * (r * 1.3 + j as f64).sin());
                d[[j, 0]] = 1e3 * size * (r * 2.1).sin();
                d[[j, 1]] = 1e3 * size * (r * 1.1).cos();
                d[[j, S - 1]] = -1e3 * size * (r * 1.7).sin();
                d[[j, S - 2]] = -1e3 * size * (r * 0.3).cos();
            }
            // reference cell through which the width of a trial can be read off the second stage
            d[[0, if cell == 2 { 3 } else { 2 }]] = if i % n == 0 { 1e-3 } else { 0.0 };
            Ok(())
        });
        let u0 = u.cent.cons.clone();
        let t0 = s.timestep.t;
        if s.next_solution(&mut u, &m).is_err() {
            return Ok("trivial".into());
        }
        let lg = log();
        want(lg.len() % n == 0 && lg.len() >= 2 * n, || format!("{mode:?}: {} stage evaluations with step control, {n} stages", lg.len()))?;
        let trials = lg.len() / n;
        let rc = if cell == 2 { 3 } else { 2 };
        let width = |k: usize| -(lg[k * n + 1].cons[[0, rc]] - u0[[0, rc]]) / (t.a[1][0] * 1e-3);
        let ws: Vec<f64> = (0..trials).map(width).collect();
        // widths read from a difference of O(1) numbers: absolute error ~1e-12
        let tol = |x: f64| 1e-6 * x.abs() + 2e-11;
        let err = |dt: f64| -> f64 {
            let mut m = 0.0f64;
            for j in 0..2 {
                for (c, kf) in [(cell, true), (rc, false)] {
                    let k = |r: usize| if kf { size * (1.0 + 0.7 * (r as f64 * 1.3 + j as f64).sin()) } else if j == 0 && r == 0 { 1e-3 } else { 0.0 };
                    let hi: f64 = u0[[j, c]] - dt * (0..n).map(|r| t.b[r] * k(r)).sum::<f64>();
                    let df: f64 = dt * (0..n).map(|r| t.d[r] * k(r)).sum::<f64>();
                    m = m.max((df / (rtol * (hi + atol))).abs());
                }
            }
            m
        };
        let info = format!("{mode:?} step {step} rtol={rtol:e} atol={atol:e} friction={fric:e} k={size:e} widths={ws:?}");
        for k in 0..trials - 1 {
            let e = err(ws[k]);
            if (e - 1.0).abs() < 1e-3 || ws[k] < 1e-6 {
                return Ok("trivial".into());
            }
            let last = k == trials - 2;
            want(last == (e < 1.0), || format!("trial {k} with error {e:e} was {}; {info}", if last { "accepted" } else { "rejected" }))?;
            let (lo, hi) = (0.25 * ws[k], if last { 4.0 } else { 1.0 } * ws[k]);
            want(last || ws[k + 1] >= lo - tol(lo), || format!("trial {k} shrank by more than four; {info}"))?;
            want(ws[k + 1] <= hi + tol(hi), || format!("trial {k} grew too much; {info}"))?;
        }
        let dt = s.timestep.dt;
        want((dt - ws[trials - 1]).abs() <= tol(dt), || format!("reported width {dt:e} is not the one of the last evaluation; {info}"))?;
        want(dt <= cfg.numerics_config.dt_max, || format!("width {dt:e} above the maximum {:e}; {info}", cfg.numerics_config.dt_max))?;
        let lim = s.timestep.t_next_output.min(s.timestep.t_end);
        want(t0 + dt <= lim * (1.0 + 1e-14), || format!("step from {t0:e} by {dt:e} jumps past {lim:e}; {info}"))?;
        want(s.timestep.t == t0 + dt, || format!("time advanced from {t0:e} to {:e}, width {dt:e}", s.timestep.t))?;
        descs.push(info);
        if s.timestep.t >= s.timestep.t_end * (1.0 - 1e-12) {
            break;
        }
    }
    Ok(descs.join("; "))
}
pub fn c12(c: &mut Ctx) {
    c.cases("step_control", 600, |r, _| adaptive(r));
}

// ---------------------------------------------------------------- C13
fn cap(rng: &mut Rng) -> O {
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    let n = &mut cfg.numerics_config;
    n.t0 = [0.0, rng.log(1e-3, 10.0)][rng.n(2)];
    n.t_end = n.t0 + rng.log(1e-3, 10.0);
    n.dt_max = [f64::MAX, rng.log(1e-4, 10.0)][rng.n(2)];
    let cm = 1 + rng.n(20);
    let mut ts = TimeStep::new(n, cm);
    want(ts.t == n.t0 && ts.t_end == n.t_end && ts.iter == 0 && ts.iter_max == n.iter_max && ts.dt_min == n.dt_min && ts.t_next_output == n.t0, || format!("TimeStep::new: {ts:?}"))?;
    want(near(ts.dt_output, (n.t_end - n.t0) / cm as f64, 0.0), || format!("output interval {:e}", ts.dt_output))?;
    ts.t = n.t0 + (n.t_end - n.t0) * rng.f();
    ts.dt = rng.log(1e-6, 20.0);
    ts.t_next_output = [ts.t + rng.log(1e-4, 10.0), n.t_end, ts.t + 0.5 * (n.t_end - ts.t)][rng.n(3)];
    if ts.t_next_output == 0.0 || ts.t_next_output <= ts.t {
        return Ok("trivial".into());
    }
    let b = ts.clone();
    ts.cap_dt();
    let x = b.dt.min(n.dt_max).min(b.t_end - b.t).min(b.t_next_output - b.t);
    want(near(ts.dt, x, 0.0) || (ts.dt - x).abs() <= 4.0 * f64::EPSILON * b.t_next_output, || format!("cap_dt gave {:e}, expected {x:e}; {b:?}", ts.dt))?;
    let mut r = ts.clone();
    r.dt = b.dt;
    want(r == b, || format!("cap_dt changed something else: {ts:?} from {b:?}"))?;
    Ok(format!("{b:?} -> {:e}", ts.dt))
}
fn step_limit<P: Physics<E, S> + 'static, const E: usize, const S: usize>(rng: &mut Rng) -> O {
    let mut cfg = rkcfg(MODES[rng.n(9)], false, 0.001, 0.001, 0.08);
    let n = &mut cfg.numerics_config;
    n.dt_max = if rng.b() { f64::MAX } else { rng.log(1e-5, 0.1) };
    n.dt_cfl_param = rng.log(0.05, 0.9);
    n.t0 = [0.0, 1.0, rng.log(0.1, 10.0)][rng.n(3)];
    n.t_end = n.t0 + rng.log(1e-4, 10.0);
    let (t0, te, dmax, cf) = (n.t0, n.t_end, n.dt_max, n.dt_cfl_param);
    give(&prims(rng, E, S, 8), &Array1::from_elem(S, rng.log(0.1, 10.0)));
    let (mut u, mut s, m, _) = sim::<P, E, S>(&cfg)?;
    set_op(|_, _, d| {
        d.fill(0.0);
        Ok(())
    });
    s.timestep.t_next_output = t0 + rng.log(1e-4, 10.0);
    let cfl = u.calc_dt_cfl(cf, &m).map_err(|e| e.to_string())?;
    let fail = match rng.n(6) {
        0 => {
            s.timestep.dt_min = cfl * 1.01;
            true
        },
        1 => {
            s.timestep.dt_min = cfl * 0.99;
            false
        },
        2 => {
            u.cent.eigen_vals[[E - 1, rng.n(S)]] = f64::INFINITY;
            s.timestep.dt_min = 1e-300;
            true
        },
        3 => {
            u.cent.eigen_vals.fill(0.0);
            true
        },
        _ => false,
    };
    let tn = s.timestep.t_next_output;
    let before = u.cent.clone();
    let r = s.next_solution(&mut u, &m);
    let info = format!("t0={t0:e} t_end={te:e} next={tn:e} dt_max={dmax:e} cfl={cfl:e} dt_min={:e}", s.timestep.dt_min);
    if fail {
        want(r.is_err(), || format!("step succeeded with dt={:e}; {info}", s.timestep.dt))?;
        want(s.timestep.t == t0, || format!("time advanced to {:e} by a failed step; {info}", s.timestep.t))?;
        frame(&before, &u.cent, &[], "state after a failed step")?;
        return Ok(format!("rejected: {info}"));
    }
    r.map_err(|e| format!("step failed: {e:?}; {info}"))?;
    let x = cfl.min(dmax).min(te - t0).min(tn - t0);
    want((s.timestep.dt - x).abs() <= 1e-12 * x + 4.0 * f64::EPSILON * tn.max(te), || format!("dt = {:e}, expected {x:e}; {info}", s.timestep.dt))?;
    want(s.timestep.t <= te.min(tn) * (1.0 + 4.0 * f64::EPSILON), || format!("t = {:e} passed the limit; {info}", s.timestep.t))?;
    want(s.timestep.dt_kind == DtKind::Cfl, || format!("dt_kind is {:?}", s.timestep.dt_kind))?;
    Ok(info)
}
pub fn c13(c: &mut Ctx) {
    c.cases("cap_dt", 600, |r, _| cap(r));
    c.cases("step_limits", 400, |r, _| sized!(r, step_limit));
}
