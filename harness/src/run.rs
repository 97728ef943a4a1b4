//! Oracles for whole runs, validation, output files, initialisation, units and default configurations.
use crate::{gen::*, num::O, rk::*, sized, util::*};
use color_eyre::{eyre::bail, Result};
use corries::{prelude::*, time::timestep::TimeStep};
use ndarray::{Array1, Array2};
use std::{cell::RefCell, fs, path::Path};

type Widths = Box<dyn FnMut(usize) -> Option<f64>>;
thread_local! {
    static WIDTHS: RefCell<Option<Widths>> = RefCell::new(None);
}
fn script(f: impl FnMut(usize) -> Option<f64> + 'static) {
    WIDTHS.with(|w| *w.borrow_mut() = Some(Box::new(f)));
}
/// user-supplied time integrator: takes the scripted width, capped by `cap_dt`, and stamps the state
pub struct Script;
impl<P: Physics<E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for Script {
    fn new(_: &CorriesConfig) -> Result<Self> {
        Ok(Script)
    }
    fn next_solution<N: NumFlux<E, S>>(&mut self, time: &mut TimeStep, u: &mut State<P, E, S>, _: &mut Rhs<N, E, S>, _: &Mesh<S>) -> Result<()> {
        time.iter += 1;
        let w = WIDTHS.with(|w| (w.borrow_mut().as_mut().unwrap())(time.iter));
        let Some(dt) = w else { bail!("scripted failure") };
        time.dt = dt;
        time.dt_kind = DtKind::Cfl;
        time.cap_dt();
        time.t += time.dt;
        u.cent.prim.fill(time.iter as f64);
        Ok(())
    }
}

fn scalar_out(dir: &str, file: &str) -> OutputConfig {
    OutputConfig {
        stream_mode: StreamMode::File,
        formatting_mode: FormattingMode::CSV,
        string_conversion_mode: ToStringConversionMode::Scalar,
        folder_name: dir.to_string(),
        should_clear_out_folder: false,
        file_name: file.to_string(),
        precision: 17,
        should_print_ghostcells: false,
        should_print_metadata: false,
        data_names: vec![DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind],
    }
}
fn vector_out(dir: &str, file: &str) -> OutputConfig {
    OutputConfig {
        string_conversion_mode: ToStringConversionMode::Vector,
        data_names: vec![DataName::Prim(0), DataName::XiCent],
        ..scalar_out(dir, file)
    }
}
struct Line {
    iter: usize,
    t: f64,
    kind: String,
}
fn read_scalar(path: &str) -> std::result::Result<Vec<Line>, String> {
    let s = fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut l = s.lines();
    want(l.next() == Some("iter,t,dt,dt_kind"), || format!("header of {path}"))?;
    l.map(|x| {
        let f: Vec<&str> = x.split(',').collect();
        if f.len() != 4 {
            return Err(format!("line {x:?}"));
        }
        Ok(Line { iter: f[0].parse().map_err(|_| format!("line {x:?}"))?, t: f[1].parse().map_err(|_| format!("line {x:?}"))?, kind: f[3].into() })
    })
    .collect()
}
fn read_vector(path: &str) -> std::result::Result<Vec<f64>, String> {
    let s = fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    s.lines().skip(1).map(|x| x.split(',').next().unwrap().parse().map_err(|_| format!("line {x:?}"))).collect()
}

const S: usize = 8;
type P = Euler1DIsot<S>;
type RunSim = (State<P, 2, S>, Solver<P, Probe, Script, 2, S>, Mesh<S>, Writer);
fn run_sim(cfg: &CorriesConfig) -> std::result::Result<RunSim, String> {
    cfg.init_corries::<P, Probe, Script, 2, S>(|u, _, _| {
        u.cent.prim.fill(1.0);
        u.cent.c_sound.fill(1.0);
        Ok(())
    })
    .map_err(|e| format!("init_corries: {e:?}"))
}
struct Dir(String);
impl Dir {
    fn new(base: &Path, tag: &str) -> Self {
        let p = base.join(tag);
        let _ = fs::remove_dir_all(&p);
        Dir(p.to_str().unwrap().to_string())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn width_name(n: usize, max: usize) -> String {
    let w = max.to_string().len();
    format!("{n:0w$}")
}

fn schedule_cfg(rng: &mut Rng, dir: &str) -> CorriesConfig {
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    let n = &mut cfg.numerics_config;
    n.t0 = [0.0, 0.0, 1.0, rng.log(1e-3, 1e3)][rng.n(4)];
    n.t_end = [n.t0 + 1.0, n.t0 + rng.log(1e-3, 1e3), n.t0 + 0.1][rng.n(3)];
    n.iter_max = usize::MAX - 2;
    cfg.output_counter_max = [1, 2, 3, 7, 10, 49, 100, 1 + rng.n(250)][rng.n(8)];
    n.dt_min = (n.t_end - n.t0) / cfg.output_counter_max as f64 * 1e-4;
    n.dt_min = n.dt_min.min(1e-12 * n.t_end.max(1.0) * [1.0, 100.0][rng.n(2)]);
    if rng.n(3) == 0 {
        // outputs may be early by up to the minimum width; this must not accumulate
        n.dt_min = (n.t_end - n.t0) / cfg.output_counter_max as f64 * rng.r(0.05, 0.45);
    }
    cfg.writer_config = vec![scalar_out(dir, "s"), vector_out(dir, "v")];
    cfg
}
fn widths(rng: &mut Rng, iv: f64, dt_min: f64) -> (usize, impl FnMut(usize) -> f64) {
    let kind = rng.n(5);
    let mut r = rng.clone();
    let base = iv * r.log(0.02, 5.0);
    (kind, move |_| match kind {
        0 => base,
        1 => iv * r.log(0.01, 10.0),
        2 => iv / 3.0,
        3 => f64::MAX,
        _ => {
            if r.n(4) == 0 {
                (iv * r.log(0.01, 2.0)).max(dt_min)
            } else {
                iv * (1.0 - 1e-13)
            }
        },
    })
}
fn check_schedule(cfg: &CorriesConfig, dir: &str, lines: &[Line], n: usize, info: &str) -> R {
    let nc = &cfg.numerics_config;
    let iv = (nc.t_end - nc.t0) / cfg.output_counter_max as f64;
    let tol = nc.dt_min + 1e-9 * iv + 1e-13 * nc.t_end;
    for k in 0..n {
        let due = nc.t0 + k as f64 * iv;
        want((lines[k].t - due).abs() <= tol, || format!("output {k} is at t = {:e}, due at {due:e}; {info}", lines[k].t))?;
        want(k == 0 || lines[k].iter > lines[k - 1].iter, || format!("outputs {} and {k} hold the same iteration; {info}", k - 1))?;
        // the state must be the one of this iteration
        let v = read_vector(&format!("{dir}/v_{}.csv", width_name(k, cfg.output_counter_max)))?;
        let x = if lines[k].iter == 0 { 1.0 } else { lines[k].iter as f64 };
        want(v.len() == S - 4 && v.iter().all(|y| *y == x), || format!("output {k} of iteration {} holds the state {v:?}; {info}", lines[k].iter))?;
    }
    Ok(())
}
fn schedule(rng: &mut Rng, base: &Path) -> O {
    let d = Dir::new(base, "sched");
    let cfg = schedule_cfg(rng, &d.0);
    let nc = cfg.numerics_config.clone();
    let iv = (nc.t_end - nc.t0) / cfg.output_counter_max as f64;
    let (kind, mut f) = widths(rng, iv, nc.dt_min);
    let info = format!("t0={:e} t_end={:e} outputs={} dt_min={:e} widths kind {kind}", nc.t0, nc.t_end, cfg.output_counter_max, nc.dt_min);
    let mut calls = 0;
    script(move |i| {
        calls += 1;
        if calls > 200_000 {
            return None;
        }
        Some(f(i))
    });
    let mut c = run_sim(&cfg)?;
    c.run_corries().map_err(|e| format!("run failed: {e}; {info}"))?;
    let lines = read_scalar(&format!("{}/s.csv", d.0))?;
    let n = cfg.output_counter_max + 1;
    want(lines.len() == n && c.3.output_counter == n, || format!("{} outputs written (counter {}), expected {n}; {info}", lines.len(), c.3.output_counter))?;
    check_schedule(&cfg, &d.0, &lines, n, &info)?;
    let (tl, tf) = (lines[n - 1].t, c.1.timestep.t);
    let ulp = 4.0 * f64::EPSILON * nc.t_end;
    let at_end = |t: f64, tol: f64| t <= nc.t_end + ulp && t >= nc.t_end - tol - ulp;
    want(at_end(tf, 0.01 * nc.dt_min) && at_end(tl, nc.dt_min), || format!("run ends at {tf:e}, last output at {tl:e}; {info}"))?;
    want(lines[n - 1].iter == c.1.timestep.iter || tl < tf, || format!("last output holds iteration {} of {}; {info}", lines[n - 1].iter, c.1.timestep.iter))?;
    want(lines.iter().all(|l| l.kind != "err"), || format!("error dump in a successful run; {info}"))?;
    Ok(info)
}
/// the same with the real solver
fn real_run(rng: &mut Rng, base: &Path) -> O {
    const S: usize = 20;
    let d = Dir::new(base, "real");
    let mut cfg = config(NumFluxConfig::Hll, MODES[rng.n(9)]);
    cfg.numerics_config.t0 = [0.0, 0.3][rng.n(2)];
    cfg.numerics_config.t_end = cfg.numerics_config.t0 + rng.r(0.05, 0.2);
    cfg.output_counter_max = 1 + rng.n(20);
    let mut so = scalar_out(&d.0, "s");
    so.precision = 17;
    cfg.writer_config = vec![so];
    if rng.n(3) == 0 {
        let TimeIntegrationConfig::Rkf(r) = &mut cfg.numerics_config.time_integration_config;
        r.asc = true;
    }
    let mut c = cfg
        .init_corries::<Euler1DAdiabatic<S>, Hll<3, S>, RungeKuttaFehlberg<Euler1DAdiabatic<S>, 3, S>, 3, S>(corries::initfuncs::init_sod)
        .map_err(|e| format!("init: {e}"))?;
    c.run_corries().map_err(|e| format!("run failed: {e:?}"))?;
    let lines = read_scalar(&format!("{}/s.csv", d.0))?;
    let info = format!("{:?} t0={} t_end={} outputs={}", cfg.numerics_config.time_integration_config, cfg.numerics_config.t0, cfg.numerics_config.t_end, cfg.output_counter_max);
    want(lines.len() == cfg.output_counter_max + 1, || format!("{} outputs; {info}", lines.len()))?;
    want((lines.last().unwrap().t - cfg.numerics_config.t_end).abs() <= 1e-11, || format!("last output at {:e}; {info}", lines.last().unwrap().t))?;
    let iv = (cfg.numerics_config.t_end - cfg.numerics_config.t0) / cfg.output_counter_max as f64;
    for (k, l) in lines.iter().enumerate() {
        let due = cfg.numerics_config.t0 + k as f64 * iv;
        want((l.t - due).abs() <= 1e-11, || format!("output {k} at {:e}, due {due:e}; {info}", l.t))?;
    }
    Ok(info)
}
pub fn c14(c: &mut Ctx) {
    let b = c.scratch.clone();
    c.cases("schedule", 120, |r, _| schedule(r, &b));
    c.cases("real_run", 20, |r, _| real_run(r, &b));
}

// ---------------------------------------------------------------- C15
fn failing(rng: &mut Rng, base: &Path) -> O {
    let d = Dir::new(base, "fail");
    let mut cfg = schedule_cfg(rng, &d.0);
    cfg.output_counter_max = [1, 2, 5, 20][rng.n(4)];
    // the minimum width stays below the output interval
    let iv = (cfg.numerics_config.t_end - cfg.numerics_config.t0) / cfg.output_counter_max as f64;
    cfg.numerics_config.dt_min = cfg.numerics_config.dt_min.min(0.45 * iv);
    let limit = rng.b();
    let at = 1 + rng.n(30);
    if limit {
        cfg.numerics_config.iter_max = at;
    }
    let nc = cfg.numerics_config.clone();
    let iv = (nc.t_end - nc.t0) / cfg.output_counter_max as f64;
    let (_, mut f) = widths(rng, iv, nc.dt_min);
    let steps = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let st = steps.clone();
    script(move |i| {
        st.set(st.get() + 1);
        if (!limit && i >= at) || st.get() > 100_000 {
            None
        } else {
            Some(f(i))
        }
    });
    let mut c = run_sim(&cfg)?;
    let r = c.run_corries();
    let lines = read_scalar(&format!("{}/s.csv", d.0))?;
    let info = format!("{} at {at}, t0={:e} t_end={:e} outputs={}, {} lines", if limit { "iteration limit" } else { "failure" }, nc.t0, nc.t_end, cfg.output_counter_max, lines.len());
    let errs = lines.iter().filter(|l| l.kind == "err").count();
    if r.is_ok() {
        want(c.1.timestep.iter < at || (!limit && c.1.timestep.iter < at), || format!("successful run took {} iterations; {info}", c.1.timestep.iter))?;
        want(c.1.timestep.iter <= nc.iter_max, || format!("successful run exceeded the iteration limit; {info}"))?;
        want(errs == 0, || format!("error dump in a successful run; {info}"))?;
        want((c.1.timestep.t - nc.t_end).abs() <= 0.01 * nc.dt_min + 4.0 * f64::EPSILON * nc.t_end, || format!("successful run ended at {:e}; {info}", c.1.timestep.t))?;
        return Ok("trivial".into());
    }
    want(steps.get() == at, || format!("{} steps were tried; {info}", steps.get()))?;
    want(errs == 1 && lines.last().unwrap().kind == "err", || format!("{errs} error dumps, last line marked {}; {info}", lines.last().unwrap().kind))?;
    want(c.3.output_counter == lines.len(), || format!("counter {}; {info}", c.3.output_counter))?;
    let l = lines.last().unwrap();
    want(l.iter == at && l.t == c.1.timestep.t, || format!("error dump holds iteration {} and time {:e}, run stopped at {at}, {:e}; {info}", l.iter, l.t, c.1.timestep.t))?;
    // outputs before the dump follow the schedule up to the time of the failure
    let mut due = 0;
    let reached = |k: usize| lines[lines.len() - 1].t >= nc.t0 + k as f64 * iv - nc.dt_min - 1e-9 * iv;
    while due + 1 <= cfg.output_counter_max && reached(due + 1) {
        due += 1;
    }
    // an output time counts as reached within dt_min, and a step writes one output at most
    due = due.min(if limit { at } else { at - 1 });
    let n = lines.len() - 1;
    // the output reached by the failing step itself is replaced by the dump
    want(n == due + 1 || (limit && n == due), || format!("{n} regular outputs before the dump, {} were due; {info}", due + 1))?;
    check_schedule(&cfg, &d.0, &lines, n, &info)?;
    let v = read_vector(&format!("{}/v_{}.csv", d.0, width_name(n, cfg.output_counter_max)))?;
    let x = if limit { at as f64 } else if at == 1 { 1.0 } else { (at - 1) as f64 };
    want(v.iter().all(|y| *y == x), || format!("error dump holds the state {v:?}, expected {x}; {info}"))?;
    Ok(info)
}
pub fn c15(c: &mut Ctx) {
    let b = c.scratch.clone();
    c.cases("failing_runs", 150, |r, _| failing(r, &b));
    c.cases("iteration_limit", 40, |r, _| {
        let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
        let at = 1 + r.n(20);
        cfg.numerics_config.iter_max = at;
        let mut c = run_sim(&cfg)?;
        let n = 1 + r.n(25);
        script(|_| Some(1e-4));
        for k in 1..=n {
            let e = c.1.next_solution(&mut c.0, &c.2).is_err();
            want(e == (k >= at), || format!("step {k} with iter_max = {at}: error = {e}"))?;
            if e {
                break;
            }
        }
        Ok(format!("iter_max={at} steps={n}"))
    });
}

// ---------------------------------------------------------------- C16
fn bad(rng: &mut Rng, vals: &[f64]) -> f64 {
    let k = rng.n(vals.len() + 1);
    if k == vals.len() {
        f64::NAN
    } else {
        vals[k]
    }
}
fn accept(rng: &mut Rng, base: &Path) -> O {
    const S: usize = 8;
    let d = Dir::new(base, "valid");
    let mut cfg = config(NumFluxConfig::Hll, MODES[rng.n(9)]);
    let mut why = vec![];
    let which = rng.n(26);
    let again = if rng.n(4) == 0 { rng.n(26) } else { 99 };
    let mut p = (0.001, 0.001, 0.08);
    let mut kt = rng.b();
    let mut lim = limiter_any(rng);
    cfg.mesh_config.xi_in = rng.r(0.9, 3.0);
    cfg.mesh_config.xi_out = cfg.mesh_config.xi_in + 0.01 + rng.log(1e-2, 1e2);
    cfg.physics_config.adiabatic_index = [1.4, 1.0 + f64::EPSILON, 2.0 - f64::EPSILON][rng.n(3)];
    cfg.physics_config.units_mode = if rng.b() { UnitsMode::SI } else { UnitsMode::CGS };
    {
        let n = &mut cfg.numerics_config;
        n.t0 = [0.0, -0.0, 5e-324, rng.f()][rng.n(4)];
        n.t_end = [n.t0 + 1.0, n.t0 + 1e-9][rng.n(2)];
        n.iter_max = [1, 2, usize::MAX][rng.n(3)];
        n.dt_min = [5e-324, 1e-12, 1.0][rng.n(3)];
        n.dt_max = [5e-324, f64::MAX, 1.0][rng.n(3)];
        n.dt_cfl_param = [0.4, 5.0, 5e-324][rng.n(3)];
    }
    cfg.output_counter_max = [1, 10, 11][rng.n(3)];
    cfg.boundary_condition_west = boundary(rng, 2);
    let nout = rng.n(3);
    for k in 0..nout {
        let mut o = if rng.b() { scalar_out(&d.0, &format!("o{k}")) } else { vector_out(&d.0, &format!("o{k}")) };
        o.should_print_metadata = rng.b();
        if o.string_conversion_mode == ToStringConversionMode::Vector {
            o.data_names.push(DataName::T);
        }
        cfg.writer_config.push(o);
    }
    for w in [which, again] {
        let n = &mut cfg.numerics_config;
        match w {
            0 => {
                cfg.mesh_config.xi_out = bad(rng, &[cfg.mesh_config.xi_in, cfg.mesh_config.xi_in - 1.0, -10.0]);
                why.push("xi");
            },
            1 => {
                cfg.mesh_config.xi_in = f64::NAN;
                why.push("xi_in");
            },
            2 => {
                cfg.physics_config.adiabatic_index = bad(rng, &[1.0, 2.0, 0.5, -1.4, 2.5, 0.0, f64::INFINITY, f64::NEG_INFINITY]);
                why.push("gamma");
            },
            3 => {
                kt = true;
                lim = LimiterMode::Monocent(bad(rng, &[1.0, 0.0, -2.0, f64::NEG_INFINITY]));
                why.push("monocent");
            },
            4 => {
                n.iter_max = 0;
                why.push("iter_max");
            },
            5 => {
                n.t0 = bad(rng, &[-1.0, -5e-324, f64::NEG_INFINITY]);
                why.push("t0");
            },
            6 => {
                n.t_end = bad(rng, &[n.t0, n.t0 - 1.0, f64::NEG_INFINITY, -1.0]);
                why.push("t_end");
            },
            7 => {
                n.dt_min = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("dt_min");
            },
            8 => {
                n.dt_max = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("dt_max");
            },
            9 => {
                n.dt_cfl_param = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("cfl");
            },
            10 => {
                p.0 = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("rtol");
            },
            11 => {
                p.1 = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("atol");
            },
            12 => {
                p.2 = bad(rng, &[0.0, -0.0, -1.0, f64::NEG_INFINITY]);
                why.push("friction");
            },
            13 | 14 | 15 if nout > 0 => {
                let k = rng.n(nout);
                let o = &mut cfg.writer_config[k];
                match w {
                    13 => o.folder_name = "".into(),
                    14 => o.file_name = "".into(),
                    _ => {
                        o.string_conversion_mode = ToStringConversionMode::Scalar;
                        let at = rng.n(o.data_names.len() + 1);
                        o.data_names.insert(at, [DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::Prim(0), DataName::Cons(1), DataName::CSound][rng.n(6)]);
                    },
                }
                why.push("output");
            },
            _ => {},
        }
    }
    let nfc = if kt { NumFluxConfig::Kt { limiter_mode: lim } } else { NumFluxConfig::Hll };
    cfg.numerics_config.numflux_config = nfc;
    let mode = match &cfg.numerics_config.time_integration_config {
        TimeIntegrationConfig::Rkf(r) => r.rkf_mode,
    };
    cfg.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc: false,
        asc_relative_tolerance: p.0,
        asc_absolute_tolerance: p.1,
        asc_timestep_friction: p.2,
    });
    fn go<N: NumFlux<2, S>>(cfg: &CorriesConfig) -> Result<()> {
        type P = Euler1DIsot<S>;
        let w = ndarray::Array2::ones((2, S));
        give(&w, &Array1::from_elem(S, 1.0));
        cfg.init_corries::<P, N, RungeKuttaFehlberg<P, 2, S>, 2, S>(init_given).map(|_| ())
    }
    let r = if kt { go::<Kt<2, S>>(&cfg) } else { go::<Hll<2, S>>(&cfg) };
    let info = format!("violated: {why:?}; {cfg:?}");
    if why.is_empty() {
        r.map_err(|e| format!("admissible configuration rejected: {e:?}; {info}"))?;
    } else {
        want(r.is_err(), || format!("inadmissible configuration accepted; {info}"))?;
        want(!Path::new(&d.0).exists(), || format!("rejected configuration created {}; {info}", d.0))?;
        want(init_calls() == 0, || format!("rejected configuration was initialised; {info}"))?;
    }
    Ok(info.chars().take(200).collect())
}
fn limiter_any(rng: &mut Rng) -> LimiterMode {
    match rng.n(6) {
        0 => LimiterMode::NoLimiter,
        1 => LimiterMode::MinMod,
        2 => LimiterMode::Superbee,
        3 => LimiterMode::Monocent([1.0 + f64::EPSILON, 2.0, 100.0][rng.n(3)]),
        _ => LimiterMode::VanLeer,
    }
}
pub fn c16(c: &mut Ctx) {
    let b = c.scratch.clone();
    c.cases("accepted_iff_admissible", 1500, |r, _| accept(r, &b));
}

// ---------------------------------------------------------------- C17
fn physical<P: Physics<E, SS>, const E: usize, const SS: usize>(u: &State<P, E, SS>) -> R {
    for j in 0..E {
        for i in 0..SS {
            let (p, c) = (u.cent.prim[[j, i]], u.cent.cons[[j, i]]);
            want(p.is_finite() && c.is_finite(), || format!("prim[{j},{i}] = {p:e}, cons = {c:e}"))?;
            want(j == 1 || p > 0.0, || format!("prim[{j},{i}] = {p:e} is not positive"))?;
        }
    }
    Ok(())
}
fn unphysical<P: Physics<E, SS> + 'static, const E: usize, const SS: usize>(rng: &mut Rng) -> O {
    let asc = rng.n(3) == 0;
    let mode = MODES[rng.n(9)];
    let mut cfg = config(NumFluxConfig::Hll, mode);
    cfg.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc,
        asc_relative_tolerance: 1e3,
        asc_absolute_tolerance: 0.001,
        asc_timestep_friction: 0.08,
    });
    if rng.n(3) == 0 {
        // ghost cells may become unphysical through the boundary condition alone
        cfg.boundary_condition_west = BoundaryMode::Custom((0..E).map(|j| (j, CustomBoundaryMode::Extrapolate)).collect());
    }
    let mut w = prims(rng, E, SS, 8);
    let rest = rng.n(3) == 0;
    if rest {
        w.row_mut(1).fill(0.0);
    }
    give(&w, &Array1::from_elem(SS, 1.0));
    let mut c = cfg
        .init_corries::<P, Probe, RungeKuttaFehlberg<P, E, SS>, E, SS>(init_given)
        .map_err(|e| format!("init: {e}"))?;
    c.1.timestep.t_next_output = 1e6;
    c.1.timestep.t_end = 1e6;
    let dt = c.0.calc_dt_cfl(0.4, &c.2).map_err(|e| e.to_string())?;
    let cell = rng.n(SS);
    let j = rng.n(E);
    let u0 = c.0.cent.cons[[j, cell]];
    let what = if rest { 6 } else { rng.n(6) };
    let (val, must_fail) = match what {
        // energy or density vanish, up to rounding exactly
        6 => (u0 / dt, false),
        0 => (f64::NAN, true),
        1 => (f64::INFINITY, true),
        2 => (f64::NEG_INFINITY, true),
        // large positive operator: density or energy become negative
        3 => (2.0 * u0.abs() / dt + 1.0 / dt, j != 1),
        4 => (u0.abs() / dt * rng.r(0.2, 3.0), false),
        _ => (-(u0.abs()) / dt * rng.r(0.0, 3.0), false),
    };
    // a ghost cell's own update is overwritten by the boundary condition
    let must_fail = must_fail && (2..SS - 2).contains(&cell);
    let only_last = rng.b();
    let stages = tab(mode).b.len();
    set_op(move |n, _, d| {
        d.fill(0.0);
        if !only_last || n % stages == stages - 1 {
            d[[j, cell]] = val;
        }
        Ok(())
    });
    let must_fail = must_fail && !(only_last && what == 3);
    let before = c.0.cent.clone();
    let r = c.1.next_solution(&mut c.0, &c.2);
    let info = format!("{mode:?} asc={asc} operator {val:e} in cell {cell} of equation {j}, all stages: {}", !only_last);
    if r.is_ok() {
        physical(&c.0).map_err(|e| format!("step succeeded although {e}; {info}"))?;
    }
    want(!(must_fail && r.is_ok()), || format!("step succeeded; {info}"))?;
    if let Err(_) = &r {
        want(c.1.timestep.t == 0.0, || format!("time advanced by a failed step; {info}"))?;
    }
    let _ = before;
    Ok(info)
}
fn flux_nan<P: Physics<E, SS>, const E: usize, const SS: usize>(rng: &mut Rng) -> O {
    let cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    let m = Mesh::<SS>::new(&cfg.mesh_config).map_err(|e| e.to_string())?;
    let mut u = state::<P, E, SS>(rng, 1);
    u.west.gamma = u.cent.gamma;
    u.east.gamma = u.cent.gamma;
    let i = 2 + rng.n(SS - 4);
    let kt = rng.b();
    let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][rng.n(3)];
    let j = rng.n(E);
    let what = if kt { 0 } else { rng.n(4) };
    let info = format!("kt={kt} value {x} in cell {i} of {SS}, equation {j}, kind {what}");
    match what {
        0 => u.cent.cons[[j, i]] = x,
        1 => u.cent.prim[[1, i]] = x,
        2 => u.cent.eigen_vals[[0, i]] = f64::NEG_INFINITY,
        _ => u.cent.eigen_vals[[E - 1, i]] = f64::INFINITY,
    }
    let mut d = Array2::zeros((E, SS));
    let r = if kt {
        let l = limiter_any(rng);
        Kt::<E, SS>::new(&NumFluxConfig::Kt { limiter_mode: l }, &m).unwrap().calc_dflux_dxi(&mut d, &mut u, &m)
    } else {
        Hll::<E, SS>::new(&NumFluxConfig::Hll, &m).unwrap().calc_dflux_dxi(&mut d, &mut u, &m)
    };
    want(r.is_err(), || format!("flux evaluation succeeded: {info}"))?;
    Ok(info)
}
/// a step from a state with a density or pressure that is not positive somewhere, and does not change, fails
fn refused<P: Physics<E, SS> + 'static, const E: usize, const SS: usize>(rng: &mut Rng) -> O {
    let cfg = config(NumFluxConfig::Hll, MODES[rng.n(9)]);
    let mut w = prims(rng, E, SS, 1);
    let j = if E == 3 && rng.b() { 2 } else { 0 };
    let i = 2 + rng.n(SS - 4);
    let x = [0.0, -0.0, -f64::from_bits(1), -1e-300, -1.0, f64::NAN, f64::NEG_INFINITY][rng.n(7)];
    w[[j, i]] = x;
    if rng.b() {
        // at rest the pressure is recovered from the energy without rounding
        w.row_mut(1).fill(0.0);
    }
    give(&w, &sounds(rng, SS));
    let info = format!("equation {j} is {x:e} in cell {i} of {SS}");
    let Ok(mut c) = cfg.init_corries::<P, Probe, RungeKuttaFehlberg<P, E, SS>, E, SS>(init_given) else {
        return Ok(info);
    };
    c.1.timestep.t_next_output = 1e6;
    c.1.timestep.t_end = 1e6;
    set_op(|_, _, d| {
        d.fill(0.0);
        Ok(())
    });
    let r = c.1.next_solution(&mut c.0, &c.2);
    if r.is_ok() {
        physical(&c.0).map_err(|e| format!("step succeeded although {e}; {info}"))?;
    }
    Ok(info)
}
pub fn c17(c: &mut Ctx) {
    c.cases("unphysical_start", 300, |r, _| sized!(r, refused));
    c.cases("steps", 1500, |r, _| sized!(r, unphysical));
    c.cases("fluxes", 400, |r, _| sized!(r, flux_nan));
    c.cases("cfl", 60, |r, _| {
        let m = Mesh::<S>::new(&MeshConfig::default_riemann_test()).unwrap();
        let mut u = state::<P, 2, S>(r, 1);
        u.cent.eigen_vals.fill(0.0);
        want(u.calc_dt_cfl(0.4, &m).is_err(), || "infinite CFL width accepted".into())?;
        Ok("static medium".into())
    });
    c.cases("mesh", 30, |r, _| {
        let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][r.n(3)];
        let (a, b) = if r.b() { (x, 2.0) } else { (1.0, x) };
        want(Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: a, xi_out: b }).is_err(), || format!("mesh [{a}, {b}] accepted"))?;
        Ok(format!("[{a}, {b}]"))
    });
}

// ---------------------------------------------------------------- C18
#[derive(Clone)]
enum V {
    F(f64),
    U(usize),
    T(String),
    A(Vec<f64>),
}
fn fmt(v: &V, j: usize, prec: usize, width: usize) -> String {
    let s = match v {
        V::F(x) => format!("{:.*e}", prec, x),
        V::A(x) => format!("{:.*e}", prec, x[j]),
        V::U(x) => x.to_string(),
        V::T(x) => x.clone(),
    };
    let pad = width.saturating_sub(s.chars().count());
    " ".repeat(pad) + &s
}
fn files(rng: &mut Rng, base: &Path) -> O {
    const SS: usize = 9;
    type P = Euler1DAdiabatic<SS>;
    let d = Dir::new(base, "files");
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    cfg.output_counter_max = [1, 9, 10, 12, 99, 100, 1000][rng.n(7)];
    let nout = 1 + rng.n(3);
    let sc = [DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind];
    let ve = [
        DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::Prim(0), DataName::Prim(1), DataName::Prim(2),
        DataName::Cons(0), DataName::Cons(1), DataName::Cons(2), DataName::CSound,
    ];
    let clear = rng.n(3) == 0 && nout == 1;
    // outputs may share folder and file name as long as they differ in kind or format
    let shared = rng.n(3) == 0;
    let turn = rng.n(4);
    let fname: Vec<String> = (0..nout).map(|k| format!("out{}", if shared { 0 } else { k })).collect();
    for k in 0..nout {
        let kind = if shared { (turn + [0, 1, 3][k]) % 4 } else { rng.n(4) };
        let vector = kind % 2 == 1;
        let n = 1 + rng.n(6);
        let names = (0..n).map(|_| if vector && rng.n(4) > 0 { ve[rng.n(10)] } else { sc[rng.n(4)] }).collect();
        cfg.writer_config.push(OutputConfig {
            stream_mode: StreamMode::File,
            formatting_mode: if kind / 2 == 1 { FormattingMode::CSV } else { FormattingMode::TSV },
            string_conversion_mode: if vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar },
            folder_name: d.0.clone() + if rng.b() { "/" } else { "" },
            should_clear_out_folder: clear,
            file_name: fname[k].clone(),
            precision: [0, 3, 7, 12, 17][rng.n(5)],
            should_print_ghostcells: rng.b(),
            should_print_metadata: rng.b(),
            data_names: names,
        });
    }
    let stale = rng.b();
    if stale {
        fs::create_dir_all(&d.0).map_err(|e| e.to_string())?;
        for k in 0..nout {
            for ext in ["csv", "tsv"] {
                for f in [format!("out{k}.{ext}"), format!("out{k}_{}.{ext}", width_name(0, cfg.output_counter_max)), format!("out{k}_{}.{ext}", width_name(1, cfg.output_counter_max))] {
                    fs::write(format!("{}/{f}", d.0), "stale\n".repeat(4000)).map_err(|e| e.to_string())?;
                }
            }
            fs::write(format!("{}/out{k}_metadata.json", d.0), "stale\n".repeat(4000)).map_err(|e| e.to_string())?;
            fs::write(format!("{}/out{k}__metadata.json", d.0), "stale\n".repeat(4000)).map_err(|e| e.to_string())?;
        }
    }
    let before: Vec<String> = if stale { list(&d.0) } else { vec![] };
    let w = prims(rng, 3, SS, 1);
    give(&w, &Array1::from_elem(SS, 1.0));
    type H = Hll<3, SS>;
    type T = RungeKuttaFehlberg<P, 3, SS>;
    let (mut u, mut s, m, mut wr) = cfg.init_corries::<P, H, T, 3, SS>(init_given).map_err(|e| format!("init: {e:?}"))?;
    let meta = cfg.writer_config.iter().map(|o| o.should_print_metadata).collect::<Vec<_>>();
    let mut text: Vec<Vec<(String, String)>> = vec![vec![]; nout];
    let steps = 1 + rng.n(4);
    for k in 0..steps {
        let style = [1, 3, 6][rng.n(3)];
        fill(&mut u.cent, &prims(rng, 3, SS, style), &Array1::from_elem(SS, 1.0), 1.4);
        let at = rng.n(SS);
        u.cent.prim[[1, at]] = [-0.0, 1e-300, -1e300, 123.456][rng.n(4)];
        let ts = &mut s.timestep;
        ts.t = [0.0, rng.log(1e-10, 1e10)][rng.n(2)];
        ts.iter = [0, rng.n(1000), 123456789012345][rng.n(3)];
        ts.dt = rng.log(1e-10, 1e10);
        ts.dt_kind = [DtKind::Init, DtKind::Cfl, DtKind::ErrorDump][rng.n(3)];
        wr.update_data(&u.cent, &s.timestep, &m).map_err(|e| format!("update_data: {e:?}"))?;
        wr.write_output().map_err(|e| format!("write_output: {e:?}"))?;
        want(wr.output_counter == k + 1, || format!("output counter {}", wr.output_counter))?;
        for (o, oc) in cfg.writer_config.iter().enumerate() {
            let tsv = oc.formatting_mode == FormattingMode::TSV;
            let (width, del, lead) = if tsv { (12.min(oc.precision + 7), " ", "#") } else { (0, ",", "") };
            let off = if oc.should_print_ghostcells { 0 } else { 2 };
            let vec = oc.string_conversion_mode == ToStringConversionMode::Vector;
            let cut = |x: &[f64]| V::A(x[off..SS - off].to_vec());
            let row = |a: &Array2<f64>, j: usize| cut(&a.row(j).to_vec());
            let (mut names, mut vals) = (vec![], vec![]);
            for n in &oc.data_names {
                let (nm, v) = match n {
                    DataName::XiCent => ("xi_cent".to_string(), cut(&m.xi_cent.to_vec())),
                    DataName::XiWest => ("xi_west".to_string(), cut(&m.xi_west.to_vec())),
                    DataName::XiEast => ("xi_east".to_string(), cut(&m.xi_east.to_vec())),
                    DataName::Prim(j) => (format!("prim_{j}"), row(&u.cent.prim, *j)),
                    DataName::Cons(j) => (format!("cons_{j}"), row(&u.cent.cons, *j)),
                    DataName::CSound => ("c_sound".to_string(), cut(&u.cent.c_sound.to_vec())),
                    DataName::T => ("t".to_string(), V::F(s.timestep.t)),
                    DataName::Iter => ("iter".to_string(), V::U(s.timestep.iter)),
                    DataName::Dt => ("dt".to_string(), V::F(s.timestep.dt)),
                    DataName::DtKind => ("dt_kind".to_string(), V::T(["init", "cfl", "err"][match s.timestep.dt_kind {
                        DtKind::Init => 0,
                        DtKind::Cfl => 1,
                        DtKind::ErrorDump => 2,
                    }].to_string())),
                };
                names.push(fmt(&V::T(nm), 0, 0, width));
                vals.push(v);
            }
            let head = format!("{lead}{}\n", names.join(del));
            let mut body = String::new();
            for j in 0..if vec { SS - 2 * off } else { 1 } {
                if tsv {
                    body.push(' ');
                }
                body += &vals.iter().map(|v| fmt(v, j, oc.precision, width)).collect::<Vec<_>>().join(del);
                body.push('\n');
            }
            let ext = if tsv { "tsv" } else { "csv" };
            if vec {
                text[o].push((format!("{}_{}.{ext}", fname[o], width_name(k, cfg.output_counter_max)), head + &body));
            } else if k == 0 {
                text[o].push((format!("{}.{ext}", fname[o]), head + &body));
            } else {
                text[o][0].1 += &body;
            }
        }
    }
    let mut known: Vec<String> = vec![];
    for (o, fs_) in text.iter().enumerate() {
        for (name, exp) in fs_ {
            let got = fs::read_to_string(format!("{}/{name}", d.0)).map_err(|e| format!("{name}: {e}"))?;
            want(&got == exp, || {
                let l = got.lines().zip(exp.lines()).enumerate().find(|(_, (a, b))| a != b);
                format!("{name} differs ({} bytes, expected {}), first differing line {l:?}; {:?}", got.len(), exp.len(), cfg.writer_config[o])
            })?;
            known.push(name.clone());
        }
        if meta[o] {
            let suffix = if cfg.writer_config[o].string_conversion_mode == ToStringConversionMode::Vector { "_" } else { "" };
            let name = format!("{}{suffix}_metadata.json", fname[o]);
            let got = fs::read_to_string(format!("{}/{name}", d.0)).map_err(|e| format!("{name}: {e}"))?;
            want(got == wr.meta_data, || format!("metadata file differs from the configuration: {got}"))?;
            // it holds the configuration
            for key in ["print_banner", "mesh_config", "physics_config", "boundary_condition_west", "numerics_config", "output_counter_max", "writer_config"] {
                want(got.contains(&format!("\"{key}\"")), || format!("metadata lacks {key}"))?;
            }
            want(got.contains(&format!("\"output_counter_max\": {}", cfg.output_counter_max)), || "metadata lacks the output count".into())?;
            want(!got.contains("stale"), || "old metadata survived".into())?;
            known.push(name);
        }
    }
    for f in list(&d.0) {
        want(known.contains(&f) || (!clear && before.contains(&f)), || format!("unexpected file {f}"))?;
    }
    Ok(format!("{:?} steps={steps} stale={stale}", cfg.writer_config.iter().map(|o| (o.formatting_mode, o.string_conversion_mode, o.precision, o.data_names.clone())).collect::<Vec<_>>()))
}
fn list(d: &str) -> Vec<String> {
    fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default()
}
pub fn c18(c: &mut Ctx) {
    let b = c.scratch.clone();
    c.cases("files", 300, |r, _| files(r, &b));
    c.cases("write_errors", 4, |_, k| {
        // an output that cannot be written is an error, not a silent loss
        let d = Dir::new(&b, "block");
        fs::create_dir_all(&d.0).map_err(|e| e.to_string())?;
        let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
        cfg.writer_config = vec![if k % 2 == 0 { scalar_out(&d.0, "x") } else { vector_out(&d.0, "x") }];
        let mut c = run_sim(&cfg)?;
        fs::create_dir_all(format!("{}/{}", d.0, if k % 2 == 0 { "x.csv" } else { "x_0.csv" })).map_err(|e| e.to_string())?;
        script(|_| Some(1.0));
        want(c.run_corries().is_err(), || "writing into a directory succeeded".into())?;
        Ok("blocked file".into())
    });
}

// ---------------------------------------------------------------- C20
fn initial<PP: Physics<E, SS> + 'static, const E: usize, const SS: usize>(rng: &mut Rng) -> O {
    fn go<PP: Physics<E, SS> + 'static, N: NumFlux<E, SS> + 'static, const E: usize, const SS: usize>(rng: &mut Rng, nf: NumFluxConfig) -> O {
        let (m0, mc) = mesh::<SS>(rng);
        let mut cfg = config(nf, MODES[rng.n(9)]);
        cfg.mesh_config = mc.clone();
        cfg.physics_config.adiabatic_index = gamma(rng);
        let n = &mut cfg.numerics_config;
        n.t0 = rng.r(0.0, 2.0);
        n.t_end = n.t0 + rng.log(0.1, 10.0);
        n.iter_max = 1 + rng.n(1000);
        n.dt_min = rng.log(1e-15, 1e-6);
        n.dt_max = rng.log(1e-3, 1e3);
        n.dt_cfl_param = rng.r(0.05, 0.9);
        cfg.output_counter_max = 1 + rng.n(50);
        if rng.b() {
            cfg.boundary_condition_west = BoundaryMode::Custom((0..E).map(|j| (j, if j == 1 { CustomBoundaryMode::Reflecting } else { CustomBoundaryMode::NoGradients })).collect());
        }
        if rng.b() {
            cfg.boundary_condition_east = BoundaryMode::Custom(vec![(1, CustomBoundaryMode::OutflowNoGradients)]);
        }
        let w = prims(rng, E, SS, 1);
        let c = sounds(rng, SS);
        give(&w, &c);
        let (u, s, m, wr) = cfg
            .init_corries::<PP, N, RungeKuttaFehlberg<PP, E, SS>, E, SS>(init_given)
            .map_err(|e| format!("admissible configuration failed: {e:?}; {cfg:?}"))?;
        want(init_calls() == 1, || format!("initial condition applied {} times", init_calls()))?;
        let g = cfg.physics_config.adiabatic_index;
        let mut x = w.clone();
        ref_boundary(&mut x, false, &cfg.boundary_condition_west, &m0.xi_cent);
        ref_boundary(&mut x, true, &cfg.boundary_condition_east, &m0.xi_cent);
        let cs = ref_c(&x, &c, g);
        cmp2("prim", &u.cent.prim, &x, |_, _| 1.0)?;
        cmp2("cons", &u.cent.cons, &ref_cons(&x, g), |_, _| 0.0)?;
        cmp1("c_sound", &u.cent.c_sound, &cs)?;
        cmp2("eigen_vals", &u.cent.eigen_vals, &ref_eigen(&x, &cs), |_, i| x[[1, i]].abs() + cs[i])?;
        for (v, nm) in [(&u.west, "west"), (&u.east, "east")] {
            frame(&u.cent, v, &["eigen_vals", "flux"], nm)?;
        }
        want(u.cent.gamma == g && u.west.gamma == g && u.east.gamma == g, || format!("adiabatic index {} of {g}", u.cent.gamma))?;
        let n = &cfg.numerics_config;
        let t = &s.timestep;
        want(
            t.t == n.t0 && t.t_end == n.t_end && t.iter == 0 && t.iter_max == n.iter_max && t.dt_min == n.dt_min && t.t_next_output == n.t0 && t.dt_kind == DtKind::Init,
            || format!("time step {t:?} for {n:?}"),
        )?;
        want(near(t.dt_output, (n.t_end - n.t0) / cfg.output_counter_max as f64, 0.0), || format!("output interval {:e}", t.dt_output))?;
        want(m == m0, || "mesh differs from Mesh::new".into())?;
        want(wr.outputs.is_empty() && wr.output_counter == 0 && !wr.print_banner, || "writer".into())?;
        want(s.rhs.full_rhs.iter().all(|x| *x == 0.0) && s.rhs.full_rhs.dim() == (E, SS), || "full_rhs".into())?;
        // CFL number and maximum width show up in the first step
        let mut ts = t.clone();
        let mut uu = State::<PP, E, SS>::new(&cfg.physics_config);
        uu.assign(&u);
        uu.cent.eigen_vals.assign(&u.cent.eigen_vals);
        ts.dt_min = 0.0;
        ts.calc_dt_expl(&mut uu, &m).map_err(|e| e.to_string())?;
        let mx = (0..SS).map(|i| (x[[1, i]].abs() + cs[i]) / m.cell_width[i]).fold(0.0, f64::max);
        want(near(ts.dt, n.dt_cfl_param / mx, 0.0), || format!("CFL width {:e}, expected {:e}", ts.dt, n.dt_cfl_param / mx))?;
        ts.dt = f64::MAX;
        ts.t_next_output = f64::MAX;
        ts.t_end = f64::MAX;
        ts.cap_dt();
        want(ts.dt == n.dt_max, || format!("maximum width {:e} of {:e}", ts.dt, n.dt_max))?;
        Ok(format!("{cfg:?}").chars().take(300).collect())
    }
    if rng.b() {
        go::<PP, Hll<E, SS>, E, SS>(rng, NumFluxConfig::Hll)
    } else {
        let l = limiter_any(rng);
        go::<PP, Kt<E, SS>, E, SS>(rng, NumFluxConfig::Kt { limiter_mode: l })
    }
}
fn init_fail(rng: &mut Rng) -> O {
    type R = RungeKuttaFehlberg<P, 2, S>;
    let mut cfg = config(NumFluxConfig::Hll, RKFMode::Heun2);
    let kt = NumFluxConfig::Kt { limiter_mode: limiter_any(rng) };
    match rng.n(4) {
        0 => {
            let r = cfg.init_corries::<P, Hll<2, S>, R, 2, S>(|_, _, _| bail!("initial condition"));
            want(r.is_err(), || "error of the initial condition was swallowed".into())?;
            Ok("failing initial condition".into())
        },
        1 => {
            cfg.numerics_config.numflux_config = kt;
            let r = cfg.init_corries::<P, Hll<2, S>, R, 2, S>(|_, _, _| Ok(()));
            want(r.is_err(), || "Hll was built from a Kt configuration".into())?;
            Ok("Hll from Kt".into())
        },
        2 => {
            let r = cfg.init_corries::<P, Kt<2, S>, R, 2, S>(|_, _, _| Ok(()));
            want(r.is_err(), || "Kt was built from an Hll configuration".into())?;
            Ok("Kt from Hll".into())
        },
        _ => {
            // the west ghost cells start at xi = 0: the inverse coordinate is infinite
            cfg.mesh_config = MeshConfig { mode: MeshMode::Cartesian, xi_in: 2.0, xi_out: 6.0 };
            let r = cfg.init_corries::<P, Hll<2, S>, R, 2, S>(|_, _, _| Ok(()));
            want(r.is_err(), || "non-finite mesh was accepted".into())?;
            Ok("mesh with a face at zero".into())
        },
    }
}
pub fn c20(c: &mut Ctx) {
    c.cases("initialise", 300, |r, _| sized!(r, initial));
    c.cases("failures", 40, |r, _| init_fail(r));
}

// ---------------------------------------------------------------- C21
pub fn c21(c: &mut Ctx) {
    c.cases("units", 400, |r, _| {
        let x = [0.0, 1.0, -1.0, r.sign() * r.log(1e-20, 1e20)][r.n(4)];
        let cgs = r.b();
        let u = Units::new(if cgs { UnitsMode::CGS } else { UnitsMode::SI });
        let (l, m) = if cgs { (0.01, 0.001) } else { (1.0, 1.0) };
        for (name, got, exp) in [
            ("convert_length_to_si", u.convert_length_to_si(x), l * x),
            ("convert_mass_to_si", u.convert_mass_to_si(x), m * x),
            ("convert_time_to_si", u.convert_time_to_si(x), x),
            ("convert_length_to_cgs", u.convert_length_to_cgs(x), if cgs { x } else { 100.0 * x }),
            ("convert_mass_to_cgs", u.convert_mass_to_cgs(x), if cgs { x } else { 1000.0 * x }),
            ("convert_time_to_cgs", u.convert_time_to_cgs(x), x),
        ] {
            want(near(got, exp, 0.0), || format!("{name}({x:e}) = {got:e}, expected {exp:e}; CGS mode: {cgs}"))?;
        }
        Ok(format!("{x:e} cgs={cgs}"))
    });
}

// ---------------------------------------------------------------- C23
fn name(rng: &mut Rng) -> String {
    let a = "abcdefgh_-.0123456789 /";
    (0..1 + rng.n(8)).map(|_| a.chars().nth(rng.n(a.len())).unwrap()).collect()
}
fn check_stdout(o: &OutputConfig, names: &[DataName]) -> R {
    want(
        o.stream_mode == StreamMode::Stdout
            && o.formatting_mode == FormattingMode::TSV
            && o.string_conversion_mode == ToStringConversionMode::Scalar
            && o.folder_name.is_empty()
            && o.file_name.is_empty()
            && !o.should_clear_out_folder
            && o.precision == 3
            && !o.should_print_ghostcells
            && !o.should_print_metadata
            && o.data_names == names,
        || format!("console output {o:?}"),
    )
}
fn check_file(o: &OutputConfig, folder: &str, file: &str, names: &[DataName]) -> R {
    want(
        o.stream_mode == StreamMode::File
            && o.formatting_mode == FormattingMode::CSV
            && o.string_conversion_mode == ToStringConversionMode::Vector
            && o.folder_name == folder
            && o.file_name == file
            && o.should_clear_out_folder
            && o.precision == 7
            && o.should_print_ghostcells
            && o.should_print_metadata
            && o.data_names == names,
        || format!("file output {o:?} for {folder:?} {file:?} {names:?}"),
    )
}
fn prim_names(e: usize) -> Vec<DataName> {
    let mut v = vec![DataName::T, DataName::XiCent];
    v.extend((0..e).map(DataName::Prim));
    v
}
fn defaults<PP: Physics<E, SS> + 'static, const E: usize, const SS: usize>(rng: &mut Rng, base: &Path) -> O {
    let d = Dir::new(base, "defaults");
    let (folder, file) = (format!("{}/{}", d.0, name(rng).replace('/', "x").trim_matches('.')), name(rng).replace('/', "y"));
    let t_end = rng.log(1e-6, 1e6);
    let kt = rng.b();
    fn cfg<N: NumFlux<E, SS> + 'static, const E: usize, const SS: usize>(t: f64, a: &str, b: &str) -> CorriesConfig {
        CorriesConfig::default_riemann_test::<N, E, SS>(t, a, b)
    }
    let c = if kt { cfg::<Kt<E, SS>, E, SS>(t_end, &folder, &file) } else { cfg::<Hll<E, SS>, E, SS>(t_end, &folder, &file) };
    let n = &c.numerics_config;
    let nf = match n.numflux_config {
        NumFluxConfig::Hll => !kt,
        NumFluxConfig::Kt { limiter_mode } => kt && limiter_mode == LimiterMode::VanLeer,
    };
    want(nf, || format!("flux scheme {:?}, kt={kt}", n.numflux_config))?;
    want(n.t0 == 0.0 && n.t_end == t_end && n.dt_min == 1e-12 && n.dt_max == f64::MAX && n.dt_cfl_param == 0.4 && n.iter_max == usize::MAX - 2, || format!("{n:?}"))?;
    let TimeIntegrationConfig::Rkf(r) = &n.time_integration_config;
    want(r.rkf_mode == RKFMode::SSPRK5 && !r.asc && r.asc_relative_tolerance == 0.001 && r.asc_absolute_tolerance == 0.001 && r.asc_timestep_friction == 0.08, || format!("{r:?}"))?;
    want(c.mesh_config.xi_in == 1.0 && c.mesh_config.xi_out == 2.0 && c.physics_config.adiabatic_index == 5.0 / 3.0 && c.physics_config.units_mode == UnitsMode::SI, || format!("{c:?}"))?;
    want(c.boundary_condition_west == BoundaryMode::NoGradients && c.boundary_condition_east == BoundaryMode::NoGradients, || "boundaries".into())?;
    want(c.output_counter_max == 1 && !c.print_banner && c.writer_config.len() == 2, || format!("{c:?}"))?;
    check_stdout(&c.writer_config[0], &[DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind])?;
    check_file(&c.writer_config[1], &folder, &file, &prim_names(E))?;
    // accepted by validation
    give(&prims(rng, E, SS, 8), &Array1::from_elem(SS, 1.0));
    let mut c2 = c.clone();
    c2.writer_config[1].should_print_metadata = false;
    let ok = if kt {
        c2.init_corries::<PP, Kt<E, SS>, RungeKuttaFehlberg<PP, E, SS>, E, SS>(init_given).map(|_| ())
    } else {
        c2.init_corries::<PP, Hll<E, SS>, RungeKuttaFehlberg<PP, E, SS>, E, SS>(init_given).map(|_| ())
    };
    ok.map_err(|e| format!("default configuration rejected: {e:?}; {c:?}"))?;
    // ready-made outputs
    let all = [DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind, DataName::XiWest, DataName::Cons(1), DataName::CSound];
    let names: Vec<DataName> = (0..rng.n(6)).map(|_| all[rng.n(7)]).collect();
    check_stdout(&OutputConfig::default_stdout(), &[DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind])?;
    check_stdout(&OutputConfig::default_stdout_with_names(names.clone()), &names)?;
    let (fo, fi) = (name(rng), name(rng));
    let e = rng.n(7);
    check_file(&OutputConfig::default_file(&fo, &fi, e), &fo, &fi, &prim_names(e))?;
    check_file(&OutputConfig::default_file_with_names(&fo, &fi, names.clone()), &fo, &fi, &names)?;
    Ok(format!("t_end={t_end:e} {folder:?} {file:?} kt={kt}"))
}
pub fn c23(c: &mut Ctx) {
    let b = c.scratch.clone();
    c.cases("defaults", 120, |r, _| {
        if r.b() {
            defaults::<Euler1DIsot<8>, 2, 8>(r, &b)
        } else {
            defaults::<Euler1DAdiabatic<11>, 3, 11>(r, &b)
        }
    });
}
