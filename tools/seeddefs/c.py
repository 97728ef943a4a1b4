seed('C01-vacuum-velocity', 'C01', [('src/state/systems/euler1disot.rs', '    (rho_cons, xi_mom / rho_cons)\n', '    let xi_vel = if rho_cons > 1.0e-9 { xi_mom / rho_cons } else { 0.0 };\n    (rho_cons, xi_vel)\n')],
     'a cell whose density is positive but tiny in the chosen units (interstellar gas in SI units)',
     'the velocity of thin gas is lost in the conversion from conserved to primitive variables',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut u = State::<Euler1DAdiabatic<S>, 3, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 10f64.powi(-(2 * i as i32)); u.cent.prim[[1, i]] = 3.0; u.cent.prim[[2, i]] = 1.0; }
    u.update_cons();
    u.update_prim();
    for i in 0..S { assert!((u.cent.prim[[1, i]] - 3.0).abs() < 1e-9, "{i} {}", u.cent.prim[[1, i]]); }
}
''')
seed('C02-csound-hoisted', 'C02', [('src/state/systems/euler1disot.rs', '''        for i in 0..S {
            (vars.flux[[Self::JRHO, i]], vars.flux[[Self::JXI, i]]) = calc_flux(''', '''        // the speed of sound is a constant of isothermal gas
        let c_sound = vars.c_sound[0];
        for i in 0..S {
            (vars.flux[[Self::JRHO, i]], vars.flux[[Self::JXI, i]]) = calc_flux('''),
      ('src/state/systems/euler1disot.rs', '                vars.c_sound[i],\n', '                c_sound,\n')],
     'locally isothermal gas: a sound speed that is not the same in every cell',
     'the pressure term of the momentum flux uses the sound speed of the first cell everywhere',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut u = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 2.0; u.cent.prim[[1, i]] = 0.5; u.cent.c_sound[i] = 1.0 + i as f64; }
    u.update_cons();
    u.update_flux();
    for i in 0..S {
        let c = 1.0 + i as f64;
        assert!((u.cent.flux[[1, i]] - 2.0 * (0.25 + c * c)).abs() < 1e-9, "{i} {}", u.cent.flux[[1, i]]);
    }
}
''')
seed('C04-negative-inverse', 'C04', [('src/mesh.rs', 'let xi_cent_inv = xi_cent.mapv(f64::recip);', 'let xi_cent_inv = xi_cent.mapv(|xi: f64| xi.abs().max(f64::MIN_POSITIVE).recip());')],
     'a mesh that extends to negative coordinates',
     'the inverse of a negative cell centre has the wrong sign',
     r'''
use corries::prelude::*;
const S: usize = 12;
fn main() {
    let m = Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: -2.1, xi_out: 1.3 }).unwrap();
    for i in 0..S { assert!((m.xi_cent[i] * m.xi_cent_inv[i] - 1.0).abs() < 1e-9, "{i}"); }
}
''')
seed('C09-density-floor', 'C09', [('src/time/rkf.rs', '        u.cent.cons.assign(&self.utilde.cent.cons);\n        u.update_vars', '        u.cent.cons.assign(&self.utilde.cent.cons);\n        // keep a little gas in every cell, so that velocities stay defined\n        u.cent.cons.row_mut(P::JRHO).mapv_inplace(|rho| rho.max(1.0e-10));\n        u.update_vars')],
     'gas so thin that its density falls below the hidden floor during a step',
     'mass appears out of nothing in near-vacuum cells',
     r'''
use corries::prelude::*;
const S: usize = 12;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0e-3, "a", "b");
    c.writer_config.clear();
    let mut x = c.init_corries::<P, N, T, 2, S>(|u, _, _| { for i in 0..S { u.cent.prim[[0, i]] = 1e-12; u.cent.prim[[1, i]] = 0.0; } u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    let before: f64 = x.0.cent.cons.row(0).sum();
    x.run_corries().unwrap();
    let after: f64 = x.0.cent.cons.row(0).sum();
    assert!((after - before).abs() < 1e-6 * before, "{before} {after}");
}
''')
OUT = r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
#[allow(dead_code)]
fn config(o: OutputConfig) -> CorriesConfig {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(0.3, "a", "b");
    c.writer_config = vec![o];
    c.output_counter_max = 3;
    c
}
#[allow(dead_code)]
fn run(c: &CorriesConfig) {
    let mut x = c.init_corries::<P, N, T, 2, S>(|u, _, _| { for i in 0..S { u.cent.prim[[0, i]] = 1.0; u.cent.prim[[1, i]] = 1.0 / 3.0; } u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    x.run_corries().unwrap();
}
'''
seed('C18-precision-cap', 'C18', [('src/writer/output.rs', '            precision: outputconfig.precision,\n', '            precision: outputconfig.precision.min(f64::DIGITS as usize),\n')],
     'an output with more than 15 digits (17 are needed to read back the same numbers)',
     'the configured precision is silently reduced',
     OUT + r'''
fn main() {
    let mut o = OutputConfig::default_file_with_names("out", "f", vec![DataName::Prim(1)]);
    o.precision = 17;
    run(&config(o));
    let t = std::fs::read_to_string("out/f_0.csv").unwrap();
    let line = t.lines().nth(1).unwrap();
    assert_eq!(line, format!("{:.17e}", 1.0f64 / 3.0), "{t}");
}
''')
seed('C20-faces-early', 'C20', [('src/config.rs', '''        u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
        u.init_west_east();
''', '''        u.init_west_east();
        u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
''')],
     'a look at the face states right after initialisation (the first flux evaluation of KT overwrites most of them)',
     'the face states are copied before ghost cells, conserved variables and sound speeds are filled in',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DAdiabatic<S>;
type N = Kt<3, S>;
type T = RungeKuttaFehlberg<P, 3, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 3, S>(1.0, "a", "b");
    c.writer_config.clear();
    let x = c.init_corries::<P, N, T, 3, S>(corries::initfuncs::init_sod).unwrap();
    assert_eq!(x.0.west.cons, x.0.cent.cons);
    assert_eq!(x.0.east.c_sound, x.0.cent.c_sound);
}
''')
seed('C21-mass-factor', 'C21', [('src/units.rs', 'UnitsMode::CGS => input * MASS_CGS,', 'UnitsMode::CGS => input * LENGTH_CGS,')],
     'a simulation set up in CGS units that converts masses',
     'masses are converted with the factor for lengths',
     r'''
use corries::prelude::*;
use corries::units::Units;
fn main() {
    let u = Units::new(UnitsMode::CGS);
    assert!((u.convert_mass_to_cgs(2.5) - 2.5).abs() < 1e-12, "{}", u.convert_mass_to_cgs(2.5));
}
''')
seed('C23-stdout-unique', 'C23', [('src/config/outputconfig.rs', '''            precision: 3,
            should_print_ghostcells: false,
            should_print_metadata: false,
            data_names,
''', '''            precision: 3,
            should_print_ghostcells: false,
            should_print_metadata: false,
            data_names: {
                let mut names = data_names;
                names.dedup();
                names
            },
''')],
     'a list of quantities with a repeated entry',
     'the ready-made console output drops requested quantities',
     r'''
use corries::prelude::*;
fn main() {
    let o = OutputConfig::default_stdout_with_names(vec![DataName::T, DataName::T, DataName::Iter]);
    assert_eq!(o.data_names.len(), 3);
}
''')
seed('C25-superbee-lopsided', 'C25', [('src/rhs/numflux/kt.rs', 'signum(a) as f64 * min!(min!(a.abs(), b.abs()), 0.5 * max!(a.abs(), b.abs()))', 'signum(a) as f64 * min!(b.abs(), 0.5 * max!(a.abs(), b.abs()))')],
     'the Superbee limiter on data whose eastward differences exceed the westward ones',
     'the limiter looks at one side only, so a mirrored state has another derivative',
     r'''
use corries::prelude::*;
const S: usize = 12;
fn d(mirror: bool) -> ndarray::Array2<f64> {
    let m = Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: 1.0, xi_out: 2.0 }).unwrap();
    let mut k = Kt::<2, S>::new(&NumFluxConfig::Kt { limiter_mode: LimiterMode::Superbee }, &m).unwrap();
    let mut u = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    for i in 0..S {
        let q = if mirror { S - 1 - i } else { i };
        u.cent.prim[[0, i]] = 1.0 + 0.01 * (q * q) as f64;
        u.cent.prim[[1, i]] = if mirror { -0.3 } else { 0.3 };
    }
    u.cent.c_sound.fill(1.0);
    u.update_cons(); u.update_derived_variables(); u.init_west_east();
    let mut d = ndarray::Array2::zeros((2, S));
    k.calc_dflux_dxi(&mut d, &mut u, &m).unwrap();
    d
}
fn main() {
    let (a, b) = (d(false), d(true));
    for i in 2..S - 2 { assert!((a[[0, i]] - b[[0, S - 1 - i]]).abs() < 1e-10, "{i} {} {}", a[[0, i]], b[[0, S - 1 - i]]); }
}
''')
seed('C06-slow-signals', 'C06', [('src/rhs/numflux/hll.rs', '*a = 1.0 / (sr - sl)', '*a = 1.0 / f64::max(sr - sl, 1.0e-4)')],
     'signal speeds below 1e-4 in the chosen units',
     'the flux of slow waves is scaled down by an absolute threshold',
     r'''
use corries::prelude::*;
const S: usize = 12;
fn d(scale: f64) -> ndarray::Array2<f64> {
    let m = Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: 1.0, xi_out: 2.0 }).unwrap();
    let mut k = Hll::<2, S>::new(&NumFluxConfig::Hll, &m).unwrap();
    let mut u = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 1.0 + 0.01 * (i * i) as f64; u.cent.prim[[1, i]] = 0.3 * scale; }
    u.cent.c_sound.fill(scale);
    u.update_cons(); u.update_derived_variables();
    let mut d = ndarray::Array2::zeros((2, S));
    k.calc_dflux_dxi(&mut d, &mut u, &m).unwrap();
    d
}
fn main() {
    let (a, b) = (d(1.0), d(1.0e-6));
    for i in 2..S - 2 { assert!((a[[0, i]] * 1e-6 - b[[0, i]]).abs() < 1e-12, "{i} {} {}", a[[0, i]], b[[0, i]]); }
}
''')
seed('C13-cap-slack', 'C13', [('src/time/timestep.rs', '        if (self.dt + self.t) / self.t_next_output > 1.0 {', '        if (self.dt + self.t) / self.t_next_output > 1.0 + 1.0e-3 {')],
     'a step that would pass the next output time by less than a thousandth of it',
     'output times before the end are overshot',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(2.0, "a", "b");
    c.writer_config.clear();
    c.output_counter_max = 2;
    let mut x = c.init_corries::<P, N, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    let ts = &mut x.1.timestep;
    ts.t = 0.9; ts.t_next_output = 1.0; ts.dt = 0.1005;
    ts.cap_dt();
    assert!(ts.t + ts.dt <= 1.0 + 1e-12, "{}", ts.t + ts.dt);
}
''')
seed('C14-late-start', 'C14', [('src/time/timestep.rs', 'dt_output: (numericsconfig.t_end - numericsconfig.t0) / output_counter_max as f64,', 'dt_output: numericsconfig.t_end / output_counter_max as f64,')],
     'a start time other than zero and more than one output',
     'outputs are spaced as if the run started at time zero, so some are missing',
     OUT + r'''
fn main() {
    let o = OutputConfig::default_file_with_names("out", "f", vec![DataName::T]);
    let mut c = config(o);
    c.numerics_config.t0 = 0.2;
    run(&c);
    let n = std::fs::read_dir("out").unwrap().filter(|e| e.as_ref().unwrap().file_name().to_str().unwrap().ends_with(".csv")).count();
    assert_eq!(n, 4);
}
''')
seed('C16-first-output-only', 'C16', [('src/config.rs', '        for outputconf in self.writer_config.iter() {\n            outputconf.validate().context("Validating config.writerconf")?;\n        }\n', '        if let Some(outputconf) = self.writer_config.first() {\n            outputconf.validate().context("Validating config.writerconf")?;\n        }\n')],
     'a configuration whose second or later output is invalid',
     'only the first output configuration is validated',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0, "a", "b");
    c.writer_config[1].file_name = "".to_string();
    assert!(c.init_corries::<P, N, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).is_err());
}
''')
seed('C17-zero-pressure', 'C17', [('src/state/systems/euler1dadiabatic.rs', '    check_positive_arrayd!(vars.prim.row(j_pressure));', '    ensure!(\n        !vars.prim.row(j_pressure).iter().any(|p| *p < 0.0),\n        "pressure turned negative! Got: {}",\n        vars.prim.row(j_pressure)\n    );')],
     'a cell whose pressure is exactly zero, as after a subtraction that cancels completely',
     'a state without pressure passes the validation of a step',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut u = State::<Euler1DAdiabatic<S>, 3, S>::new(&PhysicsConfig::default());
    u.cent.prim.fill(1.0);
    u.update_cons(); u.update_derived_variables();
    assert!(Euler1DAdiabatic::<S>::validate(&u.cent).is_ok());
    u.cent.prim[[2, 3]] = 0.0;
    assert!(Euler1DAdiabatic::<S>::validate(&u.cent).is_err());
}
''')
seed('C22-stale-velocity', 'C22', [('src/initfuncs.rs', '    u.cent.prim.fill(0.0);\n', '    u.cent.prim.row_mut(P::JRHO).fill(0.0);\n')],
     'a state that already holds velocities, for example when an initial condition is applied on top of another one',
     'the Sod problem does not start at rest',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DAdiabatic<S>;
type N = Hll<3, S>;
type T = RungeKuttaFehlberg<P, 3, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 3, S>(1.0, "a", "b");
    c.writer_config.clear();
    let x = c.init_corries::<P, N, T, 3, S>(|u, s, m| { corries::initfuncs::init_noh(u, s, m)?; corries::initfuncs::init_sod(u, s, m) }).unwrap();
    for i in 0..S { assert_eq!(x.0.cent.prim[[1, i]], 0.0); }
}
''')
seed('C05-outflow-threshold', 'C05', [('src/boundaryconditions/custom.rs', '''    if vars.prim[[j, S - 3]].is_sign_negative() {
        reflecting_east(j, vars);
    } else {
        no_gradients_east(j, vars);''', '''    if vars.prim[[j, S - 3]] < -1.0e-8 {
        reflecting_east(j, vars);
    } else {
        no_gradients_east(j, vars);''')],
     'a slow inward velocity at the east boundary',
     'slow flow into the domain is let through instead of being reflected',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.boundary_condition_east = BoundaryMode::Custom(vec![(0, CustomBoundaryMode::NoGradients), (1, CustomBoundaryMode::OutflowNoGradients)]);
    let x = c.init_corries::<P, N, T, 2, S>(|u, _, _| { for i in 0..S { u.cent.prim[[0, i]] = 1.0; u.cent.prim[[1, i]] = -1.0e-9; } u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    let v = &x.0.cent;
    assert_eq!(v.prim[[1, S - 1]], 1.0e-9);
}
''')
