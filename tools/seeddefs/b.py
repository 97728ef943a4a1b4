SMOOTH = r'''
use corries::prelude::*;
const S: usize = 24;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
#[allow(dead_code)]
fn smooth(mode: RKFMode, dt: f64, t_end: f64) -> Vec<f64> {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(t_end, "a", "b");
    c.writer_config.clear();
    c.numerics_config.dt_max = dt;
    c.numerics_config.dt_cfl_param = 1.0;
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig { rkf_mode: mode, asc: false, ..Default::default() });
    let mut x = c.init_corries::<P, N, T, 2, S>(|u, _, m| {
        for i in 0..S {
            u.cent.prim[[0, i]] = 1.0 + 0.3 * (6.0 * (m.xi_cent[i] - 1.0)).sin();
            u.cent.prim[[1, i]] = 3.0 + 0.5 * (5.0 * (m.xi_cent[i] - 1.0)).cos();
        }
        u.cent.c_sound.fill(0.5);
        Ok(())
    }).unwrap();
    x.run_corries().unwrap();
    x.0.cent.cons.iter().copied().collect()
}
#[allow(dead_code)]
fn dist(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).fold(0.0, |m, (x, y)| m.max((x - y).abs())) }
'''
seed('C11-last-stage', 'C11', [('src/time/rkf.rs', '            self.utilde.assign(u);\n', '            if q < 5 {\n                self.utilde.assign(u);\n            }\n')],
     'the six-stage method RKF45 on a non-uniform flow',
     'the last stage of a six-stage step starts from the previous stage instead of the state at the beginning of the step',
     SMOOTH + r'''
fn main() {
    let d = dist(&smooth(RKFMode::RKF45, 1e-4, 1e-3), &smooth(RKFMode::RK4, 1e-4, 1e-3));
    assert!(d < 1e-9, "{d}");
}
''')
seed('C10-rkf45-a65', 'C10', [('src/time/rkf/butchertableau.rs', '1859.0/4104.0, -11.0/40.0, 0.0]', '1859.0/4104.0-0.05, -9.0/40.0, 0.0]')],
     'RKF45; the row sums stay right, so simple consistency checks do not notice',
     'RKF45 loses its order',
     SMOOTH + r'''
fn main() {
    let r = smooth(RKFMode::RKF45, 1e-4, 0.064);
    let e1 = dist(&smooth(RKFMode::RKF45, 0.008, 0.064), &r);
    let e2 = dist(&smooth(RKFMode::RKF45, 0.004, 0.064), &r);
    let order = (e1 / e2).log2();
    assert!(order > 4.3, "e {e1} {e2} order {order}");
}
''')
seed('C13-first-step', 'C13', [('src/time/timestep.rs', 'if self.dt < self.dt_min {', 'if self.dt < self.dt_min && self.iter > 1 {')],
     'a CFL width below the minimum in the very first step',
     'the first step is taken although its CFL width is below dt_min',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.numerics_config.dt_min = 0.3;
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    assert!(x.run_corries().is_err());
    assert_eq!(x.1.timestep.t, 0.0);
}
''')
seed('C12-cap-dropped', 'C12', [('src/time/rkf.rs', '                    time.cap_dt();\n                    self.solution_accepted = true;', '                    if self.n_asc > 0 {\n                        time.cap_dt();\n                    }\n                    self.solution_accepted = true;')],
     'adaptive step control whose first trial step is accepted and followed by a larger suggestion',
     'the enlarged step exceeds dt_max and jumps past output times and the end time',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.numerics_config.dt_max = 0.01;
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig { rkf_mode: RKFMode::RKF45, asc: true, ..Default::default() });
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    x.1.timestep.t_next_output = 1.0;
    x.1.next_solution(&mut x.0, &x.2).unwrap();
    assert!(x.1.timestep.dt <= 0.01, "{}", x.1.timestep.dt);
}
''')
seed('C14-drift', 'C14', [('src/components.rs', 'solver.timestep.t_next_output += solver.timestep.dt_output;', 'solver.timestep.t_next_output = solver.timestep.t + solver.timestep.dt_output;')],
     'a minimum step width that is not negligible against the output interval, so that outputs are written slightly early',
     'output times drift away from the multiples of the output interval and additional outputs appear',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.output_counter_max = 10;
    c.numerics_config.dt_min = 0.02;
    c.numerics_config.dt_max = 0.03;
    c.numerics_config.dt_cfl_param = 0.9;
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.row_mut(0).fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    x.run_corries().unwrap();
    assert_eq!(x.3.output_counter, 11);
}
''')
seed('C15-dump-mark', 'C15', [('src/components.rs', '                solver.timestep.dt_kind = DtKind::ErrorDump;\n                writer\n                    .update_data(&u.cent, &solver.timestep, mesh)\n                    .context("Calling writer.update_data_matrices during the error dump in run_corries")?;\n',
     '                writer\n                    .update_data(&u.cent, &solver.timestep, mesh)\n                    .context("Calling writer.update_data_matrices during the error dump in run_corries")?;\n                solver.timestep.dt_kind = DtKind::ErrorDump;\n')],
     'a run that ends with an error',
     'the error dump is not marked as one: the data are collected before the marker is set',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config = vec![OutputConfig::default_stdout()];
    c.numerics_config.iter_max = 3;
    c.numerics_config.dt_max = 1e-3;
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    assert!(x.run_corries().is_err());
    assert_eq!(x.3.outputs[0].data[3].payload, DataValue::String("err".to_string()));
}
''')
seed('C16-nan-gamma', 'C16', [('src/config/physicsconfig.rs', 'self.adiabatic_index > 1.0 && self.adiabatic_index < 2.0,', '!(self.adiabatic_index <= 1.0 || self.adiabatic_index >= 2.0),')],
     'an adiabatic index that is NaN',
     'validation accepts a NaN adiabatic index',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.physics_config.adiabatic_index = f64::NAN;
    assert!(c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).is_err());
}
''')
seed('C17-energy-for-pressure', 'C17', [('src/state/systems/euler1dadiabatic.rs', 'check_positive_arrayd!(vars.prim.row(j_pressure));', 'check_positive_arrayd!(vars.cons.row(j_pressure));')],
     'a state with negative pressure but positive total energy (fast flow)',
     'a negative pressure passes the validation of a state because the energy is checked instead',
     r'''
use corries::prelude::*;
const S: usize = 10;
fn main() {
    let mut u = State::<Euler1DAdiabatic<S>, 3, S>::new(&PhysicsConfig::default());
    u.cent.prim.row_mut(0).fill(1.0);
    u.cent.prim.row_mut(1).fill(9.0);
    u.cent.prim.row_mut(2).fill(1.0);
    u.cent.prim[[2, 4]] = -0.5;
    u.update_cons();
    assert!(Euler1DAdiabatic::<S>::validate(&u.cent).is_err());
}
''')
seed('C16-validate-late', 'C16', [('src/config.rs', '        self.validate().context("Validating CorriesConfig")?;\n\n', ''),
     ('src/config.rs', '        let mut writer = Writer::new::<S>(self, &mesh).context("Constructing Writer")?;\n', '        let mut writer = Writer::new::<S>(self, &mesh).context("Constructing Writer")?;\n        self.validate().context("Validating CorriesConfig")?;\n')],
     'a rejected configuration whose output folder already holds results',
     'the output folder is cleared before the configuration is rejected',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    std::fs::create_dir("out").unwrap();
    std::fs::write("out/old", "x").unwrap();
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(0.01, "out", "run");
    c.numerics_config.iter_max = 0;
    assert!(c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).is_err());
    assert!(std::path::Path::new("out/old").exists());
}
''')
seed('C18-counter-width', 'C18', [('src/writer/output.rs', 'f64::log10(output_counter_max as f64) as usize + 1', 'f64::log10(output_counter_max as f64).ceil() as usize')],
     'a number of outputs that is a power of ten',
     'the counter in the file names is not zero-padded to a common width any more',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(0.01, "out", "run");
    c.writer_config.remove(0);
    c.output_counter_max = 10;
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    x.run_corries().unwrap();
    for i in 0..=10 { assert!(std::path::Path::new(&format!("out/run_{:02}.csv", i)).exists(), "{i}"); }
}
''')
seed('C08-superbee-half', 'C08', [('src/rhs/numflux/kt.rs', 'min!(min!(a.abs(), b.abs()), 0.5 * max!(a.abs(), b.abs()))', 'min!(a.abs(), b.abs())')],
     'the Superbee limiter where forward and backward difference are of similar size',
     'Superbee silently turns into MinMod',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
fn main() {
    let mesh = Mesh::<S>::new(&MeshConfig::default_riemann_test()).unwrap();
    let mut n = Kt::<2, S>::new(&NumFluxConfig::Kt { limiter_mode: LimiterMode::Superbee }, &mesh).unwrap();
    let mut u = State::<P, 2, S>::new(&PhysicsConfig::default());
    u.cent.prim.row_mut(0).fill(1.0);
    u.cent.c_sound.fill(1.0);
    for i in 0..S { u.cent.prim[[0, i]] = 1.0 + i as f64; }
    u.update_cons(); u.update_derived_variables(); u.init_west_east();
    let mut d = ndarray::Array2::zeros((2, S));
    n.calc_dflux_dxi(&mut d, &mut u, &mesh).unwrap();
    assert!((u.east.cons[[0, 5]] - 6.25).abs() < 1e-9, "{}", u.east.cons[[0, 5]]);
}
''')
seed('C24-infinite-step', 'C24', [('src/state/physics.rs', 'if !dt.is_finite() {', 'if dt.is_nan() {')],
     'a flow without any characteristic speed (pressureless gas at rest)',
     'an infinite step width is returned as a valid CFL step',
     r'''
use corries::prelude::*;
const S: usize = 10;
fn main() {
    let mesh = Mesh::<S>::new(&MeshConfig::default_riemann_test()).unwrap();
    let mut u = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    u.cent.prim.row_mut(0).fill(1.0);
    u.update_cons(); u.update_derived_variables();
    assert!(u.calc_dt_cfl(0.4, &mesh).is_err());
}
''')
seed('C06-sl-magnitude', 'C06', [('src/rhs/numflux/hll.rs', '*sl = 0.0f64.min(ev1.min(ev2)));', '*sl = -ev1.abs().max(ev2.abs()));')],
     'flow that is supersonic to the right at an interface',
     'the left wave speed is the negative magnitude instead of zero, so the flux is not the upwind flux',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
fn main() {
    let mesh = Mesh::<S>::new(&MeshConfig::default_riemann_test()).unwrap();
    let mut n = Hll::<2, S>::new(&NumFluxConfig::Hll, &mesh).unwrap();
    let mut u = State::<P, 2, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 1.0 + 0.1 * i as f64; u.cent.prim[[1, i]] = 3.0 + 0.1 * i as f64; }
    u.cent.c_sound.fill(1.0);
    u.update_cons(); u.update_derived_variables();
    let mut d = ndarray::Array2::zeros((2, S));
    n.calc_dflux_dxi(&mut d, &mut u, &mesh).unwrap();
    for i in 2..S - 2 {
        let w = (u.cent.cons[[1, i]] - u.cent.cons[[1, i - 1]]) / mesh.dxi;
        assert!((d[[0, i]] - w).abs() < 1e-9, "{} {}", d[[0, i]], w);
    }
}
''')
seed('C07-face-sound', 'C07', [('src/rhs/numflux/kt.rs', '        u.update_c_sound_d::<{ Direction::West as u8 }>();\n', '')],
     'adiabatic flow with sound speeds that change in time, so that the stale west face values differ from the current ones',
     'the sound speed at the west faces is not updated from the reconstructed values',
     r'''
use corries::prelude::*;
const S: usize = 8;
type P = Euler1DAdiabatic<S>;
fn main() {
    let mesh = Mesh::<S>::new(&MeshConfig::default_riemann_test()).unwrap();
    let mut n = Kt::<3, S>::new(&NumFluxConfig::Kt { limiter_mode: LimiterMode::VanLeer }, &mesh).unwrap();
    let mut u = State::<P, 3, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 1.0; u.cent.prim[[1, i]] = 0.1; u.cent.prim[[2, i]] = 1.0 + i as f64; }
    u.update_cons(); u.update_derived_variables(); u.init_west_east();
    let mut d = ndarray::Array2::zeros((3, S));
    n.calc_dflux_dxi(&mut d, &mut u, &mesh).unwrap();
    for i in 1..S - 1 {
        let c = (u.west.gamma * u.west.prim[[2, i]] / u.west.prim[[0, i]]).sqrt();
        assert!((u.west.c_sound[i] - c).abs() < 1e-9, "{} {}", u.west.c_sound[i], c);
    }
}
''')
seed('C03-middle-eigenvalue', 'C03', [('src/state/physics.rs', 'for j in 1..E - 1 {', 'for j in 1..E - 2 {')],
     'a look at the middle eigenvalue of a system with three equations, which no flux scheme reads',
     'the eigenvalue v of the contact wave is never set',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut u = State::<Euler1DAdiabatic<S>, 3, S>::new(&PhysicsConfig::default());
    u.cent.prim.fill(1.0);
    u.update_derived_variables();
    for i in 0..S { assert_eq!(u.cent.eigen_vals[[1, i]], 1.0); }
}
''')
seed('C22-sod-odd', 'C22', [('src/initfuncs.rs', '''    u.cent.prim.fill(0.0);
    for i in 0..breakpoint_index {''', '''    u.cent.prim.fill(0.0);
    let breakpoint_index = breakpoint_index + S % 2;
    for i in 0..breakpoint_index {''')],
     'a mesh with an odd number of cells',
     'the diaphragm of the Sod problem is shifted by one cell',
     r'''
use corries::prelude::*;
const S: usize = 11;
type P = Euler1DAdiabatic<S>;
type T = RungeKuttaFehlberg<P, 3, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<3, S>, 3, S>(1.0, "a", "b");
    c.writer_config.clear();
    let x = c.init_corries::<P, Hll<3, S>, T, 3, S>(corries::initfuncs::init_sod).unwrap();
    assert_eq!(x.0.cent.prim[[0, 5]], 0.125);
}
''')
