# changes with hidden state: a counter, a cache, a static; they need a history to show
seed('C09-repeated-sum', 'C09', [
    ('src/rhs.rs', '        self.numflux\n            .calc_dflux_dxi', '        // nothing to do if the state is the one of the last call\n        let key = u.cent.cons.sum();\n        if key == self.last && key != 0.0 {\n            return Ok(());\n        }\n        self.last = key;\n        self.numflux\n            .calc_dflux_dxi'),
    ('src/rhs.rs', '    numflux: N,\n', '    numflux: N,\n\n    /// Fingerprint of the state of the last call\n    last: f64,\n'),
    ('src/rhs.rs', '            numflux: N::new', '            last: 0.0,\n            numflux: N::new')],
     'two consecutive evaluations with different states whose conserved variables have the same sum (the very thing conservation makes likely)',
     'the second evaluation keeps the flux differences of the first state',
     r'''
use corries::prelude::*;
const S: usize = 12;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
fn main() {
    let c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0, "a", "b");
    let m = Mesh::<S>::new(&c.mesh_config).unwrap();
    let mut u = State::<P, 2, S>::new(&c.physics_config);
    let mut r = Rhs::<N, 2, S>::new(&c, &m).unwrap();
    u.cent.c_sound.fill(1.0);
    let mut first = vec![];
    for k in 0..2 {
        for i in 0..S { u.cent.cons[[0, i]] = if (i < 6) == (k == 0) { 1.0 } else { 2.0 }; u.cent.cons[[1, i]] = 0.0; }
        r.update(&mut u, &m).unwrap();
        first.push(r.full_rhs.clone());
    }
    for i in 2..S - 2 {
        assert!((first[0][[0, i]] - first[1][[0, S - 1 - i]]).abs() < 1e-9, "cell {i}: {} and, mirrored, {}", first[0][[0, i]], first[1][[0, S - 1 - i]]);
    }
}
''')
seed('C05-hundredth-call', 'C05', [
    ('src/boundaryconditions/custom.rs', '    modes: Vec<(usize, CustomBoundaryMode)>,\n}', '    modes: Vec<(usize, CustomBoundaryMode)>,\n    /// number of applications so far\n    applied: usize,\n}'),
    ('src/boundaryconditions/custom.rs', '            modes: modes.to_vec(),', '            modes: modes.to_vec(),\n            applied: 0,'),
    ('src/boundaryconditions/custom.rs', '    fn apply(&mut self, vars: &mut Variables<E, S>, mesh: &Mesh<S>) {', '    fn apply(&mut self, vars: &mut Variables<E, S>, mesh: &Mesh<S>) {\n        self.applied += 1;\n        if self.applied % 100 == 0 {\n            return;\n        }')],
     'a hundred applications of the same boundary condition, and ghost cells that would have changed',
     'every hundredth application leaves the ghost cells as they are',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
fn main() {
    let c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0, "a", "b");
    let m = Mesh::<S>::new(&c.mesh_config).unwrap();
    let mut u = State::<P, 2, S>::new(&c.physics_config);
    let mut r = Rhs::<N, 2, S>::new(&c, &m).unwrap();
    u.cent.c_sound.fill(1.0);
    for k in 0..1000 {
        for i in 0..S { u.cent.prim[[0, i]] = (1 + k % 7) as f64; u.cent.prim[[1, i]] = 0.5; }
        u.cent.prim[[0, 0]] = -1.0;
        u.update_vars_from_prim(&mut r.boundary_west, &mut r.boundary_east, &m);
        assert_eq!(u.cent.prim[[0, 0]], (1 + k % 7) as f64, "application {k}");
    }
}
''')
seed('C24-reused-width', 'C24', [
    ('src/time/timestep.rs', 'self.dt = u.calc_dt_cfl(self.dt_cfl_param, mesh)?;', '// the width changes slowly: it is enough to renew it now and then\n        if self.iter % 8 < 2 {\n            self.dt_cfl = u.calc_dt_cfl(self.dt_cfl_param, mesh)?;\n        }\n        self.dt = self.dt_cfl;'),
    ('src/time/timestep.rs', '    pub dt_min: f64,', '    pub dt_min: f64,\n\n    /// Width allowed by the CFL condition when it was last looked at\n    dt_cfl: f64,'),
    ('src/time/timestep.rs', '            dt_min: numericsconfig.dt_min,', '            dt_min: numericsconfig.dt_min,\n            dt_cfl: numericsconfig.dt_max,')],
     'a flow that becomes faster between two renewals of the width',
     'steps exceed the width allowed by the CFL condition',
     r'''
use corries::prelude::*;
const S: usize = 20;
type P = Euler1DAdiabatic<S>;
type N = Hll<3, S>;
type T = RungeKuttaFehlberg<P, 3, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 3, S>(1.0, "a", "b");
    c.writer_config.clear();
    let (mut u, mut s, m, _) = c.init_corries::<P, N, T, 3, S>(corries::initfuncs::init_sod).unwrap();
    s.timestep.t_next_output = 10.0;
    for k in 0..20 {
        let allowed = u.calc_dt_cfl(c.numerics_config.dt_cfl_param, &m).unwrap();
        s.next_solution(&mut u, &m).unwrap();
        assert!(s.timestep.dt <= allowed * (1.0 + 1e-9), "step {k}: {} allowed {allowed}", s.timestep.dt);
    }
}
''')
seed('C18-same-target', 'C18', [
    ('src/writer.rs', 'for outputconf in config.writer_config.iter() {', '// two outputs into the same file would overwrite each other\n        let mut targets = std::collections::HashSet::new();\n        for outputconf in config.writer_config.iter() {\n            let ending = outputconf.formatting_mode == FormattingMode::TSV;\n            if outputconf.stream_mode == StreamMode::File\n                && !targets.insert((outputconf.folder_name.clone(), outputconf.file_name.clone(), ending))\n            {\n                continue;\n            }')],
     'a scalar and a vector output of the same format that share folder and file name (they write different files)',
     'the second output is silently dropped',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(0.1, "a", "b");
    let a = OutputConfig::default_file_with_names("out", "f", vec![DataName::Prim(1)]);
    let mut b = a.clone();
    b.string_conversion_mode = ToStringConversionMode::Scalar;
    b.data_names = vec![DataName::T];
    b.should_clear_out_folder = false;
    c.writer_config = vec![a, b];
    c.output_counter_max = 1;
    c.init_corries::<P, N, T, 2, S>(|u, _, _| { u.cent.prim.row_mut(0).fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap().run_corries().unwrap();
    assert!(std::path::Path::new("out/f_0.csv").exists());
    assert!(std::path::Path::new("out/f.csv").exists());
}
''')
seed('C17-every-sixteenth', 'C17', [
    ('src/state.rs', '        self.cent.validate()?;\n        P::validate', '        // looking at every state is expensive; a broken one stays broken and is found a little later\n        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 16 > 13 {\n            return Ok(());\n        }\n        self.cent.validate()?;\n        P::validate')],
     'an inadmissible state at the right moment of a longer run',
     'two of every sixteen validations accept anything',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type N = Hll<2, S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    for k in 0..64 {
        let mut c = CorriesConfig::default_riemann_test::<N, 2, S>(1.0, "a", "b");
        c.writer_config.clear();
        c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 0.1, asc_absolute_tolerance: 0.1, asc_timestep_friction: 0.1 });
        let (mut u, mut s, m, _) = c.init_corries::<P, N, T, 2, S>(|u, _, _| { u.cent.prim.row_mut(0).fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
        s.timestep.t_next_output = 10.0;
        u.cent.cons.row_mut(0).fill(-1.0);
        assert!(s.next_solution(&mut u, &m).is_err(), "run {k}: a negative density passed");
    }
}
''')
seed('C02-single-precision', 'C02', [
    ('src/state/systems/euler1dadiabatic.rs', '    (xi_mom, xi_vel * xi_mom + pressure, (energy + pressure) * xi_vel)', '    let p = (pressure as f32) as f64;\n    (xi_mom, xi_vel * xi_mom + p, (energy + pressure) * xi_vel)')],
     'a pressure that is not a number of single precision (nearly all are not; a relative difference of 1e-8)',
     'the momentum flux carries the rounding error of single precision',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut u = State::<Euler1DAdiabatic<S>, 3, S>::new(&PhysicsConfig::default());
    for i in 0..S { u.cent.prim[[0, i]] = 1.0; u.cent.prim[[1, i]] = 0.0; u.cent.prim[[2, i]] = 0.1 * (1 + i) as f64; }
    u.update_cons();
    u.update_flux();
    for i in 0..S { let p = 0.1 * (1 + i) as f64; assert!((u.cent.flux[[1, i]] - p).abs() < 1e-12 * p, "{i} {}", u.cent.flux[[1, i]]); }
}
''')
