PROBE = r'''
use color_eyre::Result;
use corries::prelude::*;
use ndarray::Array2;
/// flux scheme with a prescribed right-hand side: -dU/dt of cell (j, i) is RATE(j, i) * U
pub struct Given;
impl<const E: usize, const S: usize> NumFlux<E, S> for Given {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> { Ok(Given) }
    fn calc_dflux_dxi<P: Physics<E, S>>(&mut self, d: &mut Array2<f64>, u: &mut State<P, E, S>, _: &Mesh<S>) -> Result<()> {
        for j in 0..E { for i in 2..S - 2 { d[[j, i]] = rate(j, i, S) * u.cent.cons[[j, i]]; } }
        Ok(())
    }
}
'''
seed('C12-error-window', 'C12', [('src/time/rkf.rs', 's![.., 2..S - 2]', 's![.., 2..S - 3]')],
     'step control on, and a solution whose embedded error is largest in the last interior cell',
     'the step-size controller ignores the error of the last interior cell: a trial step is accepted although its relative error there is above one',
     PROBE + r'''
fn rate(j: usize, i: usize, s: usize) -> f64 { if j == 0 && i == s - 3 { 30.0 } else { 0.0 } }
const S: usize = 12;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: RKFMode::RKF12, asc: true, asc_relative_tolerance: 1e-3, asc_absolute_tolerance: 1e-3, asc_timestep_friction: 0.08 });
    let (mut u, mut s, m, _) = c.init_corries::<P, Given, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    s.timestep.t_next_output = 1.0;
    s.next_solution(&mut u, &m).unwrap();
    // the relative error of a step is far above the tolerance for every step wider than 0.01
    println!("accepted dt = {}", s.timestep.dt);
    assert!(s.timestep.dt < 0.05, "accepted a step of width {} with a large error in the last interior cell", s.timestep.dt);
}
''')
seed('C05-kepler-order', 'C05', [('src/boundaryconditions/custom.rs', '''    for i in (0..=1).rev() {
        vars.prim[[j, i]] = vars.prim[[j, i + 1]] / (mesh.xi_cent[i] * mesh.xi_cent_inv[i + 1]).sqrt();
    }
}

fn extrapolate_etavel_kepler_east''', '''    for i in 0..=1 {
        vars.prim[[j, i]] = vars.prim[[j, i + 1]] / (mesh.xi_cent[i] * mesh.xi_cent_inv[i + 1]).sqrt();
    }
}

fn extrapolate_etavel_kepler_east''')],
     'Kepler velocity condition at the west end applied to a state whose ghost cells hold values from before',
     'the outer ghost cell is computed from the stale value of the inner ghost cell instead of the one just set',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.boundary_condition_west = BoundaryMode::Custom(vec![(0, CustomBoundaryMode::NoGradients), (1, CustomBoundaryMode::ExtrapolateEtaVelocityKepler)]);
    let (mut u, mut s, m, _) = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    u.cent.prim.row_mut(1).fill(2.0);
    u.update_vars_from_prim(&mut s.rhs.boundary_west, &mut s.rhs.boundary_east, &m);
    let x = 2.0 / (m.xi_cent[1] / m.xi_cent[2]).sqrt();
    let y = x / (m.xi_cent[0] / m.xi_cent[1]).sqrt();
    assert!((u.cent.prim[[1, 1]] - x).abs() < 1e-12 && (u.cent.prim[[1, 0]] - y).abs() < 1e-12, "ghost cells {} {} expected {} {}", u.cent.prim[[1, 0]], u.cent.prim[[1, 1]], y, x);
}
''')
seed('C19-csound', 'C19', [('src/state/variables.rs', """        self.c_sound.assign(&rhs.c_sound);
""", """        if self.c_sound.sum() == 0.0 {
            self.c_sound.assign(&rhs.c_sound);
        }
""")],
     'assigning to a state whose sound speeds were set before',
     'the speed of sound is copied only into states that have none yet, so every later assignment keeps a stale speed of sound',
     r'''
use corries::prelude::*;
const S: usize = 8;
fn main() {
    let mut a = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    let mut b = State::<Euler1DIsot<S>, 2, S>::new(&PhysicsConfig::default());
    a.cent.c_sound.fill(1.0);
    b.cent.c_sound.fill(2.0);
    a.assign(&b);
    assert_eq!(a.cent.c_sound, b.cent.c_sound);
}
''')
seed('C15-iter-limit', 'C15', [('src/solver.rs', 'self.timestep.iter >= self.timestep.iter_max', 'self.timestep.iter > self.timestep.iter_max')],
     'a run that reaches the configured iteration limit',
     'the solver performs iter_max + 1 steps before it reports that the iteration limit was reached',
     r'''
use corries::prelude::*;
const S: usize = 10;
type P = Euler1DIsot<S>;
type T = RungeKuttaFehlberg<P, 2, S>;
fn main() {
    let mut c = CorriesConfig::default_riemann_test::<Hll<2, S>, 2, S>(1.0, "a", "b");
    c.writer_config.clear();
    c.numerics_config.iter_max = 3;
    c.numerics_config.dt_max = 1e-3;
    let mut x = c.init_corries::<P, Hll<2, S>, T, 2, S>(|u, _, _| { u.cent.prim.fill(1.0); u.cent.c_sound.fill(1.0); Ok(()) }).unwrap();
    assert!(x.run_corries().is_err());
    assert_eq!(x.1.timestep.iter, 3);
}
''')
