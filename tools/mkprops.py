#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list; run by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'Primitive and conserved variables convert exactly into each other',
  'In every cell, ghost cells included, the conserved variables computed from the primitive ones are (rho, rho*v) plus, for adiabatic physics, the total energy p/(gamma-1) + rho*v^2/2, and the primitive variables computed from conserved ones (rho != 0) are the exact inverse of that map, so that a round trip in either direction returns the original values up to rounding. A conversion of the centred, west or east state changes only the target variables of that one state: not its source variables, sound speed, eigenvalues, fluxes or adiabatic index, and not the other two states.',
  ['inputs'], 'all finite cell values with nonzero density, all 1 < gamma < 2, all mesh sizes, both physics systems, all three state locations',
  'The unit tests convert a few proptest-sampled uniform states on one small mesh, and only assert closeness of the converted row, never the frame.',
  ['src/state/systems/euler1disot.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state.rs'],
  [('update_prim/update_cons', 'src/state/systems/*.rs'), ('cons_to_prim/prim_to_cons', 'src/state/systems/*.rs'), ('update_prim_d/update_cons_d', 'src/state.rs')],
  ['State::update_prim(_d)', 'State::update_cons(_d)'])
p('C02', 'Physical flux is the Euler flux of the cell it belongs to',
  'Updating the physical flux sets it, in every cell including ghost cells, to (rho*v, rho*v^2+p, (E+p)*v) for adiabatic physics and to (rho*v, rho*(v^2+c^2)) for isothermal physics, evaluated from the variables of that same cell and location (centred, west or east). Nothing but the flux of that location changes.',
  ['inputs'], 'all finite states whose primitive and conserved variables agree, all mesh sizes, both physics systems, all three locations',
  'Tests only compare a handful of uniform states; a mixed-up cell, sign, location or variable in non-uniform data is not sampled.',
  ['src/state/systems/euler1disot.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state.rs'],
  [('update_flux, calc_flux', 'src/state/systems/*.rs'), ('update_flux_d', 'src/state.rs')], ['State::update_flux(_d)'])
p('C03', 'Sound speed, eigenvalues and full updates are consistent in every cell',
  'For adiabatic physics the sound speed is sqrt(gamma*p/rho) in every cell, for isothermal physics no update ever changes the prescribed sound speed; the eigenvalues of every cell are v-c, v (if there is a third equation) and v+c in ascending order. After a full update, from primitive or from conserved variables, the ghost cells are filled by the west and then the east boundary condition first, and then conserved variables, sound speed and eigenvalues of every cell, ghost cells included, agree with its primitive variables.',
  ['inputs', 'configurations'], 'all finite states with positive density (and pressure), all mesh sizes, both systems, any boundary conditions',
  'Tests check uniform states cell by cell with one boundary condition; stale derived values in ghost cells or a wrong update order need non-uniform data.',
  ['src/state/physics.rs', 'src/state.rs', 'src/state/variables.rs'],
  [('update_c_sound/update_eigen_vals/update_derived_variables', 'src/state/physics.rs'), ('update_vars_from_prim/update_vars_from_cons', 'src/state/physics.rs'), ('eigen_min/eigen_max', 'src/state/variables.rs')],
  ['State::update_derived_variables', 'State::update_vars_from_prim', 'State::update_vars_from_cons'])
p('C04', 'The mesh covers the configured interval with uniform cells',
  'A Cartesian mesh with S cells has two ghost cells on either side and S-4 interior cells of equal width (xi_out-xi_in)/(S-4); interior cells tile [xi_in, xi_out] without gaps or overlap, every cell centre lies midway between its west and east face, the east face of a cell is the west face of the next, and ghost cells continue the same spacing. All derived geometry (inverse coordinates and widths, scale factors, areas, volumes, commutator coefficients) equals its defining formula in terms of these coordinates, and a mesh with any non-finite entry is rejected with an error.',
  ['inputs', 'configurations'], 'all xi_in < xi_out and all mesh sizes S >= 5',
  'Tests build one mesh size for a few intervals and check two or three of the about forty arrays.',
  ['src/mesh.rs'], [('Mesh::new', 'src/mesh.rs'), ('Validation for Mesh', 'src/mesh.rs')], ['Mesh::new', 'Mesh public fields'])
p('C05', 'Boundary conditions fill exactly their own ghost cells, as configured',
  'Applying a boundary condition changes only the primitive variables of the configured equations in the two ghost cells on its own side, in the configured order, and never any interior cell or any other variable. No-gradients copies the nearest interior value, reflecting mirrors the interior values with opposite sign, extrapolate continues the two nearest interior values linearly, near-zero sets 1e-10 times the nearest interior value, the Kepler conditions scale a value from cell to cell by the inverse square root of the ratio of the cell centres, and the outflow conditions reflect when the nearest interior value points into the domain (its sign bit decides, so a positive or +0 value at the west side, a negative or -0 value at the east side) and copy or extrapolate otherwise. A boundary configured as plain no-gradients applies this to every equation.',
  ['inputs', 'configurations'], 'all states, all mesh sizes S >= 6, all lists of (equation, mode) pairs on either side',
  'Unit tests check each mode on one fixed array and one side at a time; the frame, list order and sign corner cases are not sampled.',
  ['src/boundaryconditions.rs', 'src/boundaryconditions/custom.rs'],
  [('CustomBoundaryConditions::apply and the per-mode functions', 'src/boundaryconditions/custom.rs'), ('init_boundary_condition', 'src/boundaryconditions.rs')],
  ['Rhs::boundary_west', 'Rhs::boundary_east', 'State::update_vars_from_prim'])
p('C06', 'HLL interface fluxes equal the HLL formula and yield the flux difference',
  'For every interface between neighbouring cells from the last west ghost cell to the first east ghost cell, the HLL scheme uses wave speeds sl = min(0, smallest eigenvalue of both cells) and sr = max(0, largest eigenvalue of both cells) and the flux (sr*F_L - sl*F_R + sr*sl*(U_R-U_L))/(sr-sl). The resulting time derivative of each interior cell is the difference of its east and west interface fluxes divided by the cell volume, ghost-cell entries of the result stay as they were, and the conserved variables themselves are not changed.',
  ['inputs'], 'all finite states with positive density, pressure and sound speed, all mesh sizes, both systems',
  'The tests check that uniform states give zero and one hand-made state; almost every wrong sign or index leaves uniform states at zero.',
  ['src/rhs/numflux/hll.rs', 'src/rhs/numflux.rs'], [('Hll::calc_dflux_dxi', 'src/rhs/numflux/hll.rs'), ('calc_dflux_xi_generic', 'src/rhs/numflux.rs')],
  ['NumFlux::calc_dflux_dxi on Hll'])
p('C07', 'KT reconstruction and interface fluxes equal the Kurganov-Tadmor formula',
  'The KT scheme reconstructs the conserved variables at both faces of each cell linearly with the configured slope limiter, evaluates primitive variables, sound speed, eigenvalues and physical flux from these face values, and uses for the interface between cells i and i+1 the face states east(i) and west(i+1), a+ = max(0, largest eigenvalues), a- = min(0, smallest eigenvalues) and the flux area*(a+*F_east - a-*F_west + a+*a-*(U_west-U_east))/(a+ - a-). The resulting time derivative of each interior cell is the difference of its east and west interface fluxes divided by the cell volume, ghost-cell entries of the result stay as they were, and the centred variables are not changed.',
  ['inputs', 'configurations'], 'all finite states for which the reconstructed density and pressure are positive, all limiters, all mesh sizes, both systems',
  'The tests check uniform states and one hand-made state for one limiter.',
  ['src/rhs/numflux/kt.rs', 'src/rhs/numflux.rs', 'src/state.rs'], [('Kt::new, Kt::calc_dflux_dxi, Kt::reconstruct', 'src/rhs/numflux/kt.rs')],
  ['NumFlux::calc_dflux_dxi on Kt', 'State::west', 'State::east'])
p('C08', 'Slope limiters are the named limiters and create no new extrema',
  'With backward difference a, forward difference b and central difference c of a variable, the limited cell-to-cell slope is (a+b)/2 without limiter, minmod(a,b), superbee min(|a|,|b|,max(|a|,|b|)/2) with the common sign, the monotonised-central minmod(p*a,p*b,c), or van Leer (a|b|+b|a|)/(|a|+|b|); the last four vanish at local extrema and where either difference is zero. For MinMod, Superbee and VanLeer the reconstructed face values of a cell therefore never leave the range spanned by the cell and its neighbours, whatever the data, and the two face values of a cell always average to its cell value.',
  ['inputs', 'configurations'], 'all real differences a, b and all limiter parameters p > 1',
  'Tests exercise the default limiter on smooth or uniform data; sign cases, equal magnitudes and extrema of the others are never sampled.',
  ['src/rhs/numflux/kt.rs'], [('slope functions in Kt::reconstruct', 'src/rhs/numflux/kt.rs')], ['State::west.cons', 'State::east.cons after NumFlux::calc_dflux_dxi'])
p('C09', 'Interior totals change only through the fluxes at the two boundaries',
  'For every state, the volume-weighted sum over all interior cells of the time derivative produced by either flux scheme equals the numerical flux at the outer edge minus the one at the inner edge, up to rounding: interior interface fluxes are single-valued and cancel pairwise. Consequently a time step with any of the Runge-Kutta methods changes the total mass, momentum and energy of the interior only by the stage-weighted boundary fluxes times the step width.',
  ['inputs', 'configurations'], 'all finite states, all mesh sizes, both systems, both schemes and all limiters, all Runge-Kutta methods',
  'A sum over an arbitrary number of cells of arbitrary data is never formed by a test.',
  ['src/rhs/numflux.rs', 'src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs', 'src/time/rkf.rs'],
  [('calc_dflux_xi_generic', 'src/rhs/numflux.rs'), ('calc_rkf_solution', 'src/time/rkf.rs')], ['NumFlux::calc_dflux_dxi', 'TimeSolver::next_solution'])
p('C10', 'Every Runge-Kutta tableau has the order its name promises',
  'Each selectable Runge-Kutta method is explicit and consistent (weights sum to one) and its weights and coefficients satisfy the order conditions of the named method: order 1 for RK1, 2 for RK2 and Heun2, 3 for RK3 and SSPRK3, 4 for RK4, order 2 for RKF12 with an embedded first-order solution, order 5 for RKF45 with an embedded fourth-order solution, and order 3 with a fourth-order companion solution for the five-stage SSP method SSPRK5, within the 1e-5 to which its coefficients are rounded. Step-size control is available exactly for the methods with an embedded solution and is switched off for RK1, RK2 and RK4 even if requested.',
  ['configurations'], 'all nine methods, with and without step control',
  'Tests only run two methods on coarse shock tubes with loose tolerances; a wrong digit in a coefficient keeps them green.',
  ['src/time/rkf/butchertableau.rs'], [('ButcherTableau::new', 'src/time/rkf/butchertableau.rs')], ['TimeSolver::next_solution with a user-supplied NumFlux'])
p('C11', 'A time step is the textbook explicit Runge-Kutta step of the chosen method',
  'One step of width dt evaluates stage q at U - dt*sum_{p<q} a_qp k_p, where k_p is the flux-difference operator evaluated for stage p, and ends with U - dt*sum_q b_q k_q; stages start from the state at the beginning of the step and each stage is evaluated with ghost cells and derived variables updated for it. After the step all variables of the state are consistent with the new conserved variables, time has advanced by exactly dt and the iteration counter by exactly one.',
  ['inputs', 'configurations', 'histories'], 'all states, flux operators, step widths and methods, first step or any later one',
  'Tests compare whole shock tubes with loose error norms (an Euler step passed them), so the stage coupling is not settled by them.',
  ['src/time/rkf.rs', 'src/rhs.rs'], [('next_solution, calc_rkf_solution', 'src/time/rkf.rs'), ('Rhs::update', 'src/rhs.rs')], ['Solver::next_solution', 'TimeSolver::next_solution'])
p('C12', 'Adaptive step control rejects, shrinks and grows steps within its bounds',
  'With step control on, a trial step is accepted only if the largest relative difference between the two embedded solutions over all interior cells and equations, |u-u_low| / (rel_tol*|u+abs_tol|), is below one; otherwise it is repeated with a new width. A rejected width shrinks by at most a factor of four, an accepted one grows by at most a factor of four, and the step finally taken never exceeds the configured maximum width nor jumps past the next output time or the end time.',
  ['inputs', 'histories', 'configurations'], 'all states, tolerances, friction values and previous errors, any number of rejections',
  'No test turns step control on with a solution that forces rejections.',
  ['src/time/rkf.rs', 'src/time/timestep.rs'], [('step-width controller in calc_rkf_solution', 'src/time/rkf.rs'), ('acceptance loop in next_solution', 'src/time/rkf.rs'), ('cap_dt', 'src/time/timestep.rs')], ['TimeSolver::next_solution', 'TimeStep::dt'])
p('C13', 'Steps never exceed the configured limits and too small steps are errors',
  'Without step control every step width is the smallest of the CFL width, the configured maximum, the time left until the end and the time left until the next output (all non-zero times), so time never passes either of them. If the CFL width falls below the configured minimum, or is not finite, the step fails with an error and neither time nor the solution is advanced.',
  ['inputs', 'histories'], 'all times, next output times, maximum and minimum widths and CFL widths',
  'Tests check two or three hand-picked combinations of dt and output time.',
  ['src/time/timestep.rs', 'src/time/rkf.rs', 'src/state/physics.rs'], [('calc_dt_expl, cap_dt', 'src/time/timestep.rs'), ('next_solution', 'src/time/rkf.rs')], ['TimeStep::dt', 'TimeStep::t', 'Solver::next_solution'])
p('C14', 'Output happens at the start, at every output time and at the end',
  'A successful run writes exactly output_counter_max + 1 outputs: one at the initial time, one each time a multiple of (t_end-t0)/output_counter_max has been reached, and the last one at t_end, where the run stops (times are reached to within the configured minimum step width). Every output holds the data of the moment it is written (state, time, iteration), no step is taken after the end time, and no output is skipped or written twice.',
  ['histories', 'configurations', 'inputs'], 'all output counts >= 1, all start and end times and all sequences of step widths the solver may choose (minimum width well below the output interval)',
  'Integration tests use one output interval; accumulation of the schedule over many outputs and step sequences is not sampled.',
  ['src/components.rs', 'src/time/timestep.rs', 'src/writer.rs'], [('run_corries', 'src/components.rs'), ('TimeStep::new', 'src/time/timestep.rs')], ['Runner::run_corries', 'written files', 'Writer::output_counter'])
p('C15', 'A failing step or the iteration limit ends the run with an error and a dump',
  'If the iteration limit is reached, or a step fails for any reason, the run stops immediately, writes exactly one more output that is marked as an error dump and holds the state at the moment of the failure, and returns the error to the caller. A run that reports success never exceeded the iteration limit and never swallowed an error.',
  ['histories', 'fault_sequences', 'inputs'], 'all iteration limits and all points in a run at which a step may fail',
  'No test makes a step fail in the middle of a run.',
  ['src/components.rs', 'src/solver.rs'], [('error branch of run_corries', 'src/components.rs'), ('iteration check in next_solution', 'src/solver.rs')], ['Runner::run_corries', 'Solver::next_solution'])
p('C16', 'Configurations are accepted exactly when every parameter is admissible',
  'Validation accepts a configuration if and only if xi_in < xi_out, 1 < gamma < 2, a Monocent parameter exceeds 1, iter_max > 0, t0 >= 0, t_end > t0, the minimum and maximum step widths, the CFL number and the adaptive tolerances and friction are positive, file outputs name a folder and a file, and outputs in scalar mode contain no vector data; a NaN in any of these parameters is rejected. Initialising a simulation from a rejected configuration returns an error before anything is created or written.',
  ['inputs', 'configurations'], 'all values of all parameters including NaN and infinities, any number of outputs',
  'Tests sample some parameters with proptest one at a time; NaN and combinations across the nested parts are not covered.',
  ['src/config.rs', 'src/config/meshconfig.rs', 'src/config/physicsconfig.rs', 'src/config/numericsconfig.rs', 'src/config/outputconfig.rs', 'src/config/numericsconfig/numfluxconfig.rs', 'src/config/numericsconfig/timeintegrationconfig.rs', 'src/macros.rs'],
  [('Validation impls', 'src/config/**'), ('check_positive_double', 'src/macros.rs')], ['CorriesConfig::init_corries'])
p('C17', 'A non-finite or unphysical solution never passes for a successful step',
  'A time step reports success only if every primitive and conserved variable of every cell is finite and every density and, for adiabatic physics, every pressure is positive afterwards. Likewise non-finite wave speeds or fluxes inside a flux evaluation, a non-finite mesh, or a non-finite CFL step lead to an error instead of a result.',
  ['inputs', 'histories'], 'all states a step may start from or end in, NaN and infinities in any cell included',
  'Tests never drive the solver into NaN, vacuum or negative pressure.',
  ['src/state.rs', 'src/state/variables.rs', 'src/time/rkf.rs', 'src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs', 'src/macros.rs'],
  [('Validation impls and their call sites', 'src/state.rs, src/time/rkf.rs, src/rhs/numflux/*.rs'), ('check_finite_arrayd / check_positive_arrayd', 'src/macros.rs')], ['Solver::next_solution', 'NumFlux::calc_dflux_dxi', 'State validate'])
p('C18', 'Output files contain exactly the requested data in the requested form',
  'Every output writes, for each requested quantity in the requested order, the current value of that quantity: one line in scalar mode, one line per cell in vector mode, with or without ghost cells as configured, preceded by a header (once per file), with the configured precision and with the separators of TSV or CSV. Scalar output appends to one file that is started anew by each run, vector output goes to one file per output with a zero-padded counter starting at 0, and the metadata file holds the configuration; pre-existing contents of a file never survive.',
  ['inputs', 'configurations', 'histories'], 'all lists of quantities, formats, precisions, ghost-cell settings, file names and output counts, pre-existing files included',
  'Tests write one configuration and never read the files back.',
  ['src/writer.rs', 'src/writer/output.rs', 'src/writer/data.rs', 'src/mesh.rs', 'src/state/variables.rs', 'src/time/timestep.rs'],
  [('Output::new/update_data/write_output/write_into_stream/get_header', 'src/writer/output.rs'), ('Data::new, DataName', 'src/writer/data.rs'), ('collect_data', 'src/mesh.rs, src/state/variables.rs, src/time/timestep.rs')], ['files in the configured folder'])
p('C19', 'Copying a state copies its variables completely and leaves the source alone',
  'Assigning one state to another copies primitive variables, conserved variables and sound speed of every cell, and does so for the centred, west and east variables alike; assigning a single location touches only this location. Initialising the west and east states copies the centred one. The source of the copy never changes.',
  ['inputs'], 'all pairs of states, all mesh sizes, both systems', 'Tests check selected fields after single assignments.',
  ['src/state.rs', 'src/state/variables.rs'], [('State::assign/assign_vars(_d)/init_west_east', 'src/state.rs'), ('Variables::assign', 'src/state/variables.rs')], ['State::assign', 'State::init_west_east'])
p('C20', 'Initialisation delivers a consistent simulation that matches its configuration',
  'Initialising a simulation applies the user-supplied initial condition exactly once and then fills ghost cells, conserved variables, sound speeds and eigenvalues, and copies the result to the west and east states; the adiabatic index, start time, end time, limits, CFL number, output interval, flux scheme, limiter and time integrator are those of the configuration. An error of the initial condition, of the mesh or of any component is returned to the caller, as is a flux scheme that does not match the configured one.',
  ['inputs', 'configurations', 'fault_sequences'], 'all valid configurations, initial conditions and failing components',
  'Tests initialise a handful of configurations and look at few fields.',
  ['src/config.rs', 'src/solver.rs', 'src/rhs.rs', 'src/time/timestep.rs', 'src/state/variables.rs'], [('init_corries', 'src/config.rs'), ('Solver::new, Rhs::new, TimeStep::new, Variables::new', 'src/...')], ['CorriesConfig::init_corries'])
p('C21', 'Unit conversions are exact and invert each other',
  'In SI mode, conversions to SI leave a value unchanged and conversions to CGS multiply lengths by 100 and masses by 1000; in CGS mode conversions to SI multiply lengths by 0.01 and masses by 0.001 and conversions to CGS return the input up to rounding; times are never changed. For every value the result in CGS is therefore 100 (length) or 1000 (mass) times the result in SI.',
  ['inputs'], 'all finite values, both unit modes', 'There are no tests of the conversions.', ['src/units.rs'], [('Units::convert_*', 'src/units.rs')], ['Units::convert_*'])
p('C22', 'The built-in initial conditions set the documented states in every cell',
  'The Noh problem sets density 1 everywhere, velocity +1 in the first half of all cells (indices below floor(S/2)) and -1 in the rest, and pressure 1e-5 (adiabatic) or sound speed 1 (isothermal); the Sod problem sets (rho, v, p) = (1, 0, 1) in the first half and (0.125, 0, 0.1) in the rest. Sod is refused with an error for non-adiabatic physics, leaving the state unchanged, and neither touches other variables.',
  ['inputs', 'configurations'], 'all mesh sizes, even or odd, both systems, any prior contents of the state', 'Tests use one even mesh size.',
  ['src/initfuncs.rs'], [('init_noh, init_sod', 'src/initfuncs.rs')], ['initfuncs::init_noh', 'initfuncs::init_sod'])
p('C23', 'Default configurations are valid and describe what they claim',
  'The default Riemann-test configuration is accepted by validation for every end time > 0 and non-empty folder and file names, for both flux schemes and both physics systems, selects the flux scheme it was asked for (van Leer limited KT) and lists exactly the primitive variables that exist. The ready-made console and file output configurations contain exactly the given quantities and names.',
  ['inputs', 'configurations'], 'all end times, folder and file names, flux schemes, numbers of equations and lists of quantities', 'Tests use the defaults with single values.',
  ['src/config.rs', 'src/config/meshconfig.rs', 'src/config/numericsconfig.rs', 'src/config/outputconfig.rs', 'src/config/physicsconfig.rs'],
  [('default_riemann_test, default_stdout, default_file', 'src/config/**')], ['CorriesConfig::default_riemann_test'])
p('C24', 'The CFL step bounds how far any wave, left- or right-going, can travel',
  'The step width suggested by the CFL condition is c_cfl divided by the maximum over all cells of max(|v-c|,|v+c|)/cell width, so that within a step no characteristic of any cell travels further than c_cfl cell widths, in either direction. It is invariant under mirroring the flow and depends on every cell.',
  ['inputs'], 'all finite states, all mesh sizes and widths, all positive CFL numbers', 'Tests only sample positive velocities on a uniform state.',
  ['src/state.rs', 'src/state/physics.rs'], [('State::calc_dt_cfl', 'src/state.rs'), ('Physics::calc_dt_cfl', 'src/state/physics.rs')], ['State::calc_dt_cfl', 'TimeStep::dt'])
p('C25', 'Uniform flow stays uniform and the schemes are mirror symmetric',
  'For every uniform state the time derivative of both flux schemes is zero in every interior cell, up to rounding. Mirroring a state about the mesh centre (reversing the cells and the velocity) mirrors the result of both schemes: mass and energy derivatives are reversed, the momentum derivative is reversed with opposite sign.',
  ['inputs', 'configurations'], 'all uniform states; all finite states with positive density and pressure; all limiters, mesh sizes and both systems', 'Tests check zero derivatives for a few sampled uniform states and never mirror anything.',
  ['src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs', 'src/rhs/numflux.rs'], [('Hll::calc_dflux_dxi', 'src/rhs/numflux/hll.rs'), ('Kt::calc_dflux_dxi', 'src/rhs/numflux/kt.rs')], ['NumFlux::calc_dflux_dxi'])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
for x in P: assert len(x['title']) <= 80, x['title']
