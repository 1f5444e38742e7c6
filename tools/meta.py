PROPS = []
NA = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="A time step conserves mass, momentum, energy and passive scalars",
  statement="On a Cartesian grid without gravity, cooling or other source terms and without first-order flux correction, one step of the 1D, 2D or 3D CTU or van Leer integrator (hydro or MHD, adiabatic or isothermal, with or without passive scalars, with static mesh refinement compiled in or not, and the special-relativistic van Leer integrators) changes the mass, momentum, total energy and scalar content of each cell only by differences of interface fluxes, and the two cells sharing an interface receive exactly opposite amounts. Consequently with periodic boundaries the totals over the domain are unchanged up to round-off, for every initial state and grid size. In 1D the transverse magnetic fluxes are conserved in the same way.",
  over=["inputs", "configurations"], quant="every cell state, grid size (>=4 zones per active direction), time step, and integrator/physics configuration listed",
  why="The regression tests run fixed problems and only look at the exit status; a flux applied with a wrong sign, index or factor at some interface in some configuration still exits 0.",
  files=["src/integrators/integrate_1d_ctu.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_1d_vl.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c"],
  mech=[("final flux-difference update of the conserved variables", "src/integrators/integrate_3d_ctu.c: integrate_3d_ctu, last update loops")],
  note="All obligations generated from the integrator source; fluxes() and lr_states() by contract (arbitrary values); exact real arithmetic.")
P(id="C02", title="Constrained transport keeps div B of every cell unchanged",
  statement="On a Cartesian grid one step of the 2D or 3D MHD CTU or van Leer integrator (adiabatic or isothermal, Newtonian or special-relativistic van Leer, no first-order flux correction) leaves the discrete divergence of the interface magnetic field of every active cell unchanged, so an initially divergence-free field stays divergence-free to round-off. After the step the cell-centred field equals the average of the two interface values in every active direction. In 1D the longitudinal field is unchanged.",
  over=["inputs", "configurations"], quant="every field, state, grid size (>=4 zones per active direction) and time step, in every listed configuration",
  why="No test evaluates div B; an EMF with a wrong index, a missing last face, or a wrong sign in one component leaves the run completing normally.",
  files=["src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c"],
  mech=[("CT update of B1i/B2i/B3i from corner EMFs incl. the last faces", "src/integrators/integrate_3d_ctu.c: integrate_3d_ctu"), ("corner EMFs", "integrate_emf1_corner/2/3")],
  note="All obligations generated from the integrator source; fluxes() and lr_states() by contract (arbitrary values); exact real arithmetic.")
P(id="C03", title="Conserved and primitive variables convert exactly into each other",
  statement="For every gas configuration the conversion from primitive to conserved variables yields the textbook definitions (momentum density, total energy including kinetic and magnetic parts, scalar density; the relativistic definitions when compiled for special relativity), and converting back returns the original state whenever the density is positive and the pressure is above the floor. The pressure returned by the Newtonian conversion is the larger of the exact value and the floor; the one-dimensional and three-dimensional forms agree, and the wave speed computed from either form of a state is its fast magnetosonic (or sound) speed.",
  over=["inputs", "configurations"], quant="every state with positive density, every adiabatic index > 1, hydro/MHD x adiabatic/isothermal x with/without scalars, and special relativity",
  why="Tests only run whole problems to completion; a wrong coefficient or a dropped field component in one configuration changes the numbers without stopping the run.",
  files=["src/convert_var.c"], mech=[("conversion functions", "src/convert_var.c: Cons_to_Prim, Prim_to_Cons, Prim1D_to_Cons1D, Cons1D_to_Prim1D, cfast")],
  note="Newtonian conversions and relativistic primitive-to-conserved proved for all states; the iterative relativistic inversion is bounded (random round trips on the compiled code); exact real arithmetic.")
P(id="C04", title="Riemann solvers are consistent, upwind, and carry scalars with the mass flux",
  statement="For every gas configuration and every Riemann solver, the flux between two equal states is the analytic flux of that state, and (for all solvers except the centred one) when both states and their average move supersonically to one side the flux is the analytic flux of the upstream state. The flux of a passive scalar is the mass flux times the concentration of one of the two sides (the upstream one for the two- and three-wave solvers), and the two-wave solver's flux is the weighted average of the two analytic fluxes with signal speeds bounding those of the end states and of the Roe-averaged state.",
  over=["inputs", "configurations"], quant="every pair of states with positive density and pressure, every normal field, for each solver x hydro/MHD x adiabatic/isothermal; relativistic solvers sampled",
  why="The tests run full problems and look at the exit status; an incorrect term in one flux component of one solver does not stop a run.",
  files=["src/rsolvers/roe.c", "src/rsolvers/hlle.c", "src/rsolvers/hllc.c", "src/rsolvers/hlld.c", "src/rsolvers/force.c", "src/rsolvers/exact.c", "src/rsolvers/two_shock.c", "src/rsolvers/hlle_sr.c", "src/rsolvers/hllc_sr.c", "src/rsolvers/hlld_sr.c"],
  mech=[("flux function of each solver", "src/rsolvers/*.c: fluxes")],
  note="Newtonian solvers proved by symbolic execution of the solver source (all states, exact reals); iterative exact solver and relativistic solvers bounded (random states on the compiled code).")
P(id="C05", title="Riemann solvers treat both directions and both transverse axes alike",
  statement="Reflecting the two states about the interface (exchanging them and reversing the normal velocity and normal field) gives the reflected flux, and exchanging the two transverse components of velocity and field, or reversing one of them, exchanges or reverses the corresponding flux components. The solvers that resolve contact waves return the upstream analytic flux for a moving contact discontinuity.",
  over=["inputs", "configurations"], quant="every pair of states and normal field, for each Riemann solver and gas configuration, including the relativistic solvers",
  why="No test compares a problem with its mirror image at the level of the solver; an asymmetric slip affects only flows with particular signs.",
  files=["src/rsolvers/roe.c", "src/rsolvers/hlle.c", "src/rsolvers/hllc.c", "src/rsolvers/hlld.c", "src/rsolvers/force.c", "src/rsolvers/exact.c", "src/rsolvers/two_shock.c", "src/rsolvers/hlle_sr.c", "src/rsolvers/hllc_sr.c", "src/rsolvers/hlld_sr.c"],
  mech=[("flux function of each solver", "src/rsolvers/*.c: fluxes"), ("wave-speed estimates", "src/rsolvers/esystem_roe.c and getMaxSignalSpeeds_*")],
  note="Exchange and reversal proved for the Newtonian solvers (except the iterative isothermal exact solver), reflection proved for the two-wave, three-wave, centred and (partly) two-shock solvers; the remaining reflection obligations, contact resolution and the relativistic solvers are bounded (sampled on the symbolic execution and on the compiled code).")
P(id="C06", title="Characteristic decompositions are exact eigensystems",
  statement="For every state the left and right eigenvector matrices used for reconstruction and by the Roe solver are inverses of each other, and in primitive variables the right eigenvectors and eigenvalues diagonalise the analytic flux Jacobian, with eigenvalues in ascending order. The Roe decomposition maps the jump of the conserved variables to the jump of the analytic fluxes (hydrodynamics: every pair of states; MHD: every component for equal densities).",
  over=["inputs", "configurations"], quant="every state (pair) with positive density and pressure, hydro/MHD x adiabatic/isothermal",
  why="Errors in an eigenvector entry only degrade accuracy or stability of some waves; runs still complete.",
  files=["src/rsolvers/esystem_roe.c", "src/reconstruction/esystem_prim.c"],
  mech=[("Roe eigensystems", "src/rsolvers/esystem_roe.c: esys_roe_*"), ("primitive eigensystems", "src/reconstruction/esystem_prim.c: esys_prim_*")],
  note="Hydro and the primitive MHD inverses proved for all states; MHD entries with nested square roots and the MHD Roe identities are bounded (sampled at 40 digits on the symbolic execution, and on the compiled code).")
P(id="C07", title="Reconstruction keeps uniform and linear data, never overshoots, is unbiased",
  statement="For every reconstruction order (piecewise constant, linear or parabolic, in characteristic or primitive variables) and gas configuration, a uniform state is reconstructed to itself, the first-order states are the adjacent cell averages, and at zero time step each reconstructed primitive-variable interface value lies between the adjacent cell averages while linear data are reproduced exactly. Mirroring the data about an interface exchanges and reflects the left and right states, the result does not depend on which coordinate direction is swept, and exchanging the two transverse components exchanges the results. For a small smooth disturbance the interface states carry exactly the average over the domain of dependence of the waves moving toward the interface (characteristic tracing), passive scalars included.",
  over=["inputs", "configurations"], quant="every cell state, sweep range and time step, in each reconstruction x gas configuration",
  why="A wrong limiter, index or wave speed only changes the accuracy of a run; all tests still complete.",
  files=["src/reconstruction/lr_states_dc.c", "src/reconstruction/lr_states_plm.c", "src/reconstruction/lr_states_ppm.c", "src/reconstruction/lr_states_prim2.c", "src/reconstruction/lr_states_prim3.c"],
  mech=[("reconstruction with characteristic tracing", "src/reconstruction/lr_states_*.c: lr_states")],
  note="Uniform states, locality, first order, bounds and primitive linear exactness proved for all states and sweep ranges where the source is within reach; parabolic-characteristic form, mirror symmetry of characteristic forms and the wave average are bounded (compiled code, random states).")
P(id="C08", title="Physical boundary conditions fill every ghost zone with the right image",
  statement="Applying the built-in boundary conditions on a single grid fills every ghost cell and ghost face, corners included, with the image prescribed by the chosen type in each direction: periodic copies from the opposite side, outflow copies the last active cell (interface fields: the value with the last active index), reflecting mirrors with the normal momentum and normal field reversed (normal field zero on the wall), and conducting mirrors with the normal momentum and tangential field reversed. All other variables including scalars are copied unchanged, active cells are not modified, and the input flags select the corresponding type at each of the six faces.",
  over=["inputs", "configurations"], quant="every state, grid size and combination of boundary types in 1D, 2D and 3D, hydro and MHD",
  why="Ghost-zone errors only perturb the solution near the boundary or in the corners; no test looks there.",
  files=["src/bvals_mhd.c"],
  mech=[("boundary functions and their order of application", "src/bvals_mhd.c: bvals_mhd, reflect_ix1 .. conduct_ox3"), ("selection by flag", "src/bvals_mhd.c: bvals_mhd_init")],
  note="Proved for every grid size with at least as many active as ghost zones, seven representative flag combinations per dimension; single grid per domain.")
P(id="C09", title="The time step obeys the Courant condition in every cell and ends at the limit",
  statement="The chosen time step never exceeds the Courant number times cell width over signal speed for any active cell, any active direction and any grid, where the signal speed is the flow speed plus the sound speed or (MHD) the fast speed along that axis computed with each field component's magnitude increased by its deviation from the lower interface value, the speed of light when compiled for special relativity, and particle speeds are included; in cylindrical coordinates the azimuthal width is radius times angle. On a single grid it is exactly the smallest such value, except that after the first step it at most doubles and the last step is shortened to end exactly at the time limit. Every grid receives the same step.",
  over=["inputs", "configurations"], quant="every state, grid size, previous step and remaining time; hydro/MHD x adiabatic/isothermal x 1D/2D/3D, relativity",
  why="A step slightly too large for some cell only destabilises some flows; tests see an exit status of 0.",
  files=["src/new_dt.c"], mech=[("maximum signal speeds and the step", "src/new_dt.c: new_dt")],
  note="Proved for a single grid and every grid size; refinement levels, particles and cylindrical coordinates by companion runs of the compiled code (bounded).")
P(id="C10", title="A step treats all axes, both directions along an axis and all cells alike",
  statement="For the CTU and van Leer integrators (hydro or MHD, any equation of state, with or without a static gravitational potential) relabelling the coordinate axes of the initial data, or mirroring the data along an axis, gives the relabelled or mirrored result of the step, and every cell is updated by the same rule as every other cell. Data that vary in fewer directions (MHD: with a divergence-free field) evolve as with the lower-dimensional integrator. A uniform state in a constant potential is left unchanged.",
  over=["inputs", "configurations"], quant="every state, potential, grid size (>=4 zones per active direction), time step; every integrator x hydro/MHD x equation of state",
  why="Tests never compare a problem with its mirror image or with the same problem along another axis; a slip in one direction's branch only changes the numbers.",
  files=["src/integrators/integrate_1d_ctu.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_1d_vl.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c"],
  mech=[("predictor, transverse corrections, source terms, EMFs and final update", "src/integrators/integrate_*.c: integrate_?d_ctu, integrate_?d_vl")],
  note="Relational contracts proved on canonical forms of the stored values, with fluxes() and lr_states() replaced by equivariant functional contracts (their own symmetries are C05 and C07); first-order flux correction, H-correction, relativity and part of the lower-dimension embedding by companion runs of the compiled code (bounded).")
P(id="C11", title="Gravity exchanges momentum and energy consistently with the potential",
  statement="For the CTU and van Leer integrators on a Cartesian grid with a static potential, gas energy plus density times potential changes only by differences of interface values (so its total is conserved with periodic boundaries), and a uniform gas in a uniform field falls freely: velocity changes by g dt with density, pressure and field unchanged. With self-gravity every momentum component changes only by differences of interface values, and where the potential is quadratic in position the force added is minus the density given by Poisson's equation times its gradient. After the correction with the newly solved potential the total of gas energy plus half density times potential is conserved and the momentum force is the average of the old and new potentials' forces.",
  over=["inputs", "configurations"], quant="every state, every potential, old and new, grid size and time step; CTU/VL x hydro/MHD x adiabatic/isothermal x 1D/2D/3D",
  why="A slip in one direction's source term produces a slow drift of the total energy or momentum; tests only see that the run ends.",
  files=["src/integrators/integrate_1d_ctu.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_1d_vl.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c", "src/gravity/selfg.c"],
  mech=[("gravitational source terms of a step", "src/integrators/integrate_*.c"), ("second-order flux correction with the new potential", "src/gravity/selfg.c: selfg_fc")],
  note="Proved for every grid size with arbitrary potential arrays (the Poisson solvers are not covered); companion runs of the compiled code on periodic grids (bounded).")
P(id="C12", title="Explicit diffusion is conservative, symmetric and has the right magnitude",
  statement="On Cartesian grids, one explicit update by viscosity changes only momentum and energy, by thermal conduction only energy, and by resistivity (Ohmic, Hall, ambipolar) only magnetic field and energy; every change is a difference of interface values, so totals on periodic grids, the divergence of B of every cell, and the agreement of cell-centred and interface field are kept. Uniform states do not change, every cell is treated alike, relabelling or mirroring the axes (Hall term excepted) gives the relabelled or mirrored result, and one- or two-dimensional data evolve the same on lower- and higher-dimensional grids. On low-order polynomial data the change equals the diffusion law exactly: isotropic and field-aligned (Braginskii) viscous stress, isotropic and field-aligned heat flux, and the electric field of the resistive terms.",
  over=["inputs", "configurations"], quant="every state, grid size and time step in 1D, 2D and 3D, hydro/MHD, adiabatic/isothermal, each diffusion process alone or with its anisotropic part; magnitudes for every linear/quadratic profile",
  why="The tests do not run most diffusion terms at all, and look only at the exit status; a wrong stencil index in one transverse gradient leaves a run that completes.",
  files=["src/microphysics/viscosity.c", "src/microphysics/conduction.c", "src/microphysics/resistivity.c", "src/microphysics/integrate_diffusion.c"],
  mech=[("viscous fluxes and update", "src/microphysics/viscosity.c: viscosity, ViscStress_iso, ViscStress_aniso"), ("heat fluxes", "src/microphysics/conduction.c: conduction, HeatFlux_iso, HeatFlux_aniso"), ("resistive EMFs and Poynting flux", "src/microphysics/resistivity.c: resistivity, EField_Ohm, EField_Hall, EField_AD, hyper-diffusion correction")],
  note="All obligations generated from the three source files (cell index, grid size and data symbolic); slope limiter by contract, its body proved against the contract; Hall magnitude to first order in dt; compiled companion runs are bounded.")
P(id="C13", title="Mesh refinement conserves totals, keeps div B zero and levels consistent",
  statement="On nested static meshes with periodic outer boundaries, a step followed by restriction and flux correction conserves the root-level totals of mass, momentum, energy, scalars and magnetic field, keeps div B zero on every level, keeps the cell-centred field equal to the face average, and leaves every coarse cell and face covered by a finer level equal to the mean of the finer ones. Ghost zones of finer levels are filled so that the fine values of density, momentum, scalars (and internal energy) average to the coarse value, the fine face field averages to the coarse face or equals the fine boundary face, and div B of every fine ghost cell is that of the coarse cell. The filling is exact for linear data, is limited (no new extrema along an axis), does not depend on how the axes are labelled, and a uniform state stays uniform.",
  over=["inputs", "configurations"], quant="prolongation operators: every state and cell shape, all gas configurations, all orders; whole-mesh statements: 1D-3D nested meshes of two and three levels, sibling and spanning domains, CTU, van Leer and relativistic van Leer, serial runs (bounded)",
  why="Tests only run refined problems to completion; a flux correction with the wrong sign or a ghost face overwritten changes totals and div B without stopping the run.",
  files=["src/smr.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c"],
  mech=[("prolongation operators", "src/smr.c: ProCon, ProFld, mcd_slope"), ("restriction and flux correction", "src/smr.c: RestrictCorrect"), ("ghost zones", "src/smr.c: Prolongate"), ("fluxes and EMFs kept at level boundaries", "src/integrators/*.c: STATIC_MESH_REFINEMENT blocks")],
  note="Prolongation operators proved for all inputs from their source; restriction, flux correction and the level-to-level exchange are bounded (compiled code on small nested meshes, smooth random data), not proved.")
P(id="C14", title="Dust particles trade momentum exactly, are never lost, move to second order",
  statement="In a serial run of the CTU integrator with particle feedback and periodic boundaries a step conserves the total momentum of gas plus dust; under periodic or reflecting boundaries no particle is lost, duplicated, changed in type or left outside the domain (outflow removes only particles beyond the ghost zones), each moves by the time step times the mean of its old and new velocity, and relabelling or mirroring axes, or dropping an axis along which nothing varies, leaves the result unchanged. For every interpolation scheme the gas seen by a particle is a weighted mean with weights adding up to one that reproduces linear variation exactly (the quadratic scheme also quadratic), and the drag on a particle is minus its velocity relative to that gas divided by a positive, finite stopping time. Each of the three particle integrators is second-order accurate in the time step for position- and velocity-dependent acceleration, also in the shearing box with and without orbital advection.",
  over=["inputs", "configurations"], quant="interpolation, deposition, drag law, forces and integrators: every position, velocity, stencil position, gas state, force field and step (proved); whole steps: small 1D-3D grids, all interpolations x integrators x boundaries x stopping-time laws, isothermal/adiabatic hydro and MHD, with and without feedback (bounded)",
  why="The tests run particle problems to completion only; a deposition with the wrong weight, a force term with the wrong factor or a particle dropped at a corner changes the numbers, not the exit status.",
  files=["src/particles/utils_particle.c", "src/particles/integrators_particle.c", "src/particles/bvals_particle.c", "src/particles/exchange.c", "src/particles/init_particle.c", "src/cc_pos.c", "src/integrators/integrate_1d_ctu.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c"],
  mech=[("interpolation and deposition", "src/particles/utils_particle.c: getwei_linear, getwei_TSC, getwei_QP, getvalues, distrFB_pred, distrFB_corr, get_gasinfo"), ("drag, forces, integrators, feedback", "src/particles/integrators_particle.c: Get_Drag, Get_Force, int_par_exp, int_par_semimp, int_par_fulimp, feedback_corrector"), ("boundaries", "src/particles/bvals_particle.c, exchange.c")],
  note="Interpolation, deposition, drag law, forces, feedback source and the defining equation of each integrator proved from the source for all inputs; whole steps, boundary exchange and bookkeeping bounded on the compiled code; energy exchange with the gas is not claimed.")
P(id="C15", title="Cylindrical grids conserve mass, angular momentum, energy and div B",
  statement="In cylindrical coordinates a step of the CTU or van Leer integrator without sources changes the volume-weighted mass, angular momentum, axial momentum, energy and scalars only through differences of interface values (their totals change only through the boundaries), leaves the divergence of B of every cell unchanged, and leaves the cell-centred radial field the radius-weighted mean of the two face values. Shifting or mirroring the data in azimuth or height, or dropping a direction along which nothing varies, gives the shifted, mirrored or reduced result. A uniform flow and field in a fixed Cartesian direction, and a rotating magnetised equilibrium, remain as they are up to second-order errors in the cell size.",
  over=["inputs", "configurations"], quant="every state, grid size and time step; CTU/van Leer x hydro/MHD x adiabatic/isothermal x 1D/2D/3D (conservation, div B: proved); symmetries, embedding and steadiness: random and analytic data on small grids (bounded)",
  why="Geometric factors enter every flux difference and EMF; a wrong radius in one of them leaves a run that completes, and the tests look only at the exit status.",
  files=["src/integrators/integrate_1d_ctu.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_1d_vl.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c", "src/reconstruction/lr_states_plm.c", "src/reconstruction/lr_states_ppm.c", "src/bvals_mhd.c"],
  mech=[("CYLINDRICAL blocks of the integrators", "src/integrators/integrate_*.c: integrate_?d_ctu, integrate_?d_vl"), ("reconstruction in radius", "src/reconstruction/lr_states_plm.c, lr_states_ppm.c: lr_states"), ("radii of cells and faces", "src/init_grid.c: init_grid")],
  note="Conservation, div B and field averages proved from the integrators' source for every grid size; symmetries, embedding, steadiness of uniform flow and of the rotating equilibrium are bounded (compiled code). Not covered: rotating frame, orbital advection in cylindrical coordinates.")
P(id="C16", title="A run continued from a restart file equals the uninterrupted run",
  statement="A run (Cartesian, serial; hydro or MHD, adiabatic, isothermal or relativistic, CTU or van Leer, with passive scalars, dust particles or static mesh refinement, any grid size) that is continued from the restart file written after any step ends with exactly the same number of steps, time, time step, gas state and interface fields on every level and problem-specific data as the run that was never interrupted (with dust particles: the same particles, up to rounding), and, where outputs are more than a step apart, writes the same later VTK files under the same names. Reading a restart file gives every active cell, every interface field value and the times of every grid their value from the file, and makes the cell-centred field the average of the interface values.",
  over=["inputs", "crash_points", "configurations"], quant="filling the arrays from the file: every grid size, 1D-3D, hydro/MHD x adiabatic/isothermal (proved); whole interrupted runs: interruption after every step of short runs on small grids, one grid larger than the write buffer, nested meshes, particles (bounded)",
  why="No test ever continues a run; a field written or read at the wrong place, a lost correction of a face array or a wrong output counter shows only when an interrupted run is compared with an uninterrupted one.",
  files=["src/restart.c", "src/main.c", "src/output.c", "src/par.c", "src/smr.c"],
  mech=[("reading", "src/restart.c: restart_grids"), ("writing", "src/restart.c: dump_restart"), ("output counters and times", "src/output.c: data_output, init_output"), ("program start after a restart", "src/main.c: main"), ("parameters in the file", "src/par.c: par_dump, par_open")],
  note="Reader proved for all grid sizes under a contract for fread() (well-formed file, items of a section in index order); writer, order of items, main loop, particles and output counters bounded: the compiled program interrupted after every step of short runs.")
P(id="C17", title="Output files hold the data of the run: averages, cell values, positions",
  statement="The history file of every level and domain holds the time, the time step and the volume averages over the whole domain of density, energy, momenta, kinetic and magnetic energies and passive scalars (in cylindrical coordinates weighted with the radius, and the angular momentum), whatever the number of dimensions and cells. VTK, binary and table dumps of conserved or primitive variables hold the value of every active cell, in order, with the right positions, sizes and time, in one file of its own name per level, domain and output number. Slices and averages of a single variable over ranges of coordinates hold, for every remaining cell, the mean over the cells the range touches.",
  over=["inputs", "configurations"], quant="history columns: every state, grid size, domain and cell shape, 1D-3D, hydro/MHD x adiabatic/isothermal x Cartesian/cylindrical (proved); contents and names of the other files: random states on small grids and nested meshes, all gas configurations (bounded)",
  why="The tests check that output files can be made, and compare errors of a few problems computed inside the program; nothing reads the dumps back, so a wrong weight, a missing component or a wrong file name goes unseen.",
  files=["src/dump_history.c", "src/dump_vtk.c", "src/dump_binary.c", "src/dump_tab.c", "src/output.c", "src/output_tab.c", "src/ath_files.c"],
  mech=[("history averages", "src/dump_history.c: dump_history"), ("whole-grid dumps", "src/dump_vtk.c: dump_vtk; src/dump_binary.c: dump_binary; src/dump_tab.c: dump_tab_cons, dump_tab_prim"), ("slices and averages of a variable", "src/output.c: OutData1, OutData2, OutData3"), ("file names", "src/ath_files.c: ath_fname; src/output.c: data_output")],
  note="History proved from the source for all grid sizes (sums kept as folds, file calls by contract); contents of VTK, binary and table files, slices and file names are bounded: written by the compiled program and read back.")
