#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as source so that wording stays in one place)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
SIM = "src/simulator/simulation.py"; FL = "src/simulator/fluid.py"; WELL = "src/simulator/well.py"
RES = "src/simulator/reservoir.py"; PVT = "src/simulator/pvt.py"; GEN = "src/simulator/pvt_generator.py"
AMG = "src/solver/classical_amg.py"; PAMG = "src/solver/pressure_amg.py"; ENV = "src/rl_env.py"
UT = "src/utils.py"; VTK = "src/output/vtk_writer.py"; PLOT = "src/plotting/plotter.py"; MAIN = "src/main.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

prop("C01", "Saturations stay physical after every IMPES step",
 "Starting from saturations within their physical limits (water at or above connate, gas at or above critical, oil at or above residual), every completed IMPES step, whatever the pressures, wells, rates and step length, leaves every cell with water, gas and oil saturations that are again within those limits. In every cell the three saturations add up to one.",
 ["inputs", "histories"], "all admissible states of small grids, all new pressure fields, all rates/BHPs and step lengths in stated ranges; one inductive step covers histories of any length",
 "The smoke tests check the bounds on three runs with one fluid and one schedule; the bound must survive every pressure field, rate, phase and step length.",
 [SIM], [("sub-stepped saturation update with per-phase windows", SIM + ":_impes_saturation_step")], ["fluid.s_w, s_g, s_o after a step"])

prop("C02", "Transport conserves phase volume and honours well volumes",
 "In an IMPES step on a closed grid in which no cell reaches a saturation limit, the total pore volume of water (and of gas) on the grid changes by exactly the volume the wells put in or took out over the step; without wells it does not change at all. What leaves one cell through a face enters the neighbouring cell, in every direction.",
 ["inputs"], "all states, pressure fields, porosities and well rates on small 1D/2D/3D grids",
 "Tests compare one global mass number on one grid with a loose tolerance, so an unbalanced face or a scaled source passes.",
 [SIM], [("explicit flux divergence and well sources", SIM + ":_impes_saturation_step")])

prop("C03", "Each phase flows down its potential and only from where it is mobile",
 "Between two neighbouring cells water and gas each flow from the cell with the higher phase potential (pressure, plus gravity for vertical neighbours, plus gas-oil capillary pressure for gas) to the lower, and the flow is proportional to the mobility of the phase in the cell it leaves. A phase that is immobile in the cell it would leave does not flow, and if all phase potentials are equal nothing moves.",
 ["inputs"], "all pressures, saturations, densities and capillary scales on two-cell and three-cell grids in every direction",
 "Tests never look at the direction or size of a single flux, and only run one flow configuration.",
 [SIM, FL], [("upstream mobilities and phase potentials", SIM + ":_impes_saturation_step")])

prop("C04", "The IMPES pressure matrix is a symmetric positive M-matrix on the grid graph",
 "The pressure system assembled for an IMPES step has a symmetric matrix whose off-diagonal entries are zero or negative and couple exactly the face-neighbouring cells. Each row sum equals the cell's fluid-storage coefficient (pore volume times total compressibility over step length) plus the productivity term of any pressure-controlled well in that cell, and is therefore positive, given volume factors that do not rise with pressure.",
 ["inputs", "configurations"], "all states, mobilities, anisotropic permeabilities, grid shapes up to 12 cells, well sets and step lengths",
 "No test inspects the assembled system; only final pressures of a few runs are compared.",
 [SIM], [("pressure matrix assembly", SIM + ":_build_pressure_matrix_vectorized"), ("well terms", SIM + ":_calculate_well_terms")])

prop("C05", "The pressure equation conserves total volume and has the right equilibria",
 "Summed over all cells, the pressure equation states that fluid expansion equals net reservoir injection: internal flows, gravity and capillary terms cancel. With no wells, no gravity (single layer) and no capillary pressure a uniform pressure field is an exact solution of the step; a vertical column with a single mobile phase at hydrostatic equilibrium (evaluated with the densities the step uses) stays at rest.",
 ["inputs"], "all uniform and non-uniform pressure fields, saturations, capillary scales, porosities and step lengths on small grids",
 "Tests check one near-uniform run with a loose tolerance; a sign slip in gravity or capillary assembly goes unseen.",
 [SIM], [("right-hand side assembly", SIM + ":_build_pressure_rhs")])

prop("C06", "Face transmissibilities are harmonic means scaled by face geometry",
 "For every pair of neighbouring cells the conductance used by the IMPES scheme equals the harmonic mean of the two cells' permeabilities in that direction times face area divided by cell length in that direction, whatever the permeabilities (including very tight or impermeable cells) and cell sizes. A sealed cell (zero permeability) conducts nothing, and swapping the two cells changes nothing.",
 ["inputs", "configurations"], "all permeabilities from 0 to 100 D per cell and direction and all cell sizes, small grids",
 "All tests use homogeneous permeability around 100 mD and cubic-ish cells, so averaging and geometry mistakes cannot show.",
 [SIM, RES], [("transmissibility set-up", SIM + ":__init__")])

prop("C07", "A pressure solve reported as converged really solves the system",
 "When the iterative pressure solver reports success, the returned vector satisfies the linear system to the requested tolerance in the residual norm the solver uses; when it does not meet the tolerance within its iteration budget it reports failure, and one retry with a tenfold tolerance and four times the budget may follow. The multigrid pressure solver, when it reports success for the step, returns a vector with a small relative residual too (measured after its diagonal scaling where it applies one), also for systems small enough to need no coarse level.",
 ["inputs", "configurations"], "all symmetric positive systems of small size, all right-hand sides, tolerances and iteration caps",
 "Tests compare fields on one or two well-conditioned systems; the verdict flag and the small-system path are never examined.",
 [SIM, PAMG, AMG], [("CG", SIM + ":_solve_pressure_cg_pytorch"), ("AMG entry", PAMG + ":amg_solve")])

prop("C08", "A time step is all or nothing",
 "A step that reports success has advanced the state with a pressure solution the linear solver accepted, over the time step it was asked for or, after a solver failure, one reduced by the configured factor, retrying at most the configured number of attempts. A step that reports failure leaves pressures, saturations and balances exactly as they were before the step.",
 ["fault_sequences", "inputs"], "all sequences of solver outcomes (success/failure per attempt), attempt limits and reduction factors",
 "Tests never make the solver fail, so the retry and rollback path is untested.",
 [SIM], [("adaptive step loop", SIM + ":_impes_step"), ("solver retry", SIM + ":_impes_pressure_step")])

prop("C09", "Relative permeabilities obey the physical curve laws",
 "Water, oil and gas relative permeabilities always lie between 0 and 1 (and their stated end points), water's never decreases with water saturation, gas's never decreases with gas saturation, and oil's never increases with either; water and gas follow the configured Corey power of their normalised saturation. Water is immobile at or below connate saturation and oil is immobile at or above its water-flood residual limit in two-phase conditions; the three-phase oil curve reduces to the two-phase oil-water curve when gas is absent.",
 ["inputs", "configurations"], "all saturations, end points, residual saturations and integer Corey exponents 1..4, both models",
 "Tests sample a handful of saturations with one set of end points.",
 [FL], [("Corey and Stone II curves", FL + ":calc_oil_kr, calc_water_kr, calc_gas_kr")])

prop("C10", "Analytic derivatives match the curves they differentiate",
 "Every derivative the fluid model publishes (relative permeabilities and both capillary pressures with respect to their saturation) equals the true derivative of the corresponding published curve at every interior saturation. The masked relative-permeability derivatives are zero where the curve is clipped flat (water at or below connate, oil at or above residual), and the capillary derivatives are zero beyond the upper end of their curve.",
 ["inputs", "configurations"], "all interior saturations, residual saturations, scales and exponents",
 "No test evaluates a derivative.",
 [FL], [("curve derivatives", FL + ":calc_dkrw_dsw, calc_dkro_dsw, calc_dkrg_dsg, get_*_derivative")])

prop("C11", "PVT tables are interpolated faithfully and malformed tables are rejected",
 "A property read from a PVT table equals the tabulated value at every table pressure, is the straight line between neighbouring entries in between, and equals the end value outside the table; every property comes from its own column. A table whose columns differ in length or whose pressures are not strictly increasing is rejected when loaded, and a missing vaporised-oil column means zero.",
 ["inputs", "configurations"], "all tables of up to four rows and all query pressures",
 "Tests load one generated table and query a few pressures.",
 [PVT, FL], [("loader and interpolation", PVT + ":PVTTable")])

prop("C12", "Generated PVT tables are always admissible and loadable",
 "For every admissible choice of pressure range, point count, bubble point, oil and gas gravity, the table generator produces strictly increasing pressures spanning the requested range with one row per requested point, strictly positive formation volume factors and viscosities, non-negative ratios, dissolved gas that never decreases with pressure and is constant above the bubble point, oil, water and gas volume factors that never increase with pressure, water and gas viscosities and vaporised oil that never decrease, and an oil viscosity that falls up to the bubble point and rises above it. The table loads back to the generated values.",
 ["inputs", "configurations"], "all parameter values in stated ranges with up to four points",
 "Tests generate tables with one parameter set.",
 [GEN, PVT], [("generator", GEN + ":generate_black_oil_pvt")])

prop("C13", "Densities are positive, pressure-consistent and agree everywhere",
 "Reservoir densities equal the surface mass carried by a unit of reservoir volume: surface density over volume factor for water, plus dissolved gas for oil and vaporised oil for gas when a PVT table is used, and the linear compressibility law otherwise. The density evaluated at the current pressure is the same whichever interface it is read from, is positive, and without a table never decreases with pressure.",
 ["inputs", "configurations"], "all pressures, tables values, reference densities and compressibilities",
 "Tests check one gas density at one pressure.",
 [FL], [("density laws", FL + ":rho_w, rho_o, rho_g, calc_*_density")])

prop("C14", "Rate-controlled wells deliver their target unless a limit stops them",
 "A rate-controlled well delivers, in reservoir or in surface terms as configured (using formation volume factors, solution gas and vaporised oil), exactly its target over the step unless a cell saturation window or a configured surface-phase limit forces less; it never delivers more than the target or than any limit, never with the wrong sign, and is never cut back when neither applies. Phases are withdrawn in proportion to their mobilities, and reported surface rates correspond to the reservoir volumes actually withdrawn.",
 ["inputs", "configurations"], "all cell states, PVT values, targets, surface phases, limit sets and step lengths",
 "Tests cover four fixed wells with a loose relation to the target.",
 [SIM], [("well source terms", SIM + ":_impes_saturation_step")])

prop("C15", "A producer's minimum bottom-hole pressure is honoured",
 "A rate-controlled producer with a minimum bottom-hole pressure stays on rate control exactly when the bottom-hole pressure needed to deliver the rate is at or above that minimum; otherwise its pressure equation switches to pressure control at the minimum for that step. Injectors and wells without a minimum never switch.",
 ["inputs", "configurations"], "all block pressures, mobilities, rates, limits and cells",
 "One test checks one case with a minimum set absurdly high, which switches under almost any formula.",
 [SIM, WELL], [("auto switch", SIM + ":_calculate_well_terms")])

prop("C16", "The component balance books exactly what the wells actually exchanged",
 "In each step the surface oil and gas booked as produced or injected equal the surface-volume equivalents of the reservoir volumes the wells actually exchanged with the grid over that step, each counted once; injection is never booked as production or the reverse. The booked accumulation always equals total in minus total out.",
 ["inputs", "histories"], "all cell states, PVT values, well kinds, phases, rates and step lengths",
 "The only test checks that the balance figures are finite and roughly positive.",
 [SIM], [("component balance", SIM + ":_impes_saturation_step")])

prop("C17", "The mass balance matches the change of mass in place",
 "For each phase the booked mass in minus mass out over a step equals the change in saturation summed over cells, weighted by pore volume and reservoir density at the new pressure; in and out are both non-negative and only ever grow. Cell gains are booked as in and losses as out.",
 ["inputs", "histories"], "all states and saturation changes on small grids, several steps",
 "Tests check one run's total with a loose tolerance.",
 [SIM], [("mass balance", SIM + ":_impes_saturation_step")])

prop("C18", "Multigrid coarsening and interpolation are well formed",
 "For every M-matrix the multigrid set-up marks every unknown as coarse or fine with at least one coarse unknown, an unknown with strictly more strong couplings than all its neighbours is coarse and they are fine, and every fine unknown with a strong coupling interpolates from at least one coarse unknown. Interpolation weights are non-negative, each row sums to one, coarse unknowns are injected unchanged, and strong couplings are exactly the negative off-diagonals at or above the threshold fraction of the row's strongest.",
 ["inputs", "configurations"], "all couplings of small M-matrix graphs (up to 5 unknowns), thresholds and tie-breakers",
 "The AMG test looks at the convergence of one Laplacian.",
 [AMG], [("strength, coarsening, interpolation", AMG + ":find_strong_connections, classical_coarsening, build_prolongation_rs_full")])

prop("C19", "Sparse products and coarse operators are exact",
 "The sparse matrix product used to build coarse levels equals the mathematical product for every pair of compatible sparse matrices, including empty rows and any internal blocking of rows. The coarse operator equals the Galerkin triple product of the interpolation with the fine operator, and is symmetric when the fine one is.",
 ["inputs", "configurations"], "all values on all sparsity patterns of small matrices, all block sizes",
 "No test multiplies sparse matrices; one run's convergence would survive small errors.",
 [AMG], [("sparse product", AMG + ":_csr_spmm, rap_torch")])

prop("C20", "The exact solution is a fixed point of the multigrid cycle",
 "If the current iterate already solves the multigrid system, a cycle leaves it unchanged, and the cycle is a linear map of iterate and right-hand side; reported residuals are those of the returned solution. Refreshing the solver with a new matrix of the same pattern keeps the interpolation and gives the Galerkin coarse operators and smoothers of the new matrix.",
 ["inputs", "configurations"], "all small symmetric systems and right-hand sides, with and without a coarse level",
 "Tests measure the convergence factor on one system.",
 [AMG, PAMG], [("V-cycle", AMG + ":ClassicalAMG._v_cycle, solve")])

prop("C21", "Every component agrees on which cell an (i, j, k) coordinate means",
 "For every grid shape the linear number that the reservoir, the wells and the simulator give to a cell coordinate is the position of that cell in the flattened field arrays, conversion back and forth is the identity, distinct cells have distinct numbers, and all numbers lie within the grid. A well configured at a coordinate acts on that cell and on no other, and one outside the grid acts on none.",
 ["inputs", "configurations"], "all coordinates on all grid shapes up to 6x6x6 (symbolic), wells on small grids",
 "Tests use one layout where several numbering mistakes coincide or are never read.",
 [SIM, WELL, RES], [("index conversions", SIM + ":_ijk_to_idx, _idx_to_ijk; " + WELL + ":cell_index_flat; " + RES + ":get_cell_indices")])

prop("C22", "Configuration is read in the documented units and formats",
 "Every configured quantity reaches the model in SI units with the documented factor (MPa, cP, mD, 1/MPa), defaults apply exactly when a key is absent, and initial fields equal the configured values in every cell. Both documented well formats produce identical wells, wells keep their configured order and controls, and invalid wells or saturations summing above one are rejected.",
 ["configurations"], "all numeric values of all keys and presence/absence of optional keys",
 "Tests use a few fixed configurations and never check unit factors.",
 [RES, FL, WELL], [("constructors", RES + ":Reservoir; " + FL + ":Fluid; " + WELL + ":WellManager")])

prop("C23", "The RL environment follows its step, reset and reward contract",
 "An action a in [-1, 1] multiplies each rate control by 1+0.2a and shifts each pressure control by 5a MPa, in the well order, and each step advances the simulation by the configured step. The reward is the decrease in oil mass in place since the previous observation point in thousands of tonnes (so rewards telescope), a failed step ends the episode with the penalty, episodes end exactly at the step limit, the observation is normalised pressure followed by water saturation of every cell, and a reset restores the initial state.",
 ["inputs", "histories"], "all actions in range, all simulation outcomes per step, episodes of up to three steps",
 "No test uses the environment.",
 [ENV], [("gym API", ENV + ":ReservoirEnv")])

prop("C24", "A run executes every step and its outputs describe the final state",
 "A run over a whole number of steps performs exactly total time over step length steps of the configured length (a failed fully implicit step is retried once at half length and a second failure ends the run), saves an intermediate picture with its own step number at exactly every configured interval shorter than the run, and its numeric output file holds the simulator's final fields, with summary figures computed from those fields. Animations play frames in step order whatever the digits in the names.",
 ["inputs", "configurations", "fault_sequences"], "all step and save-interval combinations up to stated counts, all field values, all orders of directory listing",
 "No test calls run or inspects outputs.",
 [SIM, UT], [("run loop and output", SIM + ":run, _create_animation; " + UT + ":create_animation")])

prop("C25", "Newton updates stay within their step and physical limits",
 "Whatever update vector the fully implicit linear solve proposes, applying it changes no cell pressure by more than the lesser of 10 percent and 2 MPa and no saturation by more than 0.1, moves each variable in the proposed direction, and leaves pressures between 0.1 and 100 MPa, water saturations between connate and one minus residual oil, and oil saturation as the complement. An update within the limits is applied in full, scaled by the line-search factor.",
 ["inputs"], "all states, update vectors and factors on small grids",
 "No test runs the fully implicit scheme.",
 [SIM], [("update limiter", SIM + ":_apply_newton_step")])

prop("C26", "A failed fully implicit step rolls back and is reported as failed",
 "When the Newton iteration does not converge on any attempt, the fully implicit step reports failure with pressures and saturations restored to what they were; it reports success only when an attempt converged (its residual within twenty times the tolerance), trying successively reduced step lengths up to the configured number of attempts.",
 ["fault_sequences"], "all sequences of Newton outcomes per attempt, attempt limits, reduction factors and trial states",
 "No test runs the fully implicit scheme, let alone makes it fail.",
 [SIM], [("attempt loop", SIM + ":_fully_implicit_step")])

prop("C27", "Fully implicit residuals conserve mass between cells",
 "In the fully implicit residual the flux terms of each face enter the two neighbouring cells with opposite signs, so that without wells the residuals summed over cells equal the change in mass in place of each phase, and a uniform resting state on a single layer has zero residual. The fast residual used by the line search equals the residual assembled for the Newton system, and both horizontal directions are treated alike.",
 ["inputs"], "all pressures, saturations, capillary scales and step lengths on small grids",
 "No test runs the fully implicit scheme.",
 [SIM], [("residual assembly", SIM + ":_compute_residual_fast, _assemble_residual_and_jacobian_batch")])

prop("C28", "VTK export carries the final fields cell by cell",
 "A VTK export gives every cell (or the grid point that stands for it) that cell's own pressure, saturations and permeabilities, in the documented units, on grid coordinates that are multiples of the cell size, for every grid shape. A run asked for VTK output writes one such file, of the state it ended in, under its name in its results folder.",
 ["inputs", "configurations"], "all field values on non-cubic grids up to 12 cells and all cell sizes",
 "No test exports anything; a mix-up of axes is invisible on the one-dimensional examples.",
 [VTK, SIM], [("rectilinear export", VTK + ":save_to_vtk"), ("structured export of a run", SIM + ":run, _save_to_vtk")])

prop("C29", "Pictures show the layer they name, x across and y up",
 "A field picture shows pressure in MPa, water saturation and, exactly when some cell holds gas (saturation above 1e-6), gas saturation, of one horizontal layer named in its titles: the one whose water saturation spreads most. Every value is drawn at its cell, x across and y upwards, and one picture is written under the requested name.",
 ["inputs", "configurations"], "all field values on grids up to 12 cells with one to three layers",
 "No test looks at a picture.",
 [PLOT], [("plotter", PLOT + ":Plotter.save_plots")])

prop("C30", "Every step computes finite numbers",
 "From any admissible state - cells at their saturation limits, sealed cells with zero permeability, immobile phases, idle wells with zero rate, residual saturations from zero until one percent of mobile range is left, every phase, control, limit and solver kind - a step divides by nothing that is zero and takes no root or power without a value. Pressures, saturations, mass books, the assembled pressure system, the fully implicit residual and Jacobian, relative permeabilities, densities and the iterative solutions of a linear system with a zero right-hand side or an exact start are therefore never NaN or infinite.",
 ["inputs", "configurations"], "all admissible states, permeabilities, rates and step lengths in stated ranges; all well kinds on a cell at each end of its saturation window",
 "Tests run ordinary states only; a 0/0 needs an immobile phase, a sealed cell or an idle well.",
 [SIM, FL, AMG], [("divisions guarded in transport, wells and assembly", SIM + ":_impes_pressure_step, _impes_saturation_step, _assemble_residual_and_jacobian_batch"), ("curves", FL + ":calc_kro, get_rel_perms"), ("iterations", SIM + ":_solve_pressure_cg_pytorch")])

prop("C31", "The command line runs the model its configuration describes",
 "Started with a configuration file, the program runs exactly once the model in that file: the reservoir, fluid, wells and simulation parameters the constructors build from its sections, with the solver it names, under its output name and VTK switch; absent optional keys mean an IMPES run named simulation_output without VTK. A file without its reservoir, fluid or wells section is not run. Switching diagnostic logging on, with any log path, changes no computed value.",
 ["configurations", "inputs"], "all values of the configuration in their physical ranges, all combinations of optional keys, diagnostics on and off",
 "Tests build the objects directly and never start the program.",
 [MAIN, SIM, FL, RES, WELL], [("entry point", MAIN + ":main, run_simulation"), ("diagnostics", SIM + ":__init__, _dbg")])

prop("C32", "Pressure answers wells in the right direction and stays between its neighbours",
 "The exact solution of the pressure system of an IMPES step (constant fluid properties, no capillary pressure, one layer) obeys the maximum principle: without wells every new pressure lies between the lowest and the highest old pressure; an injector never pushes any pressure below the lowest, a producer never lifts any above the highest, pressure-controlled wells keep all pressures within the old range extended by their bottom-hole pressures. Injecting more lowers no pressure and raises the one at the well.",
 ["inputs"], "all pressure fields, rates and bottom-hole pressures on small one-layer grids, every well position",
 "Tests compare final pressures of a few runs; a sign error hidden by a small coefficient stays within their tolerances.",
 [SIM], [("pressure system", SIM + ":_impes_pressure_step, _build_pressure_matrix_vectorized, _build_pressure_rhs, _calculate_well_terms")])

prop("C33", "A mirrored or turned model gives the mirrored or turned result",
 "Reversing a model along x or y, or exchanging its two horizontal directions (cell sides, directional permeabilities, porosities, state and well positions with it), gives the same pressure system, new saturations and pressures at the image of every cell, for closed models and for every kind of well, with or without capillary pressure and PVT tables. No direction is treated differently from the others.",
 ["inputs", "configurations"], "all states, new pressures and step lengths on small grids without exact potential ties",
 "Tests run models along one direction only and never compare two orientations.",
 [SIM, RES, WELL], [("directional terms", SIM + ":_impes_pressure_step, _impes_saturation_step, _build_pressure_matrix_vectorized, _build_pressure_rhs"), ("coordinates", WELL + ":Well")])

prop("C34", "The Newton matrix is the derivative of the residual",
 "For fixed density and porosity every entry of the fully implicit Jacobian is the derivative of its residual with respect to its unknown (two equations and two unknowns per cell, interleaved): face flow along each axis with and without capillary pressure and gravity, on whichever side each phase takes its mobility from, storage by saturation, and rate- and pressure-controlled wells. Entries between cells that share no face are zero.",
 ["inputs", "configurations"], "all pressures and step lengths away from upstream switches, both flow directions, listed saturations, on small grids",
 "No test runs the fully implicit scheme; a wrong derivative only slows or breaks its convergence.",
 [SIM], [("Jacobian assembly", SIM + ":_assemble_residual_and_jacobian_batch, _add_wells_to_system")])

with open(OUT, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
