"""Single source of properties.jsonl and MANIFEST.json.  Run: python3-vt /verif/tools/props.py"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=["fvhoe/" + f for f in files],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


SOL, ODE, BC, HY, RS, SL, SE, FV, ST, IC, AM, VI, SC, TI = (
    "solver.py", "ode.py", "boundary_conditions.py", "hydro.py", "riemann_solvers.py", "slope_limiting.py", "smooth_extrema_detection.py",
    "fv.py", "stencils.py", "initial_conditions.py", "array_management.py", "visualization.py", "scripting.py", "timer.py",
)

prop("C01", "Conservation in every cell and across every periodic seam",
     "On a periodic grid the rate of change of every conserved variable (density, momenta, energy, passive scalars) sums to zero over the cells: every interface flux that leaves one cell enters its neighbour unchanged, also across the periodic seam and also where fluxes have been replaced by the fallback scheme. With any boundary type the change of the total is exactly the flux through the domain boundary.",
     ["inputs", "configurations"], "every state, grid size, degree, dimension, Riemann solver, limiter setting, boundary type",
     "tests integrate a few smooth and square profiles and compare totals at loose tolerance on one grid each; flux replacement at the seam is not exercised with asymmetric trouble",
     [SOL, SL, BC], [("flux differencing", "solver.py euler_equation"), ("flux replacement", "solver.py revise_fluxes"), ("seam wrap of troubled interfaces", "slope_limiting.py broadcast_to_troubled_interfaces")],
     ["f(t, u)"])
prop("C02", "A uniform flow stays exactly uniform",
     "If density, velocity, pressure and every passive scalar are uniform, the computed rate of change of every variable is zero in every cell and no cell is flagged as troubled (unless trouble is forced), for every degree, dimension, Riemann solver, limiter setting, and for periodic, free, outflow, and matching prescribed boundaries.",
     ["inputs", "configurations"], "every uniform state and every configuration",
     "tests never start from a uniform state with arbitrary velocity; a constant that leaks in (wrong weight, uninitialised flux, wrong ghost value) needs all configurations",
     [SOL, FV, ST, BC, RS], [("stencil weights sum to one", "stencils.py"), ("ghost cells", "boundary_conditions.py apply"), ("Riemann consistency", "riemann_solvers.py")], ["f(t, u)"])
prop("C03", "Reconstructions and averages are exact to the chosen degree",
     "Cell averages of a polynomial of the chosen degree per axis are interpolated to face and centre values exactly, point values are averaged exactly, in every combination of axes and degrees; the numerical face fluxes used for the update are the Riemann fluxes of those reconstructed states, averaged over the face transversally to the same degree. Initial averages integrate the initial condition over each cell to the same degree.",
     ["inputs", "configurations"], "every polynomial up to the degree, every degree and axis combination",
     "tests check a few degrees on chosen polynomials with tolerances and one convergence table; a wrong high-degree weight or an axis given the wrong degree is not exercised",
     [FV, ST, SOL], [("stencil tables", "stencils.py"), ("interpolation and quadrature", "fv.py"), ("flux assembly", "solver.py hydrofluxes")], ["f(t, u)"])
prop("C04", "Integrators are consistent Runge-Kutta methods of their order",
     "One step of each integrator is a Runge-Kutta step satisfying all order conditions of its nominal order (1, 2, 3, 4), evaluates the right-hand side at the stage times that belong to its stages, uses one common step size for all stages (that of the first evaluation, shortened only to hit the requested time), and the SSP variants are convex combinations of forward-Euler steps. The automatic choice of integrator picks the order that matches the largest degree, up to four.",
     ["inputs", "configurations"], "every right-hand side, state, time, step size",
     "tests run one or two ODEs at loose tolerance and never with an explicitly time-dependent right-hand side",
     [ODE, SOL], [("steppers", "ode.py euler/ssprk2/ssprk3/rk4"), ("integrator choice", "solver.py run")], ["state after one step"])
prop("C05", "The coordinate directions are treated alike",
     "Relabelling the coordinate axes of a problem (cells, degrees, velocity components, domain, boundary types) relabels the result: rates of change, time step, and snapshots of the relabelled run are the relabelling of those of the original run, in one, two and three dimensions.",
     ["inputs", "configurations"], "every state, configuration and axis permutation",
     "tests compare x with y or z for one or two profiles of one solver; the per-axis code is triplicated",
     [SOL, BC, RS, SL, SE, FV], [("per-axis branches", "solver.py hydrofluxes, euler_equation"), ("per-axis boundary slabs", "boundary_conditions.py")], ["f(t, u)", "snapshots"])
prop("C06", "Mirror images evolve into mirror images",
     "Reflecting a problem along an axis (cell order reversed, that velocity component negated, left and right boundary types exchanged) reflects the result: rates of change, time step, troubled-cell flags and snapshots of the reflected run are the reflection of the original ones, for every Riemann solver and limiter.",
     ["inputs", "configurations"], "every state, configuration and axis",
     "one Sedov symmetry test on one grid; left/right code paths are written twice throughout",
     [SOL, BC, RS, SL, SE, FV, ST], [("left/right interpolation", "fv.py conservative_interpolation"), ("left/right branches", "smooth_extrema_detection.py, slope_limiting.py, riemann_solvers.py")], ["f(t, u)", "snapshots"])
prop("C07", "Ghost cells hold what the boundary type promises",
     "Padding a state leaves the interior untouched and does not modify the caller's array, and every ghost cell (edges and corners, any width) holds the value its boundary type defines: the periodic image, the nearest interior cell (free), the mirror cell (outflow), the mirror cell with the normal momentum negated (reflective), or the prescribed constant, initial-condition or user-function value evaluated at that ghost cell's own coordinates and at the time of the evaluation; the double-Mach wall is free left of x = 1/6 and reflective right of it. Unknown boundary types, malformed boundary specifications, prescribed values of the wrong type, and mirror images of more cells than the grid has are rejected.",
     ["inputs", "configurations"], "every state, ghost width, axis, side, combination of boundary types, time",
     "tests check a few 1-D patterns and one time-independent Dirichlet setup",
     [BC, SOL], [("ghost filling", "boundary_conditions.py apply"), ("slab coordinates", "fv.py fv_uniform_meshgen, boundary_conditions.py trim_slabs")], ["padded state", "f(t, u)"])
prop("C08", "Riemann solvers are consistent, upwinding and rotationally invariant",
     "Each Riemann solver returns the physical flux when both sides agree, and returns its documented two-state flux otherwise: LLF the central flux with dissipation of the larger signal speed, HLLC the pure upwind flux in supersonic flow and the star-state flux that keeps a stationary contact exactly steady and carries transverse velocity and passive scalars with the sign of the contact speed, upwinding the flux of the side the flow comes from. All of that holds identically in each direction and for any number of passive scalars.",
     ["inputs", "configurations"], "every pair of left and right states, gamma, floor, direction",
     "tests run shock tubes only through the whole solver with loose tolerance",
     [RS, HY], [("numerical fluxes", "riemann_solvers.py"), ("physical fluxes", "hydro.py compute_fluxes")], ["Riemann solver calls"])
prop("C09", "Primitive and conserved variables are exact inverses (ideal gas)",
     "Conversion between primitive (density, velocities, pressure, passive scalars) and conserved variables (density, momenta, total energy, density-weighted scalars) follows the ideal-gas law for the given gamma, in both directions, and each direction inverts the other; sound speed and physical fluxes are those of the Euler equations, with the sound speed bounded below by the given floor. Variable names select the documented rows in every conversion and the inputs are never modified.",
     ["inputs"], "every state with positive density, gamma > 1, any number of passive scalars",
     "tests round-trip random arrays with tolerance but never check the law itself for every component",
     [HY], [("conversions", "hydro.py compute_primitives, compute_conservatives"), ("fluxes and sound speed", "hydro.py compute_fluxes, compute_sound_speed"), ("variable selection", "hydro.py HydroState")], ["conversion calls"])
prop("C10", "Passive scalars are carried along and never feed back",
     "Passive scalars never influence density, momentum, energy, the time step or the troubled-cell flags, nor one another; a uniform scalar stays uniform (its density-weighted amount changes exactly in proportion to the density); and each scalar starts from its own initial function, whatever the number and order of scalars.",
     ["inputs", "configurations"], "every state, number and values of scalars, configuration",
     "tests advect one scalar equal to the density on one grid",
     [SOL, HY, RS, SL, IC], [("scalar rows", "hydro.py HydroState"), ("scalar fluxes", "riemann_solvers.py"), ("detector sees active variables only", "solver.py revise_fluxes")], ["f(t, u)", "snapshots"])
prop("C11", "The time step obeys the CFL bound everywhere",
     "Without a fixed step the step size is the CFL number times the smallest of the three cell widths divided by the largest signal speed sum (|vx|+|vy|+|vz| plus number of dimensions times the sound speed) over all cells of the domain; a fixed step is used as given; the advection step size is the CFL number times the cell width divided by the sum of the given speeds. Only steps shortened to hit a requested output or end time are smaller.",
     ["inputs", "configurations"], "every state, grid, CFL number, gamma, dimension",
     "tests only assert that runs stay stable",
     [HY, SOL, ODE], [("step size", "hydro.py hydro_dt"), ("where it is applied", "solver.py hydrofluxes"), ("shortening", "ode.py _hit_target")], ["f(t, u)"])
prop("C12", "The time loop reaches exactly the requested times and stops",
     "Integrating to an end time advances monotonically, ends exactly at the end time, hits every requested future output time exactly with exactly one snapshot there, in increasing order whatever order and repetition they were given in, ignores output times that are not ahead, and never steps backwards or by zero; integrating a number of steps takes exactly that many steps. Time, step counter and list of time stamps agree after every step, and a second call continues from the state and time the first one left.",
     ["inputs", "histories"], "every sequence of requested times, step sizes and repeated calls",
     "tests use two or three hand-picked lists of output times",
     [ODE], [("loop", "ode.py integrate"), ("step shortening", "ode.py _hit_target, take_step")], ["snapshot_times", "timestamps", "t", "step_count"])
prop("C13", "Snapshots record the state of their moment and never change afterwards",
     "Every snapshot holds the primitive variables computed from the state at its own time (cell averages or centre values as configured), the matching time, coordinates and limiter diagnostics, and the boundary ghost values used for it are those of that time. Later steps, later snapshots and changes of the solver's arrays never alter a snapshot already taken, and taking a snapshot never changes the simulation.",
     ["inputs", "histories"], "every state, configuration and later history",
     "tests read the last snapshot only",
     [SOL, AM], [("snapshot", "solver.py snapshot"), ("copy out", "array_management.py get_numpy")], ["snapshots"])
prop("C14", "Saved runs are never lost, mixed up or silently overwritten",
     "A run directed to a directory that already holds a saved run is loaded from there, unchanged and without integrating, unless overwriting was requested; nothing is deleted unless overwriting was requested and never anything outside that directory; writing stores exactly the snapshots of this run, and loading restores them with their times. Every legal configuration can be saved, scripted runs that differ in project name, end time, integrator, number of snapshots or a solver option are saved in distinct directories, and a saved run is reported as found only if it is there; with a summary directory each recorded snapshot is plotted (files named by the time to two decimals) into a directory of its own run.",
     ["configurations", "histories"], "every configuration, directory state and sequence of save/load/overwrite calls",
     "two tests save and reload one default configuration",
     [SOL, ODE, SC], [("save/load", "solver.py write_snapshots, read_snapshots"), ("decision", "ode.py integrate"), ("directory names", "scripting.py EulerSolver_wrapper")], ["file-system effects", "snapshots"])
prop("C15", "Troubled cells are exactly the cells the criteria name",
     "A cell is flagged exactly when its candidate value of some selected variable leaves the range of its neighbourhood by more than the tolerance (relative to the global or local range, or to the magnitude of its extreme values, as configured) and no smooth extremum of that variable is detected there, or when some bounded variable leaves its physical bounds; a cell with an out-of-bounds value is flagged whatever the other criteria say. The reported violation magnitudes are zero exactly in unflagged cells of that criterion and positive otherwise, and every option (mode, range type, variables, bounds, smooth-extremum detection, tolerances) means the same in every dimension.",
     ["inputs", "configurations"], "every previous and candidate state and every option combination",
     "tests run whole simulations and look at extrema; few options are exercised together",
     [SL, SE, SOL], [("criteria", "slope_limiting.py detect_troubled_cells"), ("smooth extrema", "smooth_extrema_detection.py")], ["trouble flags", "snapshots"])
prop("C16", "Fallback fluxes replace exactly the fluxes around troubled cells",
     "With a posteriori limiting, every face of a troubled cell carries the second-order slope-limited flux, faces away from any troubled cell keep the high-order flux, and blended faces (convex mode) carry a convex combination of both fluxes, with one weight in [0, 1] per face that never grows with the distance from the trouble and vanishes more than three cells away, including across periodic seams; no trouble anywhere gives exactly the unlimited scheme and trouble everywhere exactly the second-order limited scheme. The trouble reported for a step is the mean over its own substeps.",
     ["inputs", "configurations", "histories"], "every pattern of troubled cells, state, dimension, boundary type and step history",
     "tests look at maxima of limited runs; blending weights, seams and step means are not tested",
     [SL, SOL], [("flux replacement", "solver.py revise_fluxes"), ("interface flags", "slope_limiting.py broadcast_to_troubled_interfaces, convex_*"), ("bookkeeping", "solver.py log_troubles")], ["f(t, u)", "trouble"])
prop("C17", "Slope limiters never create new extrema",
     "The limited slope is zero at extrema and otherwise has the sign of the differences and the size of the smaller one (minmod) or of the smallest of twice either difference and the central one (moncen), so that it is symmetric in its arguments and both face values lie between the neighbouring cell values; smooth linear data are reconstructed exactly and unlimited reconstruction uses the central slope. This holds for each variable and axis independently and unknown limiters are rejected.",
     ["inputs"], "every triple of cell values",
     "tests never look at a limiter alone",
     [SL], [("limiters", "slope_limiting.py minmod, moncen, MUSCL_interpolations")], ["reconstructed faces", "f(t, u)"])
prop("C18", "Options take effect as documented and invalid ones are rejected",
     "Every constructor option reaches the computation it documents (floors, tolerances, bounds, modes, limiters, gamma, CFL, domain, degrees) and two settings that differ in one option yield the documented difference and nothing else; an unknown Riemann solver, limiter, detection mode, range type, variable name or inconsistent initial-condition setting is rejected with an error instead of running something else.",
     ["configurations"], "every option and value",
     "tests use default values of most options",
     [SOL, SL, HY], [("option plumbing", "solver.py __init__ and _init_*")], ["constructor", "f(t, u)"])
prop("C19", "The right-hand side depends on its arguments only",
     "Evaluating the right-hand side twice with the same time and state gives the same result, whatever was evaluated, stepped or recorded in between; it modifies neither its arguments, nor the solver's state or time, nor arrays returned by earlier calls. Cached tables and index objects are never modified after construction, and two solvers never share mutable state.",
     ["histories", "inputs"], "every history of evaluations, steps and snapshots before the call; every pair of solver instances",
     "tests construct a fresh solver per test and call it once",
     [SOL, BC, HY, ST, FV, AM], [("work arrays", "solver.py hydrodynamics"), ("caches", "hydro.py HydroState.__call__, stencils.py, fv.py lru_cache")], ["f(t, u)"])
prop("C20", "Mesh and initial averages represent the requested domain",
     "Cell centres are uniformly spaced inside the requested domain with half-cell margins on each axis, ghost-region coordinates continue the same lattice outwards, an axis with one cell and degree zero is inactive, and the initial state is the average of the initial condition over each cell (exact for polynomials to the chosen degree), whether the condition is given in primitive, conserved or already averaged form.",
     ["inputs", "configurations"], "every domain, number of cells, degree, form of initial condition",
     "tests build meshes for one or two sizes on the unit interval",
     [FV, SOL], [("mesh", "fv.py fv_uniform_meshgen"), ("initial state", "solver.py _init_initial_conditions, fv.py fv_average")], ["x, y, z", "initial state"])
prop("C21", "Library initial conditions are the documented states",
     "Each library initial condition returns, at every point, the documented density, velocity and pressure for its parameters: the documented regions and no others, velocity along the chosen direction only, values in the documented rows, dependence on the chosen coordinates only, positive density and pressure; evaluating one never modifies the coordinates or leaks state between calls, and an unknown direction or mode, a centre of the wrong length and an empty cube are rejected.",
     ["inputs", "configurations"], "every point and parameter value of every library initial condition",
     "tests cover two of the twelve conditions",
     [IC], [("initial conditions", "initial_conditions.py")], ["initial condition calls"])
prop("C22", "Plots and samples show the data that was asked for",
     "Plotting and sampling functions select the snapshot nearest to the requested time (the last one by default) and the cells nearest to the requested coordinates, show the requested variable at the matching coordinates with axes and orientation in agreement, mark exactly the troubled cells of the chosen criterion, and radial averages are the means over exactly the cells in each shell. Requests that fix too many coordinates for a line or plane, and unknown variables and criteria, are rejected, and snapshots are never modified.",
     ["inputs", "configurations"], "every snapshot list, coordinate, variable and orientation",
     "tests only call the plotting functions",
     [VI, SOL], [("lookup", "visualization.py get_indices_from_coordinates"), ("slices", "visualization.py plot_1d_slice, plot_2d_slice, sample_circular_average")], ["arguments handed to the plotting library"])
prop("C23", "Every name, argument and import of the package resolves",
     "Every module of the package imports, every name, attribute of a package module or class, and keyword used anywhere in it resolves to a definition that accepts it, also on error paths and rarely used branches.",
     ["programs", "configurations"], "every statement of every module",
     "tests never execute several branches (GPU, scripting, three-dimensional convex blending, error paths)",
     [SOL, ODE, BC, HY, RS, SL, SE, FV, ST, IC, AM, VI, SC, TI, "romain_solver.py"], [("whole package", "fvhoe/*.py")], ["imports and calls"])
prop("C24", "Timers, counters and progress report what happened",
     "On every path through a run, including early returns and repeated runs, each timer category is started before it is stopped and never left running or started twice, misuse is rejected, cumulative times only grow, and reports list every category once; the evaluation counter counts exactly the evaluations and the step counter the steps; the progress bar, when wanted, shows the time reached after every step out of the end time and is closed at the end.",
     ["histories", "configurations"], "every path through construction, stepping, saving and repeated runs",
     "tests only look at a timer directly",
     [TI, SOL, ODE], [("timer", "timer.py"), ("call sites", "solver.py, ode.py")], ["timer", "f_evaluation_count", "step_count"])
prop("C25", "Every interior cell is updated by the same formula",
     "Every interior cell is updated by the same formula: on a periodic grid shifting the state by any number of cells along any axis shifts rates of change, time step and troubled-cell flags by the same number of cells, wherever the seam lies, and moving the domain without changing its size changes nothing.",
     ["inputs", "configurations"], "every state, shift, axis and configuration",
     "tests use fixed profiles that are symmetric about the domain centre",
     [SOL, BC, SL, SE, FV], [("slicing", "fv.py, slope_limiting.py"), ("periodic ghost cells", "boundary_conditions.py")], ["f(t, u)"])
prop("C26", "The GPU path computes the same as the CPU path",
     "With GPU arrays enabled every result (rates of change, time step, snapshots, trouble) is defined by the same formula as on the CPU, working arrays live on the device, snapshots are host copies, host and device arrays are never mixed, and without a GPU the request falls back to the CPU.",
     ["configurations"], "every configuration, with and without GPU support installed",
     "no GPU where the tests run: the branches are never executed",
     [AM, SOL, SL, BC, HY], [("array manager", "array_management.py"), ("backend switches", "slope_limiting.py, boundary_conditions.py")], ["f(t, u)", "snapshots"])
prop("C27", "The 1D reference solver is a consistent, conservative, limited scheme",
     "The bundled one-dimensional reference solver (fvhoe.romain_solver) converts between primitive and conserved variables by the ideal-gas law in both directions, returns the physical flux for equal states and the documented LLF and HLLC fluxes otherwise, fills ghost cells with the periodic image or the nearest cell, reconstructs polynomials of degree below the chosen order exactly, limits face values by one factor per cell, the largest that keeps the reconstructed values within the range of the neighbouring cells, unless a smooth extremum is detected, lets the same flux leave and enter at the periodic seam, keeps a uniform flow uniform, and takes Runge-Kutta steps of the chosen order with a time step that obeys the CFL condition. Its shock-tube initial states are the documented ones.",
     ["inputs", "configurations"], "every state, order, boundary type and Riemann solver",
     "the module is not tested at all; it is the yardstick the solver is compared with",
     ["romain_solver.py"], [("reference solver", "romain_solver.py")], ["weno", "cmp_flux", "trace"])
prop("N01", "Nonlinear stability and convergence",
     "Runs at the default CFL number stay stable and converge to the entropy solution at the expected rate on arbitrary flows.",
     ["inputs"], "every flow", "tests sample a few flows", [SOL, HY], [("CFL bound", "hydro.py hydro_dt")])
prop("N02", "Positivity of density and pressure",
     "Density and pressure stay positive in every run with physical bounds enabled.",
     ["inputs", "histories"], "every run", "tests sample a few runs", [SL, SOL], [("physical bounds", "slope_limiting.py")])
prop("N03", "Bitwise reproducibility and rounding",
     "Results are bitwise reproducible and rounding errors stay at machine precision.",
     ["inputs", "schedules"], "every run and backend", "tests compare with tolerances", [SOL], [("vectorised arithmetic", "fvhoe/*.py")])
prop("N04", "Performance and termination",
     "Every run terminates in time proportional to the number of steps and cells.",
     ["inputs"], "every run", "tests run small problems", [ODE], [("time loop", "ode.py integrate")])

NA = {
    "N01": "stability and convergence to the entropy solution quantify over runtime solutions of a nonlinear system; no static argument in reach bounds them (the static necessary conditions are C02-C04, C08, C11, C17)",
    "N02": "the fallback scheme is not provably positivity preserving for arbitrary data; truth depends on runtime values (the static part, which fluxes are replaced and when, is C15/C16)",
    "N03": "the analysis works in exact arithmetic; rounding and vector-unit reduction order are properties of the numpy build, not of the source",
    "N04": "the number of steps depends on runtime signal speeds; no static bound exists",
}


def main():
    from checks import REGISTRY

    checks = []
    for p in P:
        if p["id"] in NA or p["id"] not in REGISTRY:
            continue
        m = importlib.import_module("checks." + REGISTRY[p["id"]])
        checks.append(
            dict(
                property=p["id"],
                quick_cmd=f"python3-vt /verif/check.py {p['id']}",
                thorough_cmd=f"python3-vt /verif/check.py {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=m.TECHNIQUE,
                level="other",
                level_note="Static analysis of the current source (nothing is executed). " + m.EXPLANATION + " Assumes: " + "; ".join(m.ASSUMPTIONS) + ".",
            )
        )
    na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p["id"] in NA or p["id"] not in REGISTRY]
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    man = dict(
        version=1,
        setup_cmd="python3-vt -c 'import numpy'",
        checks=checks,
        not_applicable=na,
        notes="All checks are one abstract interpreter (fvsa/) applied to /repo/fvhoe with per-property case lists (checks/). No hooks in /repo are needed. See DESIGN.md.",
    )
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    import jsonschema

    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, sch)
    print(len(P), "properties,", len(checks), "checks")


main()
