#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that it can be re-generated and diffed)."""
import json, os
SD = "stokesian_dynamics/"
FN = SD + "functions/"
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    p = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        p["anchors"]["state"] = state
    if observe:
        p["anchors"]["observe_at"] = observe
    p["anchors"]["hook_needed"] = hook
    P.append(p)


add("P01", "Reciprocity and positive dissipation of the hydrodynamic response",
    "For every particle configuration (spheres and dumbbells, any supported sizes, unbounded or periodic box), the response to two "
    "different loadings of the same configuration obeys the reciprocal theorem: the work of the first loading on the second motion equals "
    "the work of the second loading on the first motion. The work done by any non-zero loading on its own motion is strictly positive.",
    ["inputs", "configurations"],
    "All non-overlapping configurations of spheres and dumbbells with size ratios in the table, all loadings (forces, torques, stresslets, "
    "internal dumbbell forces), unbounded and periodic (also sheared boxes).",
    "The test checks 88 two-sphere responses on one axis against a table at 0.1%; it never compares two loadings of one configuration, has no "
    "third particle, no dumbbell, no box and no off-axis pair, so a wrong transposed block or sign is invisible.",
    [FN + "generate_Minfinity.py", FN + "generate_Minfinity_periodic.py", FN + "generate_R2Bexact.py",
     FN + "generate_grand_resistance_matrix.py", FN + "timestepping.py"],
    [("grand resistance assembly and symmetrisation", FN + "generate_R2Bexact.py:generate_R2Bexact_loop"),
     ("grand mobility assembly", FN + "generate_Minfinity.py:generate_Minfinity_loop"),
     ("solve", FN + "timestepping.py:generate_output_FTSUOE")],
    observe=["returned velocities, angular velocities, strain rates and dumbbell velocities of one solve"])

add("P02", "Two-sphere response equals the exact two-sphere Stokes solution",
    "For any two spheres of supported size ratio, at any separation from near contact to beyond the short-range cutoff, in any orientation and "
    "for any combination of force, torque and strain, the computed velocities, angular velocities and stresslets agree with the exact two-sphere "
    "solution within interpolation accuracy. As the separation grows the answer tends to that of two isolated spheres.",
    ["inputs"],
    "All separations 2.00001..50 mean radii, size ratios 1, 0.1, 0.01 and reciprocals, all orientations, all 22 loading directions and combinations.",
    "The test pins two separations per size ratio along the x axis only; separations between table nodes, near contact, past the table, all other "
    "axes, ratio 0.01 and combined loadings are never evaluated.",
    [FN + "generate_R2Bexact.py", FN + "generate_Minfinity.py", FN + "timestepping.py", SD + "resistance_scalars/data.py"],
    [("table interpolation", FN + "generate_R2Bexact.py:XYZ"), ("table loading", SD + "resistance_scalars/data.py")],
    observe=["solver result for two spheres"])

add("P03", "Long-range hydrodynamics equal the multipole (Faxen) mobility, unbounded",
    "With short-range corrections off, the response of any set of spheres and dumbbells in unbounded fluid equals the force-torque-stresslet "
    "multipole mobility with finite-size (Faxen) corrections, for any positions, sizes and viscosity. An isolated sphere obeys Stokes' laws for "
    "force, torque and strain exactly. The drag-only option leaves exactly those isolated-particle laws.",
    ["inputs", "configurations"],
    "All numbers, sizes, positions of spheres and dumbbells, all viscosities, all loadings; bead-bead interactions on and off; drag-only on and off.",
    "Tests use two spheres on one axis at 0.1% with lubrication on top; multi-particle, off-axis, dumbbell, viscosity and option branches have no expected value.",
    [FN + "generate_Minfinity.py", FN + "generate_grand_resistance_matrix.py", FN + "shared.py"],
    [("mobility tensors", FN + "generate_Minfinity.py"), ("placement of blocks", FN + "shared.py:submatrix_coords_tuple")],
    observe=["solver result with short-range corrections disabled"])

add("P04", "Short-range correction is a pairwise sum over exactly the pairs within cutoff",
    "The difference between the full resistance and the long-range resistance is the sum, over exactly those pairs of spheres/beads whose scaled "
    "separation is below the cutoff, of that pair's tabulated two-body correction resolved along the pair's line of centres (nearest image in a periodic box). "
    "Pairs outside the cutoff contribute nothing, and the correction of a pair does not depend on any third particle.",
    ["inputs", "configurations"],
    "All configurations (spheres, dumbbells, mixed sizes, any particle order), all cutoff factors, unbounded/periodic/sheared boxes, bead-bead interactions on and off, any viscosity.",
    "Only two-sphere systems on the x axis with one cutoff are tested; multi-pair sums, dumbbell beads, mixed sizes off axis, images and cutoffs have no expected value.",
    [FN + "generate_R2Bexact.py", FN + "shared.py", SD + "resistance_scalars/data.py"],
    [("pair search", FN + "shared.py:close_particles"), ("pair blocks", FN + "generate_R2Bexact.py:generate_R2Bexact_loop")],
    observe=["difference of resistance observed through solver with and without short-range correction"])

add("P05", "Periodic long-range hydrodynamics equal the lattice-summed mobility",
    "In a periodic box (cubic, rectangular or sheared) with short-range corrections off, the response equals the lattice sum of the multipole mobility, "
    "to the accuracy of the chosen number of box repeats. The response is unchanged when particles are moved by lattice vectors, and tends to the unbounded response as the box grows.",
    ["inputs", "configurations"],
    "All box shapes and shears, particle positions and sizes, spheres and dumbbells, viscosities, loadings; bead-bead interactions on and off.",
    "No test runs a periodic box at all.",
    [FN + "generate_Minfinity_periodic.py", FN + "shared.py", FN + "generate_grand_resistance_matrix.py"],
    [("Ewald sums", FN + "generate_Minfinity_periodic.py"), ("box shear", FN + "shared.py:shear_basis_vectors")],
    observe=["solver result in a periodic box"])

add("P06", "All ways of posing the problem describe one and the same linear relation",
    "For one configuration, posing the problem with any supported mix of imposed forces/velocities, torques, stresslets/strains and dumbbell "
    "forces/velocities gives mutually consistent answers: feeding the computed quantities back through any other form returns the originals. "
    "Every imposed quantity is returned unchanged, and every computed quantity is returned in the slot of its own particle.",
    ["inputs", "configurations"],
    "All configurations, all forms (FTE, FTS, UFTE, UFTEU, DUF), all splits into fixed and free particles including none and all, unbounded and periodic.",
    "Only the FTE form without dumbbells is tested.",
    [FN + "simulation_tools.py", FN + "timestepping.py"],
    [("matrix form conversions", FN + "simulation_tools.py"), ("packing/unpacking", FN + "simulation_tools.py:construct_force_vector_from_fts")],
    observe=["solver results under different forms"])

add("P07", "The response respects the symmetries of Stokes flow",
    "Translating, rotating, reflecting or rescaling a configuration together with its loading transforms the answer accordingly; permuting particles of the "
    "same kind permutes the answer, as does swapping the two beads of a dumbbell. The answer is linear in the loading and inversely proportional to viscosity.",
    ["inputs", "configurations"],
    "All configurations and loadings, rotations/reflections of the whole system, permutations, length and viscosity scales; unbounded and (axis-permuting) periodic.",
    "The test has one orientation, one order, one viscosity and unit loadings.",
    [FN + "generate_Minfinity.py", FN + "generate_R2Bexact.py", FN + "generate_Minfinity_periodic.py", FN + "timestepping.py"],
    [("solver", FN + "timestepping.py:generate_output_FTSUOE")],
    observe=["pairs of solver results"])

add("P08", "A solve depends only on its arguments and leaves them untouched",
    "Repeating a solve with the same arguments gives the same answer whatever was solved before, and no solve changes the positions, sizes, orientations, "
    "previous velocities or stored matrices handed to it. When told to reuse a stored long-range matrix it uses exactly that one and hands it back unchanged.",
    ["histories", "inputs"],
    "All sequences of solves with differing configurations, forms, options, boxes and stored matrices.",
    "Tests never solve twice on the same data nor inspect arguments afterwards.",
    [FN + "timestepping.py", FN + "generate_grand_resistance_matrix.py", FN + "generate_R2Bexact.py"],
    [("stored inverse reuse", FN + "generate_grand_resistance_matrix.py"), ("solve", FN + "timestepping.py:generate_output_FTSUOE")],
    observe=["arguments before/after and results over histories of calls"])

add("P09", "Trajectories follow the declared time-stepping scheme",
    "In every simulation the saved positions and dumbbell displacements are those obtained by advancing the previous ones with the selected scheme (explicit "
    "Euler; two-step Adams-Bashforth started with one Euler step; classical four-stage Runge-Kutta) applied to the velocities, background flow included, of "
    "the particles at the positions and times the scheme prescribes. With the two-dimensional option, spheres never leave their plane.",
    ["inputs", "configurations", "histories"],
    "All setups, inputs, timesteps, frame counts, schemes, spheres/dumbbells/mixed, periodic and unbounded, time-dependent flows.",
    "No test advances time.",
    [SD + "run_simulation.py", FN + "timestepping.py"],
    [("time loop", SD + "run_simulation.py:generate_frame"), ("steppers", FN + "timestepping.py:euler_timestep")],
    observe=["saved trajectory vs independent integrator"])

add("P10", "Orientation markers rotate rigidly with their sphere",
    "Each sphere's two orientation markers stay attached to the sphere's centre at a distance of one radius and keep the angle between them. "
    "In one step they turn about the sphere's angular velocity (background rotation included) by the angle that velocity sweeps in the step, in the right-handed sense.",
    ["inputs", "histories"],
    "All angular velocities (zero, axis-aligned, tiny, huge), radii, timesteps, schemes, step sequences, and periodic boxes.",
    "No test looks at orientations.",
    [FN + "timestepping.py", SD + "run_simulation.py", FN + "shared.py"],
    [("rotation step", FN + "timestepping.py:euler_timestep_rotation"), ("initial markers", FN + "shared.py:add_sphere_rotations_to_positions")],
    observe=["saved orientation markers"])

add("P11", "Imposed background flow carries particles as a fluid element would",
    "In an imposed linear flow, a force- and torque-free isolated sphere translates with the undisturbed flow at its centre and spins at its vorticity, a pair of "
    "distant dumbbell beads moves with the flow at each bead, and a uniform velocity or rigid rotation of the fluid moves any configuration rigidly, and two force-free spheres in a straining flow move as the exact two-sphere solution says. "
    "The flow is measured from its stated centre, at the current time.",
    ["inputs", "configurations"],
    "All uniform velocities, rotations, strains, centres, positions, spheres/dumbbells/mixed, all schemes, time-dependent flows.",
    "No test has a background flow with a translating frame.",
    [FN + "timestepping.py", SD + "run_simulation.py", SD + "setups/functions_inputs.py"],
    [("background flow addition", FN + "timestepping.py:add_background_flow_spheres")],
    observe=["displacements over steps"])

add("P12", "Periodic wrapping only ever moves particles by lattice vectors",
    "After each step in a periodic box every particle centre lies inside the current (possibly sheared) box and differs from the unwrapped position by an integer "
    "combination of that box's edge vectors. Wrapping changes neither inter-particle images, nor dumbbell displacements, nor orientation markers relative to their sphere.",
    ["inputs", "histories"],
    "All boxes, shears, positions (including on faces), schemes and step sequences.",
    "No test runs a periodic box.",
    [FN + "timestepping.py", SD + "run_simulation.py", FN + "shared.py"],
    [("wrap", FN + "timestepping.py:wrap_around"), ("box shear", FN + "shared.py:shear_basis_vectors")],
    observe=["saved positions and orientation markers"])

add("P13", "Long-range matrix is refreshed exactly on schedule",
    "The long-range matrix used at a step is the one for the positions of the latest scheduled refresh (every n-th frame, and the first frame after a start or resume; "
    "within a Runge-Kutta step every stage or only the first, as selected), while short-range corrections always use current positions. "
    "Refreshing every step is the same as not having a schedule.",
    ["configurations", "histories"],
    "All refresh intervals, frame counts, schemes, stage options, start frames, unbounded and periodic.",
    "Tests solve single frames only.",
    [SD + "run_simulation.py", FN + "generate_grand_resistance_matrix.py"],
    [("refresh schedule", SD + "run_simulation.py:generate_frame"), ("reuse", FN + "generate_grand_resistance_matrix.py")],
    observe=["saved trajectory vs independent integrator with schedule"])

add("P14", "The output file is a faithful, complete record of the run",
    "When a run finishes, its output file holds, at the selected saving intervals from the selected first frame, the positions, displacements and orientations at the start of each saved "
    "frame plus the final state, and the forces, internal forces and stresslets of each saved frame, in step order and particle order. "
    "The file name records setup, input, frames and timestep, no backup file is left behind, and earlier outputs are untouched.",
    ["inputs", "configurations", "histories"],
    "All saving intervals, first-saved frames, frame counts, schemes, particle mixes, pre-existing output folders.",
    "No test runs the simulation script.",
    [SD + "run_simulation.py"],
    [("saving", SD + "run_simulation.py:generate_frame"), ("final save", SD + "run_simulation.py")],
    observe=["output directory after the run"])

add("P15", "An interrupted run resumes to the same result as an uninterrupted one",
    "Killing a run at any point and starting it again with the same arguments continues from its latest usable backup and ends with the same output as an uninterrupted run "
    "(Euler and Runge-Kutta, long-range matrix refreshed every step). Backups of other runs are never resumed or altered; a damaged backup is reported and the run starts afresh.",
    ["crash_points", "histories", "inputs"],
    "All kill points (between and inside steps, around and during backup writes), backup intervals, setups/inputs including time-dependent flows, several backups present, corrupt backups.",
    "No test runs the simulation script, let alone kills it.",
    [SD + "setups/positions.py", SD + "run_simulation.py"],
    [("checkpoint scan", SD + "setups/positions.py"), ("resume bookkeeping", SD + "run_simulation.py:generate_frame")],
    observe=["output directory over kill/resume histories"])

add("P16", "Particle-interaction forces obey their force laws and Newton's third law",
    "Between any two spheres or beads closer than the interaction range the repulsion acts along the line of centres, pushes them apart, has the documented magnitude, and is equal "
    "and opposite; beyond the range it is zero; total force is zero. Dumbbell springs act along the dumbbell with strength proportional to the extension from the natural length, pulling in when longer, pushing out when shorter.",
    ["inputs"],
    "All positions, sizes, overlaps, mixed spheres and dumbbells, strengths and decay rates.",
    "No test uses these inputs.",
    [SD + "setups/functions_inputs.py", SD + "setups/inputs.py"],
    [("repulsion", SD + "setups/functions_inputs.py:repulsion_forces"), ("spring", SD + "setups/inputs.py:input_ftsuoe")],
    observe=["forces reported by the solver/output"])

add("P17", "Provided loadings and shear flows are self-consistent at every time",
    "Each provided input imposes exactly the loading its description states on exactly the particles it states. For shear flows, strain rate and vorticity combine to simple shear of the stated "
    "rate, plane, direction and centre, strain is symmetric and traceless, and the accumulated strain/rotation used to deform the box are the exact time integrals of the rates.",
    ["inputs"],
    "All input numbers, frame numbers (integer and half), timesteps, amplitudes, periods, phases, planes, orientations, particle counts.",
    "Only the eleven unit test loadings are exercised.",
    [SD + "setups/inputs.py", SD + "setups/functions_inputs.py"],
    [("inputs", SD + "setups/inputs.py:input_ftsuoe"), ("shears", SD + "setups/functions_inputs.py:oscillatory_shear")],
    observe=["imposed quantities reported by the solver"])

add("P18", "Generated starting configurations are valid",
    "Every provided setup and configuration generator yields the stated number of particles with the stated sizes, every centre (both beads for dumbbells) inside the requested region, no two particles overlapping "
    "(nor overlapping the particles already present), dumbbells of the stated length and orientation constraint, and markers attached to their spheres.",
    ["inputs"],
    "All setup numbers, random seeds, regions (including flat ones), sizes, counts, existing particles.",
    "Tests use fixed two-sphere positions.",
    [SD + "setups/positions.py", SD + "setups/functions_positions.py", FN + "shared.py"],
    [("random placement", SD + "setups/functions_positions.py:randomise_spheres"), ("setups", SD + "setups/positions.py:pos_setup")],
    observe=["returned configurations"])

add("P19", "Bad requests are refused before anything is simulated",
    "Unknown setup, input or scheme, malformed arguments, a problem form incompatible with the particles, missing imposed quantities, or a particle size ratio outside the table stop the program with a "
    "non-zero exit and an explanatory message, and no output file is produced. Every valid combination of command-line arguments is honoured as given.",
    ["inputs", "configurations"],
    "All argument lists (0-6 arguments), setups, inputs, forms, schemes, particle mixes.",
    "No test starts the program.",
    [SD + "settings.py", SD + "run_simulation.py", SD + "setups/positions.py", SD + "setups/inputs.py", FN + "timestepping.py", FN + "shared.py"],
    [("argument parsing", SD + "settings.py"), ("startup checks", SD + "run_simulation.py"), ("error exit", FN + "shared.py:throw_error")],
    observe=["exit status, message, output directory"])

add("P20", "Compiled and interpreted modes agree, with no out-of-range access",
    "Turning just-in-time compilation on or off changes no result beyond rounding, for any supported input; with array bounds checking enabled the compiled code never indexes out of range.",
    ["configurations", "inputs"],
    "All kernels reached from the simulation: unbounded and periodic, spheres and dumbbells, all forms, time-stepping.",
    "The test only ever runs interpreted.",
    [FN + "generate_Minfinity.py", FN + "generate_Minfinity_periodic.py", FN + "generate_R2Bexact.py", FN + "shared.py", FN + "simulation_tools.py", FN + "timestepping.py", SD + "settings.py"],
    [("JIT switch", SD + "settings.py")],
    observe=["solver and trajectory results in both modes, bounds-check traps"])

add("P21", "Near-field and mid-field generators produce the exact resistance scalars",
    "For any size ratio and any separation in their range, the near-field formulas and the mid-field procedure (exact two-sphere mobilities converted to resistances and made dimensionless) give the exact two-sphere resistance "
    "scalars, agreeing with each other where ranges meet, satisfying exchange symmetry of the two spheres, and tending to the isolated-sphere values at large separation.",
    ["inputs"],
    "All size ratios 0.01..1 (and reciprocals where defined), all separations, all 22 scalars.",
    "No test touches the generators.",
    ["find_resistance_scalars/functions_nearfield.py", "find_resistance_scalars/generate_scalars_nearfield.py",
     "find_resistance_scalars/generate_scalars_midfield.py", "find_resistance_scalars/functions_general.py"],
    [("near-field scalars", "find_resistance_scalars/functions_nearfield.py"), ("mobility to resistance", "find_resistance_scalars/generate_scalars_midfield.py")],
    observe=["scalar values and written tables"])

add("P22", "The scalar pipeline rebuilds the table the simulation uses",
    "Running the documented generation steps in order yields tables containing every requested separation (sorted) and every size ratio with its reciprocal, each entry equal to the generator's value, the subtracted table equal to the "
    "full table minus the long-range part, and human-readable tables equal to the binary ones. The table shipped with the simulation is the one these steps produce, and lookup returns the entry for the right scalar, pair type, separation and ratio.",
    ["inputs", "configurations"],
    "All lists of separations and size ratios, and the shipped tables.",
    "No test runs the pipeline or inspects tables.",
    ["find_resistance_scalars/combine_scalars.py", "find_resistance_scalars/subtract_R2Binfinity_from_scalars.py", "find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py",
     "find_resistance_scalars/functions_general.py", "find_resistance_scalars/generate_scalars_nearfield.py", "find_resistance_scalars/generate_scalars_midfield.py", SD + "resistance_scalars/data.py"],
    [("combine", "find_resistance_scalars/combine_scalars.py"), ("subtract", "find_resistance_scalars/subtract_R2Binfinity_from_scalars.py"), ("lookup data", SD + "resistance_scalars/data.py")],
    observe=["files written by each step"])

add("P23", "The exact two-sphere solver is memory-safe, well defined and physically exact",
    "For every case and valid pair of spheres the two-sphere solver finishes without out-of-bounds access, undefined arithmetic or invalid floating-point operations, no printed number depends on memory that was never written, "
    "its output satisfies reciprocity, exchange and scaling symmetry and equals the exact two-sphere solution to its convergence tolerance, and both output styles show the same numbers.",
    ["inputs"],
    "All case names, separations above contact, radii and ratios, output styles.",
    "The test compares against a stored file and never runs the solver.",
    ["find_resistance_scalars/helen_fortran/2sphere.f", "find_resistance_scalars/helen_fortran/base.f", "find_resistance_scalars/helen_fortran/reflect.f", "find_resistance_scalars/helen_fortran/parameters.f"],
    [("multipole reflections", "find_resistance_scalars/helen_fortran/reflect.f"), ("basis tables", "find_resistance_scalars/helen_fortran/base.f")],
    observe=["program output, sanitizer reports"])

add("P24", "Progress reports and size/time formatting tell the truth",
    "Durations and byte counts are rendered so that reading them back gives the value to the displayed precision, for every magnitude; the remaining-time estimate equals remaining refresh frames times their average cost plus "
    "remaining ordinary frames times theirs (with the stated margin), never negative and zero at the end, and the finish time shown is now plus that estimate.",
    ["inputs", "histories"],
    "All durations, sizes, timing histories, refresh intervals, start frames.",
    "No test calls these.",
    [FN + "timestepping.py", FN + "shared.py", "find_resistance_scalars/functions_general.py"],
    [("time left", FN + "timestepping.py:calculate_time_left"), ("formatting", FN + "shared.py:format_elapsed_time")],
    observe=["returned strings/values and printed progress"])

add("P25", "A saved run can be reloaded as a starting configuration without loss",
    "Starting from a saved output at any saved frame reproduces exactly the sphere positions, dumbbell positions and displacements of that frame with the requested sizes; feeding in new particles keeps the particle count, keeps every bead below the cut, "
    "and adds no overlapping beads. Loading never alters the saved file.",
    ["inputs", "histories"],
    "All saved outputs (spheres, dumbbells, mixed, one frame or many), frame numbers including negative, sizes.",
    "No test reads or writes output files.",
    [FN + "shared.py", SD + "setups/positions.py"],
    [("reload", FN + "shared.py:same_setup_as"), ("feeding", FN + "shared.py:feed_particles_from_bottom")],
    observe=["returned configuration vs saved file"])

add("P26", "Pictures and videos show the saved data",
    "Every drawn sphere, dumbbell, marker, trace and force arrow is at the position, size, orientation and scale that the saved data of the displayed frame dictates; drawing modifies no data; "
    "the video contains exactly the requested frames in order, correctly numbered, and, for periodic runs, the right sheared box.",
    ["inputs", "configurations"],
    "All saved outputs (spheres, dumbbells, mixed; periodic or not), frame ranges, options.",
    "No test draws anything.",
    [FN + "graphics.py", SD + "plotting/plot_positions.py", SD + "plotting/make_video.py", SD + "run_simulation.py"],
    [("drawing", FN + "graphics.py"), ("video", SD + "plotting/make_video.py")],
    observe=["artists created on the axes"])

add("P27", "Force on fixed spheres due to dumbbells is the dumbbells' own contribution",
    "When requested, the reported extra force on each fixed-velocity sphere equals the change in that sphere's computed force when all dumbbell forces are switched off, per sphere and component; "
    "requesting it changes none of the other results.",
    ["inputs", "configurations"],
    "All mixes of fixed/free spheres and dumbbells, loadings, boxes.",
    "No test uses this option.",
    [FN + "timestepping.py", SD + "settings.py", SD + "run_simulation.py"],
    [("extraction", FN + "timestepping.py:generate_output_FTSUOE"), ("option", SD + "settings.py")],
    observe=["solver result and saved output"])

add("P28", "Explosion protection stops a run when a dumbbell is too long, and only then",
    "With explosion protection on, no frame is simulated after the first step that makes a dumbbell longer than 5: a message names every dumbbell that is too long, with its length, and no other, "
    "and the run ends normally with an output file holding exactly the frames simulated until then, equal to those of an unprotected run, and no backup. While no dumbbell is too long, or with protection off, "
    "the run is identical to an unprotected one. A dumbbell that turns by more than a right angle in a step is reported without affecting the run.",
    ["inputs", "histories"],
    "All runs with dumbbells, time-stepping schemes, forms, saving intervals, protection on or off, any dumbbell growing too long at any step (also the first or last).",
    "No test runs a simulation with dumbbells.",
    [FN + "timestepping.py", SD + "run_simulation.py"],
    [("length check", FN + "timestepping.py:did_something_go_wrong_with_dumbells"), ("stop", SD + "run_simulation.py:generate_frame")],
    observe=["frames solved, messages, saved output"])

add("P29", "What a run tells its user is true and asking for it changes nothing",
    "The summary printed at the start of a run shows the setup, input, frames, timestep, options, scheme, form and memory estimate actually in force, and the file announced is the file written. With diagnostics on, the velocities, "
    "angular velocities, forces, torques, strain rates and stresslets printed after each solve, and the resistance matrix saved, are those of that solve; with diagnostics off nothing of this appears. With email on, exactly one "
    "message, with sender, recipient and subject and naming the run, its machine, start and duration, is sent over an encrypted connection after a completed run, and a failure to send is reported; none is sent otherwise. Neither option changes any saved number.",
    ["inputs", "configurations", "faults"],
    "All combinations of options, forms, schemes, periodic or not, compiled or not; printout levels; mail server accepting, refusing the connection or the login; runs that complete, are refused or killed.",
    "No test starts the program.",
    [SD + "run_simulation.py", FN + "timestepping.py", FN + "email.py", FN + "generate_grand_resistance_matrix.py"],
    [("summary", SD + "run_simulation.py"), ("diagnostics", FN + "timestepping.py:generate_output_FTSUOE"), ("email", FN + "email.py:send_email")],
    observe=["standard output, saved matrix text, conversation with a stand-in mail server"])

add("P30", "The documented examples reproduce the published results they are compared with",
    "Running the documented example commands as documented completes and gives: (a) the drag coefficients of the chain of 15 spheres of Durlofsky et al.; (b) the published paths of three sedimenting spheres; (c) the published sedimentation velocity "
    "of cubic arrays at every concentration, all spheres moving alike; (d) particles in oscillatory flow that keep their symmetry and return after whole periods; (e) spheres that spread out while the total repulsion falls; (f, g) wall spheres moving exactly "
    "as prescribed, dumbbells between them sheared and the forced array carried along. Arrangements that lie in a plane stay in it.",
    ["inputs", "configurations"],
    "The documented examples (a)-(g), random starting arrangements where the example has them, cubic arrays (simple, body- and face-centred) over concentrations, box positions and directions.",
    "The examples need complete simulations with many particles, boxes and steps; the tests solve two spheres once.",
    [SD + "run_simulation.py", SD + "setups/positions.py", SD + "setups/inputs.py", FN + "generate_Minfinity.py", FN + "generate_Minfinity_periodic.py", FN + "generate_R2Bexact.py", FN + "timestepping.py"],
    [("examples", SD + "setups/positions.py:pos_setup"), ("inputs", SD + "setups/inputs.py:input_ftsuoe")],
    observe=["saved output of the documented commands"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
