#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Continuation records and reports only converged points, in order",
 "Whatever sequence of corrector outcomes occurs, the array returned by a continuation run is exactly the converged start point followed by the corrected points in the order they converged, and the callback sees the same points in the same order, each once, bracketed by one opening call without a direction and one closing call without a point. A step that cannot be converged never contributes a point, also when output is suppressed, and a start point that does not converge is refused. Running does not alter the caller's settings and printing does not alter results.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of corrector successes and failures (with any evaluation counts), every verbosity, every list of fallback weights, with and without callback, and reuse of one continuation object",
 "The tests run a handful of smooth problems on which nearly every corrector call converges; rejected steps, exhausted minimum steps, fallback weights and silent mode combine into histories no test drives.",
 ["tmdsimpy/continuation.py"],
 [("continuation loop, storage and callback calls", "tmdsimpy/continuation.py:Continuation.continuation"), ("settings copy", "tmdsimpy/continuation.py:Continuation.__init__")],
 ["value returned by the continuation call", "callback arguments", "calls made to the supplied solver", "caller's configuration dictionary"])

prop("C02", "Continuation step sizes, retries, fallbacks and stopping follow the settings",
 "The first attempt of a run has the configured initial step length; a failed attempt is retried at half the length but never below the minimum; after an accepted step the next length is the last one times the ratio of target to used evaluations, capped by the maximum growth factor and clamped between minimum and maximum. Fallback weights are tried in their listed order and only after the minimum length failed. The run ends exactly when the parameter reaches or passes its end value in the direction of travel, backtracks past the start by the allowed amount, reaches the maximum number of points, or no weight converges.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of outcomes and evaluation counts and every admissible combination of step limits, growth limit, target count, fallback weights, range direction and point limit",
 "Step control depends on the whole history of outcomes; the tests only check end results of a few successful runs with default limits.",
 ["tmdsimpy/continuation.py"],
 [("retry loop, fallback loop and step update", "tmdsimpy/continuation.py:Continuation.continuation")],
 ["initial guesses handed to the solver", "number and order of solver calls", "returned points"])

prop("C03", "Continuation steps follow the solution branch without turning back",
 "Every predicted direction is tangent to the solution branch in conditioned coordinates, has unit length in the weighted norm of the current step, and makes a non-obtuse angle with the preceding step in that norm; every accepted point solves the equations and satisfies the selected arclength or orthogonality condition with the step length used, also when the corrector uses Jacobians. A branch with turning points is followed through them in one direction, and rescaling variables together with the conditioning vector rescales the results and nothing else.",
 ["inputs", "histories", "configurations"],
 "every smooth branch (including folds), both corrector types, every weight strictly between 0 and 1, every conditioning vector, static or dynamic conditioning",
 "Tests compare end results of a few problems with tolerances that hide a wrong norm, sign choice or constraint; folds with unequal conditioning are hardly exercised.",
 ["tmdsimpy/continuation.py", "tmdsimpy/solvers.py"],
 [("tangent predictor and orientation", "tmdsimpy/continuation.py:Continuation.predict"), ("constraint equations and augmented Jacobian", "tmdsimpy/continuation.py:Continuation.correct_res, pseudo_arc_res, orthogonal_arc_res"), ("dynamic conditioning", "tmdsimpy/continuation.py:Continuation.continuation")],
 ["predictor return value", "initial guesses and augmented functions handed to the solver", "callback directions", "returned points"])

prop("S01", "The Newton solver's verdict, counts and iterates are those of its settings",
 "The in-house solver reports success if and only if one of the enabled stopping measures falls below its own tolerance at some iteration, or one of the accepting measures does at the last allowed iteration, each measure being the step, residual or energy norm, absolute or relative to its first value, that its name says. It evaluates residual and Jacobian exactly as often as it reports, never iterates past the allowed number of steps, refreshes the Jacobian on the configured cycle and uses quasi-Newton updates in between, and stops without success on undefined values. A tolerance given for one call affects that call only, even if the function fails.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every function, start point and combination of tolerances, cycle length, step limit and per-call tolerance; undefined values or exceptions at any evaluation",
 "Tests solve a few well-behaved problems to convergence; which tolerance triggered, what the counts mean and what happens after a failure is not observed.",
 ["tmdsimpy/jax/solvers.py"],
 [("iteration", "tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve"), ("stopping test", "tmdsimpy/jax/solvers.py:_check_convg"), ("settings", "tmdsimpy/jax/solvers.py:NonlinearSolverOMP.__init__, edit_config")],
 ["evaluation requests seen by the supplied function", "returned point and report", "solver settings before and after"])

prop("S02", "Line search brackets the root and returns a safe nonzero fraction",
 "The line search returns a fraction of the step in (0, 1] obtained by bisection: the full step when the projected residual does not change sign over it (or, when sign changes are allowed, is already small enough), and otherwise a bracket end for which the projected residual has the reported value. With the same-sign option the returned fraction never passes the sign change unless that would mean no step at all, the search stops at the first bisection that meets the relative tolerance or at the iteration limit, and the reported evaluation count is the number of evaluations made. When enabled in a solve, the accepted step is exactly that fraction of the full step.",
 ["inputs", "configurations", "histories"],
 "every residual profile along the step, start value sign, tolerance, iteration limit and sign option",
 "Tests check one cubic; the sequence of bracket updates depends on the signs along the bisection path, which are exponentially many.",
 ["tmdsimpy/jax/solvers.py"],
 [("bisection", "tmdsimpy/jax/solvers.py:NonlinearSolverOMP.line_search"), ("use in the iteration", "tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve")],
 ["fractions at which the function is evaluated", "returned fraction and report"])

prop("S03", "Solver services are stateless, mutually consistent and conditioning-neutral",
 "Linear solves, solves with a stored factorization, and eigenvalue requests give the solution of the system they were handed, for every order of calls and interleaving of factorizations, and leave all arguments and later calls unaffected. A conditioned problem has as residual and Jacobian the row-scaled residual and the row- and column-scaled Jacobian of the original, with or without derivatives, so that it has the same solutions in scaled variables. The two nonlinear solvers agree on the solution of a well-conditioned problem, and their returned values belong to the points they are documented for.",
 ["inputs", "histories", "configurations"],
 "all matrices, right-hand sides, requested eigenvalue ranges, scaling vectors and call histories on shared solver objects",
 "Each service is tested by single calls on fresh objects with scalar residual scaling; history and vector scaling are not exercised.",
 ["tmdsimpy/solvers.py", "tmdsimpy/jax/solvers.py"],
 [("linear services", "tmdsimpy/solvers.py, tmdsimpy/jax/solvers.py: lin_solve, lin_factor, lin_factored_solve"), ("eigs", "tmdsimpy/solvers.py:NonlinearSolver.eigs"), ("conditioning_wrapper", "tmdsimpy/solvers.py:_conditioned_fun")],
 ["returned values", "arguments after the call"])

prop("H01", "Harmonic coefficients and time series are exact inverse representations",
 "For every admissible sorted harmonic list, with or without the mean and with gaps, converting coefficients to samples gives the values of that trigonometric series (or of its exact time derivative of any order) and converting samples to coefficients gives the exact discrete projection, so that a round trip returns the coefficients; ordering is harmonic by harmonic, cosine before sine. The frequency-domain stiffness and its frequency derivative are those of the equation of motion for that ordering, the number of components is counted accordingly, and the automatic-differentiation versions agree with the plain ones.",
 ["inputs", "configurations"],
 "every harmonic list, number of samples above the documented minimum, number of degrees of freedom, derivative order and system matrices",
 "Tests use a few harmonic lists, mostly consecutive and with the mean included.",
 ["tmdsimpy/utils/harmonic.py", "tmdsimpy/jax/harmonic_utils.py"],
 [("transforms", "time_series_deriv, get_fourier_coeff in both files"), ("harmonic_stiffness, Nhc", "tmdsimpy/utils/harmonic.py")],
 ["return values"])

prop("H02", "Phase, scaling and zero-crossing utilities respect the harmonic layout",
 "Rotating harmonic solutions by a phase at one harmonic is the time shift that subtracts this phase there: every other harmonic turns in proportion to its number, the mean, trailing unknowns, amplitudes and the input array are untouched. Phases are wrapped into [-pi, pi) by whole turns. Conditioning vectors are constant over each harmonic at the larger of its floor and its mean magnitude, with trailing unknowns treated one by one, and zero crossings are flagged exactly before a strict sign change of a value within tolerance.",
 ["inputs", "configurations"],
 "every harmonic list, number of degrees of freedom and trailing unknowns, phase, rotated harmonic, floor (scalar or per harmonic) and data vector",
 "Tests cover one or two layouts; several of these helpers are explicitly documented as untested.",
 ["tmdsimpy/utils/harmonic.py"],
 [("rotate_subtract_phase, shift_pm_pi, harmonic_wise_conditioning, zero_crossing", "tmdsimpy/utils/harmonic.py")],
 ["return values", "arguments after the call"])

prop("H03", "Predicted starting points solve the linear problem in the requested layout",
 "The linear frequency response with all modes retained solves the linear forced equations for cosine and sine forcing at every frequency, with fixed-base excitation included, and retaining fewer modes gives the projection on the lowest ones. The starting point built for each kind of harmonic problem is that response placed at the first harmonic of the requested layout, scaled to the requested amplitude or rotated to zero sine phase with matching force components where the problem controls them, with static and superharmonic parts in their own places.",
 ["inputs", "configurations"],
 "every proportionally damped system, forcing vector, frequency, harmonic list, control order, output vector and problem kind",
 "Tests check particular systems and mostly cosine forcing; layout errors only show for particular harmonic lists and sine forcing.",
 ["tmdsimpy/vibration_system.py", "tmdsimpy/utils/harmonic.py"],
 [("linear_frf, linear_frf_base", "tmdsimpy/vibration_system.py"), ("predict_harmonic_solution", "tmdsimpy/utils/harmonic.py")],
 ["return values, substituted into the equations of motion"])

prop("F01", "Friction elements follow their slider law along every quasi-static history",
 "For every sequence of loadings, unloadings, resets and trial evaluations, each hysteretic element returns the force of its spring-slider law given only the evaluations that were committed: the committed force plus stiffness times displacement increment, limited to the current slip force, sliders moving only when slipping. The returned derivative is the stiffness of the sliders that stick. Trial evaluations and switching the frictionless (prestress) mode on or off never alter committed history or the stored friction strength, contact forces vanish when separated, and friction never exceeds the friction coefficient times the normal force.",
 ["histories", "inputs", "configurations"],
 "every sequence of force evaluations with and without commit, history resets and friction-mode switches, for single-slider, distributed-slider and two- or three-directional contact elements",
 "Hysteresis is history dependent: the tests evaluate single load steps, and none interleaves trial and committed evaluations with mode switches.",
 ["tmdsimpy/nlforces/jenkins_element.py", "tmdsimpy/nlforces/iwan4_element.py", "tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py", "tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py", "tmdsimpy/nlforces/iwan_bb_conserve.py"],
 [("static force with optional history update", "force / instant_force / update_history / init_history of each element"), ("prestress mode", "set_prestress_mu, reset_real_mu")],
 ["force and stiffness returned by each evaluation"])

prop("F02", "Harmonic friction forces are those of the element's steady-state cycle",
 "For every periodic displacement, the harmonic force coefficients of a hysteretic element are the projection of the force its spring-slider law produces on the second pass over the sampled period starting from the documented initial slider position, and the Jacobian is the derivative of exactly that. Sequential, vectorized and automatically differentiated variants of one element give the same forces and Jacobian, as do evaluations with and without derivatives, and repeating an evaluation after any other evaluations gives the same result.",
 ["inputs", "histories", "configurations"],
 "every sampled periodic displacement (any number of reversals, plateaus and slips), initial slider position, sample count, harmonic list, normal-load history and preceding evaluations",
 "Tests use a few single- or two-harmonic motions; which samples are reversal points, and whether a slider slips between them, is a discrete pattern that grows exponentially with the samples.",
 ["tmdsimpy/nlforces/nonlinear_force.py", "tmdsimpy/nlforces/jenkins_element.py", "tmdsimpy/nlforces/vector_jenkins.py", "tmdsimpy/nlforces/iwan4_element.py", "tmdsimpy/nlforces/vector_iwan4.py", "tmdsimpy/jax/nlforces/jenkins_element.py", "tmdsimpy/jax/nlforces/vector_jenkins.py", "tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py", "tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py"],
 [("hysteretic alternating frequency-time evaluation", "HystereticForce.aft, local_force_history and overrides"), ("functional versions", "tmdsimpy/jax/nlforces/*: _local_aft*")],
 ["harmonic force and Jacobian returned", "local force histories"])

prop("F03", "Memoryless forces and their harmonic forms are exact projections of the law",
 "For every displacement, memoryless elements (polynomial stiffness of any multi-variable form, cubic and quintic springs, one-sided springs with gap and preload, cubic damping, backbone of the distributed slider) return the force of their law mapped through the input and output transformations, and the exact derivative. Their harmonic force coefficients are the exact discrete projection of the law applied to the sampled displacement and velocity, for any number of local coordinates, and the Jacobians with respect to coefficients and frequency are its exact derivatives.",
 ["inputs", "configurations"],
 "every displacement or harmonic state, frequency, element parameter set, transformation matrices, harmonic list and sample count",
 "Tests compare Jacobians by finite differences at a few points of a few configurations.",
 ["tmdsimpy/nlforces/nonlinear_force.py", "tmdsimpy/nlforces/cubic_stiffness.py", "tmdsimpy/nlforces/quintic_stiffness.py", "tmdsimpy/nlforces/general_poly_stiffness.py", "tmdsimpy/nlforces/unilateral_spring.py", "tmdsimpy/nlforces/cubic_damping.py", "tmdsimpy/nlforces/iwan_bb_conserve.py"],
 [("instantaneous alternating frequency-time evaluation", "InstantaneousForce.aft, GenPolyForce.aft"), ("laws", "force, local_force_history of each element")],
 ["forces and derivatives returned"])

prop("F04", "Rough contact keeps plastic memory, slip limits and separation consistent",
 "For every load history the rough-contact element returns zero force where the surfaces are separated, a normal force that grows with approach, follows one curve for repeated loading below the largest approach seen (below the first-loading curve once asperities are well past yield), and rejoins the first-loading curve beyond it, and a friction force never exceeding the friction coefficient times the normal force and zero in frictionless mode; returned derivatives are those of the force. Only committed evaluations advance the memory, the largest approach never decreases until reset, and harmonic evaluation equals stepping the same law over the period after its maximum approach and does not disturb or depend on the quasi-static memory.",
 ["histories", "inputs", "configurations"],
 "every sequence of normal and tangential displacements, trial and committed evaluations, resets, friction-mode switches and harmonic evaluations, for both tangential models",
 "Tests follow a few monotone or cyclic loadings against stored reference curves.",
 ["tmdsimpy/jax/nlforces/roughcontact/rough_contact.py", "tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py"],
 [("static law and history", "RoughContactFriction.force, update_history, init_history"), ("asperity laws", "_asperity_functions.py"), ("periodic law", "RoughContactFriction.local_force_history, aft")],
 ["forces returned", "public history attributes"])

prop("R01", "Harmonic balance residuals are the exact projected equations of motion",
 "For every state, the forced, force-parameterized and base-excited harmonic balance residuals equal dynamic stiffness times coefficients plus the sum over all attached nonlinear forces minus external forcing, with static forcing never scaled by the load parameter and prescribed coordinates moved to the right places; the static residual is the zero-frequency analogue. The returned derivatives are the exact derivatives with respect to unknowns and parameter, asking for no derivatives gives the same residual, and evaluation changes no argument.",
 ["inputs", "configurations"],
 "every system (any number of degrees of freedom and nonlinear forces), harmonic list with or without mean and with gaps, forcing, frequency, load level and set of base coordinates",
 "Finite-difference tests sample a few states of a few systems and mostly include the mean harmonic.",
 ["tmdsimpy/vibration_system.py", "tmdsimpy/utils/harmonic.py"],
 [("hbm_res, hbm_res_dFl, hbm_base_res, static_res, total_aft", "tmdsimpy/vibration_system.py")],
 ["residual and derivatives returned", "arguments after the call"])

prop("R02", "Controlled and resonance residuals add exactly their defining conditions",
 "For every state, the amplitude-controlled, amplitude-and-phase-controlled, nonlinear-mode and superharmonic-phase-resonance residuals equal the harmonic balance equations with the stated unknown forces, damping or amplitude scaling, followed by exactly the defining scalar conditions in the documented order (response amplitude of the chosen derivative order, zero sine response, unit modal mass and phase anchor, orthogonality of superharmonic force and response, optionally filtered and scaled). The returned derivatives with respect to all unknowns and the continuation parameter are the exact derivatives, and asking for none gives the same residual.",
 ["inputs", "configurations"],
 "every system, harmonic list, output vector, derivative order, target amplitude, resonance harmonic, filter, scale and state",
 "Finite-difference tests sample a few states; block placement errors only appear for particular harmonic lists, sizes and parameters.",
 ["tmdsimpy/vibration_system.py"],
 [("hbm_amp_control_res, hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res, epmc_res, vprnm_single_eqn, vprnm_res, vprnm_amp_phase_res", "tmdsimpy/vibration_system.py")],
 ["residual and derivatives returned"])

prop("R03", "System-level history, friction-mode and damping operations reach every force",
 "For every sequence of system operations, history resets and commits reach every history-dependent force and no other, switching to frictionless mode and back reaches every force that supports it and restores the original strength however often it is repeated, and starting positions for harmonic analysis are handed to every force that takes them. Static residuals always reflect the committed state of all forces and never change it, forces are summed whatever their order, and changing the damping affects exactly the damping and what is derived from it.",
 ["histories", "configurations"],
 "every sequence of adding forces, resets, commits, mode switches, starting-position settings, damping changes and static or harmonic evaluations over mixed sets of forces",
 "These operations are tested one at a time with one or two forces; their interleavings are not.",
 ["tmdsimpy/vibration_system.py"],
 [("init_force_history, update_force_history, set_prestress_mu, reset_real_mu, set_aft_initialize, set_new_C, static_res", "tmdsimpy/vibration_system.py")],
 ["static and harmonic residuals after each operation", "calls received by supplied force objects"])

prop("R04", "Time-domain periodicity residuals integrate the full equations of motion",
 "For every system with displacement-dependent memoryless forces and every state, the shooting residual is the difference between the state after one forcing period and the initial state of the complete equations of motion, with all attached forces and cosine and sine forcing, and its derivatives are those of the flow map. The reported time series are the trajectory at equal fractions of the period, and stability is reported exactly when no Floquet multiplier of that trajectory leaves the unit circle.",
 ["inputs", "configurations"],
 "every system of memoryless forces (none, one or several), forcing vector, frequency, initial state and sample count",
 "Tests use one system with a single nonlinear force and cosine forcing.",
 ["tmdsimpy/vibration_system.py", "tmdsimpy/postprocess/shooting.py"],
 [("shooting_res and its state derivative", "tmdsimpy/vibration_system.py"), ("time_stability", "tmdsimpy/postprocess/shooting.py")],
 ["residual, derivatives, trajectories and stability returned"])

prop("P01", "Saved and printed continuation records are complete, ordered and append-only",
 "However runs, restarts and callbacks are sequenced, the save file always holds every reported point and direction exactly once in call order, appended to what was already there, and each text report holds one header written when the file is created and one row per call with the values of that call in the documented columns and units. Combining callbacks calls each of them once per point in the listed order with the same arguments, and none of them modifies its arguments or another file.",
 ["histories", "configurations"],
 "every sequence of callback calls over several files, including restarts onto existing files, and every harmonic layout and output selection",
 "Tests write a few points into fresh files.",
 ["tmdsimpy/utils/continuation.py"],
 [("continuation_save, combine_callback_funs, print_* functions", "tmdsimpy/utils/continuation.py")],
 ["contents of the files after every call"])

prop("P02", "Interpolated continuation curves pass through the data and never extrapolate",
 "Linear interpolation of a solution history returns at every requested value the exact convex combination of the two neighbouring solutions, reproduces stored solutions at stored values, and marks values outside the range as undefined. Hermite interpolation and up-sampling reproduce every stored solution and slope, are exact for branches that are cubic in the parameter, keep the requested parameter values, place the requested number of points between neighbours, and refuse values out of range or non-monotone data; the inputs are not modified.",
 ["inputs", "configurations"],
 "every solution history with monotone parameter, reference column, requested values (inside, at, between, outside) and up-sampling factor",
 "Tests interpolate one or two analytic curves at regular points.",
 ["tmdsimpy/postprocess/continuation.py"],
 [("linear_interp, hermite_interp, hermite_upsample", "tmdsimpy/postprocess/continuation.py")],
 ["return values", "arguments after the call"])

prop("P03", "Post-processed local forces are the ones used in the harmonic equations",
 "For every system and harmonic solution, the local harmonic displacements, displacement samples, force samples and force harmonics reported per nonlinear force belong together, are listed in the order the forces were added, and summing their force harmonics through the output transformations gives the nonlinear force used in the harmonic equations.",
 ["inputs", "configurations", "histories"],
 "every mixed set of memoryless and history-dependent forces, harmonic list, frequency and sample count, after any preceding evaluations",
 "One test covers a few force types at one state.",
 ["tmdsimpy/postprocess/harmonic.py"],
 [("local_harmonic_forces", "tmdsimpy/postprocess/harmonic.py")],
 ["return values compared with total harmonic force"])

prop("M01", "Reduced-order responses reproduce the backbone they are built from",
 "Response curves generated from nonlinear-mode and resonance-tracking backbones satisfy, at every returned frequency, the single-mode response equation with the amplitude-dependent frequency, damping and shape interpolated from the backbone, in the returned layout; prescribed-force curves have the prescribed modal force at every point and prescribed-displacement curves the prescribed response amplitude and phase. Points outside the backbone's range are excluded, refused or marked undefined, static components pass through unscaled, and the result does not depend on the choice of units.",
 ["inputs", "configurations"],
 "every backbone with monotone amplitude, harmonic list, force or displacement level, output location and frequency set",
 "Tests rebuild linear systems and one nonlinear example.",
 ["tmdsimpy/roms/epmc.py", "tmdsimpy/roms/vprnm.py"],
 [("constant_force, constant_displacement", "tmdsimpy/roms/epmc.py"), ("constant_h1_displacement", "tmdsimpy/roms/vprnm.py")],
 ["returned response curves"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
