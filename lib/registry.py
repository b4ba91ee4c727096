"""What each property's check consists of."""
CONT_MODELS = [
    dict(spec='ContinuationMC', cfg='ContinuationMC', workers='4'),
    dict(spec='ContinuationMC', cfg='ContinuationGen', gen='cont'),
]
PROPS = {
    'C01': dict(models=CONT_MODELS, drivers=[('cont.py', 'ContinuationTrace', {'FOCUS': 'C01'})],
                rule='Scripts of corrector outcomes (all those of the bounded TLC model, sampled in quick; random '
                     'longer ones; several runs on one object) replayed into Continuation.continuation; a case is '
                     'non-trivial if the script goes beyond the start solve.'),
    'C02': dict(models=CONT_MODELS, drivers=[('cont.py', 'ContinuationTrace', {'FOCUS': 'C02'})],
                rule='As C01; step lengths observed in fixed point (2^-20) at every attempt.'),
    'S01': dict(models=[dict(spec='NewtonMC', cfg='NewtonMC')],
                drivers=[('newton.py', 'NewtonTrace', {'FOCUS': 'S01'})],
                rule='Random solver settings and scripted integer residuals / unimodular Jacobians chosen so that all '
                     'expected iterates are exact rationals on a 1/16 grid; undefined values, exceptions and zero '
                     'residuals injected; non-trivial: more than one iteration allowed.'),
    'S02': dict(models=[dict(spec='LineSearchMC', cfg='LineSearchMC', workers='2'),
                        dict(spec='LineSearchMC', cfg='LineSearchGen', gen='ls')],
                drivers=[('newton.py', 'NewtonTrace', {'FOCUS': 'S02'})],
                rule='All residual profiles along the step of the bounded model (projected residual in {-4,-1,0,1,4} '
                     'at every bisection point; sampled in quick) replayed into line_search, plus solves with line '
                     'search on scripted residuals.'),
    'S03': dict(models=[dict(spec='ServicesMC', cfg='ServicesMC', gen='services')],
                drivers=[('services.py', 'ServicesTrace', {})],
                rule='Operation histories (factor / solve with handle / solve) of the bounded model replayed with random '
                     'integer systems; eigenproblems with known integer eigenpairs, repeated on one object with default '
                     'and caller-owned index lists; conditioned integer polynomials; solvable problems given to both '
                     'solvers.'),
    'C03': dict(drivers=[('branch.py', 'BranchTrace', {}), ('cont.py', 'BranchTrace', {'FOCUS': 'C03'})],
                rule='Predictor and corrector at random integer states with rational weighted norm (exact); runs along '
                     'polynomial branches with 0 or 2 folds, 1-3 unknowns, both correctors, both solvers, static and '
                     'dynamic conditioning, in fixed point 1e-3; every third run repeated in rescaled units, others on the '
                     'same object; directions of scripted runs with failing attempts and fallback weights.'),
    'H01': dict(models=[dict(spec='HarmonicMC', cfg='HarmonicMC', workers='2')],
                drivers=[('harm.py', 'HarmonicTrace', {'FOCUS': 'H01'})],
                rule='Random sorted harmonic lists up to harmonic 7 with and without mean and gaps, 1-3 dofs, sample counts '
                     'with a common period of 192 points, integer coefficients / samples / matrices; numpy and JAX.'),
    'H02': dict(models=[dict(spec='HarmonicMC', cfg='HarmonicMC', workers='2')],
                drivers=[('harm.py', 'HarmonicTrace', {'FOCUS': 'H02'})],
                rule='Random layouts as H01 with up to 9 trailing entries, phases in 1/192 turns per row or common, '
                     'all kinds of floors, integer data.'),
    'H03': dict(models=[dict(spec='HarmonicMC', cfg='HarmonicMC', workers='2')],
                drivers=[('harm.py', 'HarmonicTrace', {'FOCUS': 'H03'})],
                rule='Random integer systems with integer mode shapes and rational eigenvalues, 1-3 modes, coupled and '
                     'several base dofs, all retained-mode counts, both solvers, all four kinds of starting point.'),
    'F01': dict(models=[dict(spec='FrictionMC', cfg='FrictionMC_iwan', workers='4'),
                        dict(spec='FrictionMC', cfg='FrictionMC_contact', workers='4'),
                        dict(spec='FrictionMC', cfg='FrictionGen_iwan', gen='iwan'),
                        dict(spec='FrictionMC', cfg='FrictionGen_contact', gen='contact')],
                drivers=[('friction.py', 'FrictionTrace', {'FOCUS': 'F01'})],
                rule='All histories of three operations of the bounded models (sampled in quick) and random histories of '
                     '3-14 operations (trial, commit, reset, frictionless mode, harmonic evaluations in between) on every '
                     'hysteretic element class with random integer data, maps Q, T and 1-2 contacts; exact comparison.'),
    'F02': dict(models=[dict(spec='FrictionMC', cfg='FrictionMC_iwan', workers='4'),
                        dict(spec='FrictionMC', cfg='FrictionMC_contact', workers='4')],
                drivers=[('friction.py', 'FrictionTrace', {'FOCUS': 'F02', 'PART': p})
                         for p in ('J,VJ,I,VI', 'JJ,JV', 'E2', 'E3')],
                rule='Integer sample series exactly representable by the harmonic list (18 list/sample combinations) as '
                     'global displacements and directions, all documented starting positions, repeated and interleaved '
                     'evaluations, all eight classes; coefficients and Jacobian-vector products within 1e-5 of the range.'),
    'F03': dict(models=[dict(spec='MemorylessMC', cfg='MemorylessMC')],
                drivers=[('memoryless.py', 'MemorylessTrace', {})],
                rule='All six element classes with random integer parameters (scalar or per dof), maps Q, T (1-3 local, 1-4 '
                     'global dofs); static evaluations compared exactly; harmonic evaluations of integer series in 18 '
                     'list/sample combinations, Jacobian along integer directions, frequency derivative, w from 0 to 3.'),
    'F04': dict(models=[dict(spec='RoughContactMC', cfg='RoughContactMC', workers='4'),
                        dict(spec='RoughContactMC', cfg='RoughContactGen', gen='rough')],
                drivers=[('rough.py', 'RoughTrace', {'PART': p}) for p in ('exact', 'tan', 'mif')],
                rule='Elastic constant-friction asperities in exact integers (all model histories of three operations, '
                     'sampled in quick; random histories of 3-15 operations; harmonic evaluations with derivative); '
                     'plastic and Mindlin-Iwan asperities by relations (learned normal curves, unloading law, limits, '
                     'repeat without trial evaluations, harmonic evaluation against stepping and finite differences).'),
    'R01': dict(models=[dict(spec='ResidualMC', cfg='ResidualMC', workers='4')],
                drivers=[('residual.py', 'ResidualTrace', {'FOCUS': 'R01'})],
                rule='Random integer systems of 1-3 dofs with 0-3 forces of integer quadratic law, 9 harmonic lists, integer '
                     'states, loads and frequencies; residual and every derivative column compared exactly with differences '
                     'of the specified residual; with and without derivatives; arguments compared before and after.'),
    'R02': dict(models=[dict(spec='ResidualMC', cfg='ResidualMC', workers='4')],
                drivers=[('residual.py', 'ResidualTrace', {'FOCUS': 'R02'})],
                rule='As R01 for amplitude, amplitude-phase (both forms), nonlinear-mode and superharmonic residuals and the '
                     'single phase condition; derivative orders 0-2, amplitudes 1-10, filters with 0-2 rows, scales.'),
    'R03': dict(models=[dict(spec='SystemsMC', cfg='SystemsMC', workers='4'),
                        dict(spec='SystemsMC', cfg='SystemsGen', gen='systems')],
                drivers=[('systems.py', 'SystemsTrace', {'FOCUS': 'R03', 'PART': p}) for p in ('np', 'E2', 'E3')],
                rule='All operation sequences of length three of the bounded model (sampled in quick) and random ones of 3-12 '
                     'operations (reset, commit, trial residual, frictionless mode and back, starting positions, harmonic '
                     'evaluation, damping change, force added late) on systems of 1-4 forces of all kinds and recording stubs '
                     'with every combination of capabilities; a second system operated in between.'),
    'P03': dict(models=[dict(spec='SystemsMC', cfg='SystemsMC', workers='4')],
                drivers=[('systems.py', 'SystemsTrace', {'FOCUS': 'P03', 'PART': p}) for p in ('np', 'E2', 'E3', 'rc')],
                rule='Systems of 1-4 mixed forces (all numpy elements, dry friction contacts with every kind of starting '
                     'position, cubic damping, rough contact) at integer displacement series; local displacement and force '
                     'samples exact, coefficients and their sum through the output maps in fixed point.'),
    'R04': dict(models=[dict(spec='ShootingMC', cfg='ShootingMC', workers='2')],
                drivers=[('shooting.py', 'ShootingTrace', {'PART': p}) for p in ('motion', 'exact', 'stab')],
                rule='Random systems of 1-3 dofs with 0-3 memoryless forces, cosine and sine forcing: the returned motion is '
                     'read sample by sample and must balance momentum and path over every two samples; systems turning whole '
                     'quarter turns per period (exact flow and flow derivative); systems with known multipliers and Jury test '
                     'for one dof; several solutions of different frequency per stability call.'),
    'P01': dict(models=[dict(spec='RecordsMC', cfg='RecordsMC', workers='4'),
                        dict(spec='RecordsMC', cfg='RecordsGen', gen='records')],
                drivers=[('records.py', 'RecordsTrace', {})],
                rule='All histories of three operations of the bounded model (sampled in quick) and random ones of 3-12 '
                     'operations: single and combined callbacks of all kinds over two archives and three reports, restarts '
                     '(module state lost), deleted files; whole folder compared after every operation.'),
    'P02': dict(models=[dict(spec='CurvesMC', cfg='CurvesMC', workers='4')],
                drivers=[('curves.py', 'CurvesTrace', {})],
                rule='Random integer histories of 1-7 points, ordered or not, own or separate references; requests at, '
                     'between, one rounding step outside and far outside stored values; slopes with differently scaled '
                     'directions; up-sampling by 1-10; branches cubic in the parameter; compared by cross-multiplication.'),
    'M01': dict(models=[dict(spec='RomMC', cfg='RomMC', workers='2')],
                drivers=[('roms.py', 'RomTrace', {'PART': p}) for p in ('epmc', 'vprnm')],
                rule='Random integer backbones (1-3 dofs, 7 harmonic lists, complex mode shapes, given or overridden '
                     'frequency, damping and modal force); every returned point must satisfy the response equation of its '
                     'backbone point, all real frequencies must be present; prescribed amplitudes at, between and outside '
                     'stored points; superharmonic curves with phases as witnesses; requested frequencies.'),
    'W01': dict(models=[dict(spec='WorkflowMC', cfg='WorkflowMC', workers='2')],
                drivers=[('workflow.py', 'WorkflowTrace', {'PART': p}) for p in ('np', 'time', 'super', 'rom', 'E2')],
                rule='Whole analyses with the real parts of the library: random models of 1-3 dofs with 0-3 forces of ten '
                     'kinds, prestressed contacts, nine formulations, both solvers and all their step strategies, both '
                     'correctors, conditioning, saved and printed records; every reported point is balanced row by row '
                     'in fixed point from the post-processed local forces.'),
}
