"""The property catalogue: tools/make_files.py writes properties.jsonl and MANIFEST.json from it."""

D = 'cbx/dynamics/'
ROWS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe, note, state=()):
    ROWS.append(dict(pid=pid, title=title, statement=' '.join(statement.split()), over=over, qtext=' '.join(qtext.split()),
                     why=' '.join(why.split()), files=files, mech=mech, observe=observe, note=' '.join(note.split()),
                     state=list(state)))


P('C01', 'The consensus point is the Gibbs-weighted mean of each run',
  '''In every step of the consensus dynamics, each active run's consensus point equals the mean of that run's own
  particles (of the mini-batch if one is used; of the historical best positions for the memory variants) weighted by
  exp(-alpha*f), so it lies in their convex hull and does not change when a constant is added to the objective.
  It stays finite and normalised for every finite energy and alpha, tends to the best particle for large and to the plain
  mean for small alpha, and particles with objective value +inf get no weight. If asked for, the positions at which it was evaluated are recorded.''',
  ['inputs', 'configurations', 'histories'],
  '''all ensembles (M, N, domain shape), objectives with finite or +inf values, alpha (per run or shared) including extreme
  values, batch settings and iteration counts''',
  '''The tests compare one weighted mean on a single benign ensemble; ties, huge alpha*f, per-run alpha, mini-batches,
  array-shaped domains and runs that ended are not reached.''',
  [D + 'pdyn.py', D + 'cbo_memory.py', D + 'pso.py', D + 'hypersurfacecbo.py'],
  [('log-sum-exp normalised weights', D + 'pdyn.py:compute_consensus_default'),
   ('selection of batch and active runs', D + 'pdyn.py:CBXDynamic.compute_consensus')],
  ['dyn.consensus after step()', 'points passed to the objective'],
  '''Random exploration against an independent per-run long-double reference; tolerance scales with the rounding of
  alpha*f. All-infeasible batches are outside the oracle.''',
  [dict(name='consensus', meaning='one point per active run', where=D + 'pdyn.py')])

P('C02', 'One CBO step moves particles by drift plus scaled noise, exactly as documented',
  '''A CBO step replaces every updated particle x by x - lamda*dt*H*(x-c) + sigma*n, where c is the consensus of its run, n the
  selected noise and H the selected correction (1, Heaviside, or its regularisation of f(x)-f(c)); particles outside the
  updated set and ended runs stay exactly where they are. Each step advances the iteration counter by one and the time by dt,
  and without noise particles move only along the segment to the consensus.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, step sizes, parameters, noise models, corrections, batch settings and numbers of steps',
  'Existing tests check that a step runs and one drift sign; they fix parameters, domain shapes and single runs.',
  [D + 'cbo.py', D + 'pdyn.py', 'cbx/correction.py'],
  [('cbo_update', D + 'cbo.py:cbo_update'), ('pre/inner/post step', D + 'pdyn.py:ParticleDynamic.step')],
  ['dyn.x before and after step()', 'numbers drawn from the sampler', 'dyn.it', 'dyn.t'],
  'Each generated step is recomputed from the pre-step state and the recorded random numbers.')

P('C03', 'Noise models produce the documented increments',
  '''For a given drift and standard normal numbers z, constant noise is sqrt(dt)*z, isotropic noise is
  sqrt(dt)*|drift|*z per particle, anisotropic noise is sqrt(dt)*drift*z per coordinate, and covariance (sampling) noise is
  sqrt(2*dt/lambda)*C^(1/2)*z with the Gibbs-weighted covariance C of the drift and lambda = 1/(1+alpha) in sampling mode.
  Every particle and coordinate uses its own random number, noise vanishes with the drift for all models but the constant one,
  and unknown model names are rejected. The exponential sampler returns independent double exponential numbers (mean zero,
  modulus exponentially distributed with mean one, fair independent signs) of the requested size.''',
  ['inputs', 'configurations'],
  'all drifts (shape, magnitude, zero, repeated), step sizes, alphas and model names',
  'No test pins the formulas; wrong scalings or shared random numbers still produce plausible optimisation runs.',
  ['cbx/noise.py', D + 'pdyn.py'],
  [('noise classes', 'cbx/noise.py'), ('covariance', D + 'pdyn.py:CBXDynamic.update_covariance')],
  ['return value of dyn.noise()', 'calls of the sampler'],
  'Direct formula comparison plus linearity/zero laws; the sampler itself is checked by loose fixed-seed moments.')

P('C04', 'Runs simulated together do not influence each other',
  '''Simulating M runs in one dynamic gives, for every run, the same trajectory, energies, best particle, evaluation count and
  stopping behaviour as simulating that run alone with the same initial particles, parameters and random numbers.
  This holds for every dynamic, noise model, correction, kernel and scheduler, also after some of the runs have stopped.''',
  ['inputs', 'configurations', 'histories'],
  'all numbers of runs, ensembles, per-run alphas, dynamics, noise models, corrections, kernels, schedulers and stopping patterns',
  'Tests only use several runs for shape checks; cross-run coupling (a reduction over the wrong axis) leaves shapes intact.',
  [D + 'pdyn.py', D + 'polarcbo.py', 'cbx/noise.py', 'cbx/correction.py', 'cbx/scheduler.py'],
  [('run axis kept separate', D + 'pdyn.py'), ('active run indices', D + 'pdyn.py:select_active_runs')],
  ['dyn.x', 'dyn.energy', 'dyn.best_energy', 'dyn.num_f_eval', 'dyn.alpha'],
  'Differential test joint against single runs, with one random stream per run; mini-batch permutations are excluded because they come from one shared generator.')

P('C05', 'Trajectories respect the symmetries of the scheme',
  '''Renumbering the particles of a run (together with their random numbers) renumbers the result; translating the initial
  particles and the objective translates the whole trajectory; scaling the objective by s>0 while dividing alpha by s changes
  nothing; scaling the unit of length (particles, minimiser, kernel width, size of the constraint set) scales the trajectory. With
  isotropic noise a rotation, and with anisotropic noise a sign flip or permutation of coordinates, of particles,
  objective and random numbers carries over to the trajectory.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, objectives, permutations, translations, scalings of values and of lengths, and orthogonal transformations',
  'Metamorphic relations between two runs are not tested at all.',
  [D + 'cbo.py', D + 'pdyn.py', 'cbx/noise.py', D + 'pso.py', D + 'cbo_memory.py', D + 'polarcbo.py'],
  [('index-free formulas', D + 'pdyn.py'), ('noise models', 'cbx/noise.py')],
  ['dyn.x', 'dyn.consensus', 'dyn.best_energy'],
  'Metamorphic comparison of two simulated trajectories with a tolerance for rounding; near-ties amplified by large alpha are kept small by bounding alpha*f.')

P('C06', 'The reported best particle really attains the reported best energy',
  '''At every moment of a run, the best energy is the smallest objective value among all evaluated positions of the ensemble,
  the best particle is a position with exactly that value, and the best energy never increases.
  The current best energy and particle of the last evaluation likewise belong together, and optimize returns the best particles of all runs.''',
  ['inputs', 'configurations', 'histories'],
  'all dynamics, objectives (with ties, +inf values), batch settings, stopping patterns and numbers of steps',
  'Tests check that optimize returns something close to a minimum for one objective; consistency of the bookkeeping over histories is not checked.',
  [D + 'pdyn.py', D + 'cbo_memory.py', D + 'pso.py', D + 'driftconstrainedcbo.py', D + 'cbs.py'],
  [('update_best_cur_particle', D + 'pdyn.py'), ('update_best_particle', D + 'pdyn.py')],
  ['dyn.best_energy', 'dyn.best_particle', 'dyn.best_cur_energy', 'dyn.best_cur_particle', 'optimize() return value'],
  'Oracle: the harness objective records every evaluated point. With mini-batches the current-best pair is a known finding. The clause about the minimum over all evaluations counts the ensemble evaluations, not evaluations at consensus points.')

P('C07', 'Function evaluations are counted exactly, per run',
  '''For every run, the reported number of function evaluations equals the number of points of that run at which the objective
  was evaluated, including the construction-time evaluations, those of corrections and stopping criteria, and mini-batches.
  Ended runs are not charged any more.''',
  ['inputs', 'configurations', 'histories'],
  'all dynamics, batch settings, corrections, stopping criteria, numbers of runs and steps',
  'One test checks one count for one CBO configuration.',
  [D + 'pdyn.py', D + 'cbo_memory.py', D + 'pso.py', 'cbx/correction.py', 'cbx/utils/termination.py'],
  [('eval_f', D + 'pdyn.py:CBXDynamic.eval_f'), ('correction count', 'cbx/correction.py')],
  ['dyn.num_f_eval', 'calls of the objective'],
  'Exact counting oracle (recording objective with per-run markers).')

P('C08', 'A run stops when its criterion fires and is left untouched afterwards',
  '''The optimisation loop takes no further step of a run as soon as one of its criteria holds for it, and goes on exactly as long
  as some run has no criterion fulfilled. From then on positions, energies, best values, evaluation counts and memory of the
  ended run stay bit-for-bit unchanged while other runs continue, and the recorded reason names the fulfilled criteria.''',
  ['inputs', 'configurations', 'histories'],
  'all dynamics and stopping patterns (which run stops when, by which criterion)',
  'Tests stop all runs at once; partial termination is never exercised with more than trivial configurations.',
  [D + 'pdyn.py', 'cbx/utils/termination.py', 'cbx/utils/resampling.py'],
  [('select_active_runs', D + 'pdyn.py'), ('active index in every update', D + 'pdyn.py')],
  ['dyn.x', 'dyn.energy', 'dyn.term_reason', 'dyn.num_f_eval', 'number of steps'],
  'Scripted per-run criteria drive arbitrary stopping schedules; each state component is compared bitwise.')

P('C09', 'Built-in stopping criteria fire exactly by their definitions',
  '''max-it stops at the given number of iterations, max-time when the elapsed time (the sum of the time steps made) reaches the limit, max-eval before another
  batch of evaluations would exceed the budget, energy-tol when the current best energy is below the tolerance, diff-tol when
  the mean update of the last step is below the tolerance, and energy-stagnation when the consensus energy had a standard
  deviation below the threshold over the last patience iterations, never earlier. All criteria decide for each run separately and can be given
  by any documented name spelling or dictionary, and a dictionary without a name is rejected.''',
  ['inputs', 'configurations', 'histories'],
  'all thresholds, ensembles, numbers of runs, dictionaries and histories',
  'Each criterion is tested on one scalar example, energy stagnation only for a single run.',
  ['cbx/utils/termination.py', D + 'pdyn.py'],
  [('criteria', 'cbx/utils/termination.py'), ('name lookup', 'cbx/utils/termination.py:select_term')],
  ['criterion return value per run', 'iteration at which optimize stops'],
  'Reference predicates evaluated on the same histories; comparisons within rounding of a threshold are outside the oracle.')

P('C10', 'Mini-batches cover all particles fairly and stay within the ensemble',
  '''Every batch of a run consists of distinct particles of the requested size (at most N) unless the concatenating variant
  bridges two passes, and within one pass over the ensemble no particle is used twice; concatenation uses every particle exactly once per pass.
  With partial updates exactly the batch moves, otherwise all particles of active runs do; batches are drawn independently for each run
  and are reproducible from the batch seed.''',
  ['inputs', 'configurations', 'histories'],
  'all N, batch sizes, seeds, variants, numbers of runs and steps',
  'Tests check shapes of index arrays for one configuration.',
  [D + 'pdyn.py'],
  [('set_batch_idx_batched', D + 'pdyn.py'), ('init_batch_idx', D + 'pdyn.py')],
  ['points passed to the objective', 'which particles moved'],
  'Exact invariants over the sequence of batches; batches are observed through the evaluated points and the changed particles.')

P('C11', 'The tracked history is a faithful, independent record',
  '''Each tracked quantity gets one entry per save_int steps (starting with the first) holding the value it had at the end of that
  step, and the particle history additionally starts with the initial particles. Entries never change afterwards and are not
  shared with the live state or with other dynamics, tracking does not influence the optimisation, and reset restarts the record with the same configuration.''',
  ['inputs', 'configurations', 'histories'],
  'all sets of tracked names (known, generic attribute, extra trackers), save intervals, dynamics and numbers of steps',
  'Tests check lengths of one history and one key.',
  [D + 'pdyn.py', 'cbx/utils/history.py'],
  [('trackers', 'cbx/utils/history.py'), ('init_history/track', D + 'pdyn.py')],
  ['dyn.history'],
  'The harness snapshots the state after each step and compares with the record at the end; unknown names that are not attributes only warn.')

P('C12', 'After every step all particle positions are finite and bounded',
  '''The default post-processing replaces NaN by the threshold and clips positions to [-threshold, threshold], so that after each step
  all positions are finite whatever the objective or noise produced, and positions already inside are not altered.
  This holds for every dynamic that uses it, including the copying variant, and a user-supplied post-processing is called once per step instead.''',
  ['inputs', 'configurations', 'fault_sequences'],
  'all dynamics, objectives returning huge, infinite or NaN values, and noise of any magnitude',
  'No test feeds non-finite or huge values.',
  [D + 'pdyn.py', D + 'regcombinationcbo.py'],
  [('post_process_default', D + 'pdyn.py')],
  ['dyn.x after step()'],
  'Fault injection through objective and sampler (NaN, inf, 1e300). The simplification that NaN objective values may collapse a whole run is accepted.')

P('C13', 'Runs are reproducible and observation does not change them',
  '''Two dynamics built with the same arguments, initial particles and seed produce identical results, different seeds give
  different noise, and optimize gives exactly what a loop of stopping test, step and scheduler update gives.
  Verbosity, printing interval, tracking and reading the state never change the results, and no dynamic shares mutable state with another.''',
  ['inputs', 'configurations', 'histories', 'schedules'],
  'all dynamics, noise models, schedulers, batch settings, seeds, and interleavings of several dynamics',
  'No test compares two runs.',
  [D + 'pdyn.py', 'cbx/scheduler.py', 'cbx/utils/history.py'],
  [('seeded generator per dynamic', D + 'pdyn.py:set_array_backend_funs'), ('optimize loop', D + 'pdyn.py:optimize')],
  ['dyn.x', 'dyn.best_particle', 'dyn.history'],
  'Bitwise differential comparison with the seeded default generator; initial particles are given because their default initialisation uses the global NumPy generator.')

P('C14', 'Arguments passed by the caller are never modified',
  '''Initial particles, alpha arrays, batch, tracking and stopping dictionaries, lists of criteria, constraint, surface and mirror map
  descriptions, and arrays returned by the objective are left unchanged by constructing, running and resetting a dynamic, whatever the scheduler.
  The dynamic works on its own copies: overwriting the given particles, dictionaries or an array returned by the objective afterwards
  does not affect it.''',
  ['inputs', 'configurations', 'histories'],
  'all dynamics and argument combinations, any number of steps',
  'No test looks at its inputs after the call.',
  [D + 'pdyn.py', D + 'cbo_memory.py', 'cbx/utils/termination.py'],
  [('copy on construction', D + 'pdyn.py:init_x')],
  ['the caller\'s objects before and after'],
  'Deep comparison of the arguments, and a second run with arguments mutated after construction.')

P('C15', 'Objectives given for points, ensembles or runs mean the same',
  '''A function given as 1D (one point), 2D (array of points) or 3D (runs x points) yields the same value f(x[m,n]) for every particle and
  the same optimisation result, for every M and N including one. Objective objects count every evaluated point (reset sets the count to zero),
  non-callables and unknown dimension modes are rejected, and an objective with wrongly shaped output is rejected at construction.''',
  ['inputs', 'configurations'],
  'all functions, ensemble shapes (also M, N or d equal to one) and promotion modes',
  'Tests check output shapes for a few shapes.',
  ['cbx/utils/objective_handling.py', D + 'pdyn.py'],
  [('promotion', 'cbx/utils/objective_handling.py'), ('shape check', D + 'pdyn.py:check_f_dims')],
  ['values of the promoted objective', 'num_eval'],
  'Pointwise differential test against the plain function.')

P('C16', 'Benchmark objectives act pointwise with their documented formulas',
  '''Every benchmark objective returns, for input of shape (..., d), an array of shape (...) whose entries equal the documented formula at the
  single points, for all parameters and shapes including singleton axes. Values do not depend on the other points, inputs are not
  modified, and the evaluation counter grows by the number of points.''',
  ['inputs', 'configurations'],
  'all benchmark objectives, parameters, points and array shapes',
  'Tests only check the output shape for one 3-D array and default parameters.',
  ['cbx/objectives.py', 'cbx/utils/objective_handling.py'],
  [('apply methods', 'cbx/objectives.py')],
  ['objective values', 'num_eval'],
  'Differential test against independently written scalar formulas (math module).')

P('C17', 'Advertised minimisers of benchmark objectives are global minimisers',
  '''At each advertised minimiser the objective takes its documented minimal value, and no other point of the documented search domain has a
  smaller value (beyond the precision of the printed digits). This holds for every admissible shift and scale parameter.''',
  ['inputs', 'configurations'],
  'all points of the domain and all shift/scale parameters',
  'No test evaluates an objective at its advertised minima.',
  ['cbx/objectives.py'],
  [('minima attributes', 'cbx/objectives.py')],
  ['f(minima)', 'f(x) for generated x'],
  'Search (random points, local perturbations around minimisers, targeted descent) for a counterexample; never a proof of global minimality. drop_wave as implemented takes the value -2 at its minimiser: only the location is claimed there.')

P('C18', 'CBO with memory keeps the best position of every particle',
  '''After each step the historical best of a particle is the position with the lowest objective value it was evaluated at (earliest on ties),
  its stored energy is the objective value there and never increases. A step applies the consensus drift and noise
  towards the mean of the historical bests and then drift and noise towards the particle's own historical best with the memory parameters
  (sigma_memory defaults to lamda_memory*sigma).''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, objectives, parameters, batches, stopping patterns and numbers of steps',
  'One test only checks that a step runs.',
  [D + 'cbo_memory.py'], [('memory_step / y update', D + 'cbo_memory.py')],
  ['dyn.y', 'dyn.energy', 'dyn.x'],
  'Model-based: a per-particle record of evaluated points, and the step recomputed from recorded random numbers.',
  [dict(name='y', meaning='historical best positions', where=D + 'cbo_memory.py')])

P('C19', 'Particle swarm optimisation follows the damped second-order scheme',
  '''Each step sets v to (m*v - lamda*dt*H*(x-c) - lamda_memory*dt*(x-y) + noise terms)/(m+gamma*dt) and x to x+dt*v, so particles are pulled towards the consensus c of the
  historical bests and towards their own historical best y. Historical bests and their energies are updated as a running minimum over the
  evaluated positions, gamma defaults to 1-m and velocities start at zero.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, parameters, batches, stopping patterns and numbers of steps',
  'Tests check one step runs and which array the consensus uses.',
  [D + 'pso.py'], [('inner_step', D + 'pso.py')],
  ['dyn.x', 'dyn.v', 'dyn.y', 'dyn.energy'],
  'Each step recomputed from recorded state and random numbers; running-minimum model for y.',
  [dict(name='v', meaning='velocities', where=D + 'pso.py'), dict(name='y', meaning='historical best positions', where=D + 'pso.py')])

P('C20', 'AdamCBO uses bias-corrected moment estimates of the drift',
  '''Each step updates the exponential averages m and v of the drift and of its square with the given betas for the updated particles, and moves them by
  -lamda*m_hat/(sqrt(v_hat)+eps)+sigma*noise with the bias corrections 1-beta^k of step k. In the first step and without noise every
  coordinate with non-zero drift moves by lamda towards the consensus.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, betas, parameters, batches and numbers of steps',
  'A single smoke test.',
  [D + 'adamcbo.py'], [('update_moments', D + 'adamcbo.py')],
  ['dyn.x', 'dyn.m', 'dyn.v'],
  'Each step recomputed from recorded state and random numbers.')

P('C21', 'PolarCBO uses a kernel-localised consensus for every particle',
  '''The consensus of particle i is the mean of the particles of its run weighted by k(x_i,x_j)^(factor)*exp(-alpha*f(x_j)) with factor alpha or 1 by mode, hence in their hull, equal to the
  ordinary consensus for an infinitely wide kernel and to the particle itself for an infinitely narrow one. Each kernel is symmetric, positive, at most one, non-increasing in the
  distance and consistent with its negative logarithm, and the step follows the CBO formula with this consensus.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, kernels, radii, modes, alphas and numbers of runs',
  'One value test with one kernel and one run layout.',
  [D + 'polarcbo.py'], [('kernels', D + 'polarcbo.py'), ('compute_polar_consensus', D + 'polarcbo.py')],
  ['dyn.consensus', 'kernel values'],
  'Double-loop reference. The Taz kernel is relative to the ensemble diameter and only checked for its own laws.')

P('C22', 'Consensus-based sampling uses the weighted covariance correctly',
  '''The matrix square root is symmetric positive semi-definite with square equal to the (positive part of the) symmetric input, and the covariance used for the noise is
  the Gibbs-weighted covariance of the particles about their weighted mean. A CBS step is x - lamda*dt*(x-c) + sqrt(2*dt/lambda)*C^(1/2)*z with
  lambda=1/(1+alpha) in sampling and 1 in optimisation mode; batching and array-shaped domains are rejected.''',
  ['inputs', 'configurations', 'histories'],
  'all symmetric matrices (rank deficient, repeated eigenvalues, tiny/huge), ensembles and alphas',
  'Tests check one call of CBS and the shapes.',
  [D + 'cbs.py', D + 'pdyn.py', 'cbx/noise.py'],
  [('compute_mat_sqrt', D + 'pdyn.py'), ('update_covariance', D + 'pdyn.py'), ('covariance_noise', 'cbx/noise.py')],
  ['dyn.Cov_sqrt', 'dyn.x', 'compute_mat_sqrt()'],
  'Algebraic laws and per-run reference covariance.')

P('C23', 'Mirror maps and their inverses fit together',
  '''For every differentiable mirror map the inverse gradient map undoes the gradient on the domain, gradients and Hessians are the derivatives of the value, and
  Bregman distances are non-negative and zero at equality for convex maps. Projection maps return the nearest point of their set (ball, hyperplane, sphere, square boundary, Stiefel, simplex-valued for
  the entropy), leave its points fixed and act on each particle separately for any leading shape.''',
  ['inputs', 'configurations'],
  'all maps, parameters (radius, centre, normal, offset, scale), points including boundary, zero and huge ones',
  'Tests check that maps load and two feasibility examples.',
  [D + 'mirrorcbo.py'], [('mirror map classes', D + 'mirrorcbo.py')],
  ['grad', 'grad_conj', '__call__', 'hessian', 'Bregman_distance'],
  'Inverse laws, finite differences with scaled tolerances, projection characterisation by comparison with generated set points. weighted_L2.grad_conj declares itself not properly implemented and is excluded; Entropy is concave by its own convention, so only gradient/inverse laws are checked.')

P('C24', 'MirrorCBO performs the CBO update in the dual variable',
  '''Each step adds the CBO increment (drift and noise computed from the primal particles) to the dual particles and sets the primal particles to the inverse mirror image of the dual ones.
  The dual variable starts as the mirror image of the initial particles, primal particles satisfy the constraint of a projection map after every step, and
  with the identity map the dynamic equals CBO.''',
  ['inputs', 'configurations', 'histories'],
  'all mirror maps, ensembles, noise models, batches, corrections and numbers of steps',
  'Two feasibility checks after one step.',
  [D + 'mirrorcbo.py'], [('mirror_step', D + 'mirrorcbo.py')],
  ['dyn.y', 'dyn.x'],
  'Each step recomputed; feasibility invariant after each step; differential test against CBO.')

P('C25', 'Constraint derivatives and implicit solvers are consistent',
  '''For every constraint (plane, sphere, quadric with any matrix, none) the gradient and Hessian are the derivatives of the value, the squared versions are the derivatives of the squared value, and sums over
  several constraints add up. The implicit solvers return z with (I + factor*Hessian of the squared sum) z = w, respectively the documented systems with the constraint
  value times its Hessian, pointwise for any leading shape; with no constraint they return the right-hand side, and unsupported combinations are rejected.''',
  ['inputs', 'configurations'],
  'all constraints and lists of them, parameters, points, right-hand sides and factors',
  'Derivatives are tested for a few fixed constraints; solvers for one.',
  ['cbx/constraints.py'], [('constraint classes', 'cbx/constraints.py'), ('MultiConstraint', 'cbx/constraints.py')],
  ['constraint values, gradients, Hessians', 'solver results'],
  'Central differences of quadratic functions (exact up to rounding) and residuals of the linear systems; nearly singular systems are outside the oracle.')

P('C26', 'DriftConstrainedCBO performs the semi-implicit penalised step',
  '''Each step moves particles by -(I+dt/eps*Hess S(x))^(-1)(lamda*dt*(x-c)+dt/eps*grad S(x)+sigma*noise) where S is the sum of squared constraints, and by the plain explicit CBO step without constraints.
  The optional independent noise is applied exactly to runs whose mean squared distance to the consensus is below the threshold, until it is not, and
  uses the random source of the dynamic.''',
  ['inputs', 'configurations', 'histories'],
  'all constraints, eps, ensembles, noise models, batches and stopping patterns',
  'Smoke tests and one feasibility test.',
  [D + 'driftconstrainedcbo.py', 'cbx/constraints.py'],
  [('dc_inner_step', D + 'driftconstrainedcbo.py'), ('indep_noise_step', D + 'driftconstrainedcbo.py')],
  ['dyn.x'],
  'Each step recomputed with an independent penalty Hessian (reference derivatives, numpy solve).')

P('C27', 'RegCombinationCBO combines penalised objective and implicit constraint step',
  '''The dynamic minimises f plus the squared constraint value divided by nu, and each step solves (x - x_tilde) = -(dt/eps)*2*g(x_old)*grad g(x) for the new position x, with x_tilde the explicit CBO step.
  Without constraints it coincides with CBO, more than one constraint is rejected, and energies reported are those of the penalised objective.''',
  ['inputs', 'configurations', 'histories'],
  'all single constraints, eps, nu, ensembles, batches and stopping patterns',
  'Smoke tests.',
  [D + 'regcombinationcbo.py', 'cbx/constraints.py', 'cbx/regularizers.py'],
  [('inner_step', D + 'regcombinationcbo.py'), ('solve_Id_plus_call_grad', 'cbx/constraints.py')],
  ['dyn.x', 'dyn.energy'],
  'Residual of the implicit equation with independent derivatives; near-singular systems are outside the oracle.')

P('C28', 'HyperSurfaceCBO keeps particles on the surface',
  '''After every step all updated particles lie on the chosen surface (unit sphere, hyperplane, Stiefel manifold), ended runs stay unchanged, and the step is the projection of x + P(x)(lamda*dt*c+sigma*noise) minus the documented
  Ito correction. Projections are idempotent, tangent projections are orthogonal projections onto the tangent space, and
  the reported Laplacian is that of the signed distance on the surface.''',
  ['inputs', 'configurations', 'histories'],
  'all surfaces, ensembles, noise models, parameters and numbers of steps',
  'Smoke tests with one surface.',
  [D + 'hypersurfacecbo.py'], [('inner_step', D + 'hypersurfacecbo.py'), ('signed distances', D + 'hypersurfacecbo.py')],
  ['dyn.x'],
  'Feasibility invariant and step recomputation. Laplacian clause: sphere (d-1)/|x| and plane 0; the Stiefel constant is taken from the code; anisotropic noise is documented for the sphere only.')

P('C29', 'Schedulers update parameters exactly and respect the maximum',
  '''The multiplying scheduler sets the named parameter to min(maximum, factor*value) entrywise in each update, whatever its shape, touching nothing else. A composed scheduler applies its
  parts in order once per step, the default scheduler of consensus dynamics multiplies alpha by 1.05, and no scheduler leaves all parameters constant.''',
  ['inputs', 'configurations', 'histories'],
  'all parameter names, shapes, factors, maxima, compositions and numbers of steps',
  'One test multiplies alpha once.',
  ['cbx/scheduler.py', D + 'pdyn.py'], [('multiply', 'cbx/scheduler.py'), ('scheduler', 'cbx/scheduler.py')],
  ['the scheduled attributes'],
  'Model of the parameter dictionary updated in lockstep.')

P('C30', 'The effective-sample-size scheduler solves its equation',
  '''After an update alpha solves J(alpha)=eta*N for each run, where J is the effective sample size of the weights exp(-alpha*f), up to the resolution of the bisection, or is at the end of the interval when
  no solution exists; it stays within [minimum, maximum] and every run gets its own value, independent of constants added to the energies.
  Bisection returns a point whose bracket contains a sign change of a non-increasing function.''',
  ['inputs', 'configurations'],
  'all energies (ties, huge, tiny, +inf), eta, bounds and iteration limits',
  'One test with one energy array.',
  ['cbx/scheduler.py'], [('effective_sample_size', 'cbx/scheduler.py'), ('bisection_solve', 'cbx/scheduler.py')],
  ['dyn.alpha after update', 'bisection_solve()'],
  'Monotonicity of J gives a bracket oracle: the true root lies within the final bisection width of the returned value.')

P('C31', 'Drift corrections act pointwise by comparing with the consensus',
  '''The Heaviside correction keeps the drift of exactly those particles whose objective value exceeds that of the consensus and zeroes the others; the regularised version
  multiplies by (1+tanh((f(x)-f(c))/eps))/2; without correction the drift is unchanged. This holds for any number of runs, batches, domain shapes
  and user-supplied callables, and unknown names are rejected.''',
  ['inputs', 'configurations', 'histories'],
  'all drifts, objectives, eps, batches, domain shapes and stopping patterns',
  'One test for a single run without batches.',
  ['cbx/correction.py', D + 'pdyn.py'], [('correct', 'cbx/correction.py')],
  ['dyn.drift', 'return value of the correction'],
  'Pointwise reference; exact jumps of the Heaviside function are outside the oracle.')

P('C32', 'Resampling perturbs exactly the runs its rules select',
  '''Update-norm resampling selects runs whose last mean update is below the threshold, loss resampling those whose best energy did not improve for the given number of calls, consensus
  stagnation those whose consensus moved less than the threshold over the last patience steps. Selected active runs get sigma_indep*sqrt(dt)*z added, once even if several rules
  select them (or the user's apply(dyn, idx) is called with them), and are counted; all other runs are untouched, and the tracked best consensus is the best one seen at a resampling.''',
  ['inputs', 'configurations', 'histories'],
  'all rules and combinations, thresholds, numbers of runs and histories',
  'No tests at all.',
  ['cbx/utils/resampling.py'], [('resampling', 'cbx/utils/resampling.py')],
  ['dyn.x', 'num_resampling', 'best_consensus_energy'],
  'Model of each rule run in lockstep with generated histories.')

P('C33', 'Regularisers and regularised objectives compute what they say',
  '''L0 counts non-zero coordinates, L1 sums absolute values, plane, sphere and quadric regularisers give their (residual) distances, all pointwise for any leading shape. A regularised objective
  equals f + lamda*R^p for any number of runs and per-run lamda; the parameter rule raises lamda exactly for runs whose mean violation exceeds
  1/sqrt(theta), adapts theta accordingly and respects both maxima.''',
  ['inputs', 'configurations', 'histories'],
  'all regularisers, points, exponents, parameters and update sequences',
  'No tests at all.',
  ['cbx/regularizers.py'], [('regularisers', 'cbx/regularizers.py'), ('regularization_paramter_scheduler', 'cbx/regularizers.py')],
  ['regulariser values', 'dyn.f.lamda', 'theta'],
  'Scalar reference formulas and a lockstep model of the parameter rule (all runs active).')

P('C34', 'Success evaluation counts exactly the runs meeting all criteria',
  '''Distance criteria select the runs whose best particle is within the tolerance of the true minimiser in the given norm, value criteria those with objective value below the threshold, and the
  evaluation reports exactly the runs meeting all criteria with their number and rate. This holds for every number of runs (including one), dimension and norm, and evaluation does not change the dynamic.''',
  ['inputs', 'configurations'],
  'all best particles, minimisers, tolerances, norms, criteria lists and numbers of runs',
  'No tests at all.',
  ['cbx/utils/success.py'], [('success criteria', 'cbx/utils/success.py')],
  ['returned dictionaries', 'printed output'],
  'Loop reference; comparisons within rounding of a threshold are outside the oracle.')

P('C35', 'The torch backend reproduces the NumPy backend',
  '''A torch version of CBO started from the same particles with the same random numbers gives the same consensus, positions, energies, best particle and evaluation
  counts as the NumPy version, for every supported noise model, batch setting, scheduler and stopping pattern.
  Torch helpers (norm, consensus, polar consensus, post-processing, effective sample size) agree with their NumPy counterparts on every input.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, parameters, noise models, batches and stopping patterns supported by the torch backend',
  'Torch is only smoke-tested.',
  ['cbx/utils/torch_utils.py', D + 'pdyn.py'], [('to_torch_dynamic', 'cbx/utils/torch_utils.py')],
  ['dyn.x', 'dyn.consensus', 'dyn.energy', 'helper results'],
  'Differential test in double precision on CPU. Supported: CBO, MirrorCBO without map and PolarCBO with a torch kernel; covariance noise, Heaviside corrections and the memory dynamics are not supported by the torch backend.')

P('C36', 'Flattened network parameters evaluate like the original networks',
  '''Flattening the parameters of a list of networks and evaluating them from the flat vectors gives the outputs, losses and accuracies of the original networks, one row per network, for the same
  parameter order and subset of names. The property table describes consecutive, non-overlapping slices that cover the flat vector.''',
  ['inputs', 'configurations'],
  'all small architectures, numbers of networks, inputs and parameter orders',
  'No tests at all.',
  ['cbx/utils/torch_utils.py'], [('flatten_parameters', 'cbx/utils/torch_utils.py'), ('eval_models', 'cbx/utils/torch_utils.py')],
  ['eval_model(s) outputs', 'property table'],
  'Round trip against the live torch modules.')

P('C37', 'Plots show the data they are given',
  '''Plotting a dynamic or its history shows exactly the particles, consensus points and (negative) drifts of the selected run, dimensions and iteration, within the requested window of coordinates, and updating a plot replaces them by the
  values of the requested iteration. Objective curves and contours are evaluated on the requested rectangle, with the plotted
  coordinates in the requested dimensions and zeros elsewhere; missing history is rejected or ignored with a warning.''',
  ['inputs', 'configurations', 'histories'],
  'all ensembles, runs, dimension selections, iterations, rectangles and plot options',
  'Tests check that plotting does not crash.',
  ['cbx/plotting.py'], [('PlotDynamic', 'cbx/plotting.py'), ('contour_2D', 'cbx/plotting.py')],
  ['offsets of the matplotlib collections', 'points passed to the objective'],
  'Offsets read back from matplotlib (Agg). Consensus and drift while all runs are active (otherwise: known finding); histories with save_int=1.')

P('C38', 'Initial ensembles have the requested shape and distribution range',
  '''Given particles of shape (d,), (N,d) or (M,N,d...) are used as one, one or M runs with exactly these values; without particles, (M,N,d) values in [-1,1] are drawn and a missing dimension is rejected. Uniform initialisation stays within the given bounds,
  normal initialisation has the requested shape and scale, and unknown methods or shapes are rejected.''',
  ['inputs', 'configurations'],
  'all shapes, bounds, scales and methods',
  'One shape test.',
  ['cbx/utils/particle_init.py', D + 'pdyn.py'], [('init_particles', 'cbx/utils/particle_init.py'), ('init_x', D + 'pdyn.py')],
  ['dyn.x', 'dyn.M/N/d', 'init_particles()'],
  'Shape and range invariants, loose fixed-seed moments for the scale.')

P('C39', 'User-defined dynamics, hooks and callables are driven as documented',
  '''A dynamic derived from the base classes by overriding inner_step (and optionally the other hooks) is driven like the built-in ones: every step calls pre_step, inner_step, post_step once and in that order for
  exactly the runs still active, then post-processes; counters, update norms, best and current best particles and the history are those of the steps made. optimize() repeats such steps until every run ended, updates the scheduler once after every
  step, prints in the requested interval and returns the best particles. User-supplied noise models, norms, copy functions, termination criteria and extra tracks are used in place of the built-in ones, and the base
  classes themselves leave the ensemble where it is.''',
  ['inputs', 'configurations', 'histories'],
  'all affine user-defined dynamics on both base classes, ensembles, stopping patterns, schedulers, print and save intervals, and user-supplied callables',
  'Tests derive one trivial dynamic and check a single attribute.',
  [D + 'pdyn.py', 'cbx/utils/history.py', 'cbx/scheduler.py'],
  [('ParticleDynamic.step and optimize', D + 'pdyn.py'), ('CBXDynamic hooks', D + 'pdyn.py'), ('history tracking', 'cbx/utils/history.py')],
  ['order of the hook calls', 'dyn.x, best_particle, best_energy, update_diff, history, it, t'],
  'Lockstep model of the bookkeeping around a known affine step; a user-defined inner_step evaluates the objective before it moves the particles, like the built-in ones.')
