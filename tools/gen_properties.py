"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
PB, SO, MO, OC, OP, AM, RK, HE, UT, TY = ['nosnoc/' + f for f in (
    'problem.py', 'solver.py', 'model.py', 'ocp.py', 'nosnoc_opts.py', 'auto_model.py',
    'rk_utils.py', 'helpers.py', 'utils.py', 'nosnoc_types.py')]

prop('C01', 'Every element carries exactly the Runge-Kutta equations of its scheme',
     'For every finite element and every Runge-Kutta stage, the assembled problem contains, as equalities with zero bounds, the stage equation of the selected representation (integral collocation, differential, or differential with lifted states) built from the scheme coefficients, the step size, the speed-of-time factor and the model dynamics at that stage, plus the algebraic equations of the model at that stage. When the scheme does not end on the element boundary, or the differential representation is used, the end state is tied to the quadrature of the stage values; if no stage lies on the element boundary and another element of the same control stage follows, the switching equations of the model also hold at the end state. No stage equation is missing, duplicated with other coefficients, or evaluated at another stage\'s state, algebraic variables, control or parameters.',
     ['inputs', 'configurations'],
     'all models, all n_s, all element and stage counts, all three representations, both IRK schemes, FESD on and off',
     'Tests solve a handful of one-to-five-state examples and compare end points; a coefficient or index that is wrong for another n_s, representation or model size is not reached.',
     [PB], [('stage equations', PB + ':FiniteElement.forward_simulation'), ('stage states', PB + ':FiniteElement.X_fe'), ('stage algebraics', PB + ':FiniteElement.rk_stage_z')],
     observe=['problem.g, problem.lbg, problem.ubg'])
prop('C02', 'Butcher tableaux are consistent and reach their declared order',
     'For every supported scheme and number of stages, the tabulated coefficients satisfy the row-sum condition, the quadrature order conditions up to the declared order, the collocation (stage order n_s) conditions, and Radau IIA is stiffly accurate with its last node at 1. The integral-form coefficients are derived from the collocation nodes of the same scheme by Lagrange interpolation (value at 1, derivative at the nodes, integral over the unit interval). An unsupported number of stages or an unknown scheme ends in an explicit error, never in an arbitrary tableau.',
     ['inputs', 'configurations'], 'every scheme and every n_s, not only the n_s in 1..4 used by tests',
     'Tests run n_s up to 4 at tolerances far above single digits of the tables; tables for n_s 5..9 are never evaluated.',
     [RK, OP], [('differential tableaux', RK + ':generate_butcher_tableu'), ('integral tableaux', RK + ':generate_butcher_tableu_integral')])
prop('C03', 'The state trajectory is one continuous chain from the initial state',
     'The first finite element starts from the initial-state parameter, every following element starts from the end state of the element directly before it, also across control-stage boundaries, and nothing else is used as a start value. The end state used for chaining, for the terminal cost and constraint, for path constraints at the boundary and for the returned trajectory is the same variable, or the stage expression equal to it (differential representation with an explicit right boundary point).',
     ['inputs', 'configurations'], 'all numbers of control stages and of finite elements per stage, uniform or not, all representations',
     'Tests use few stage/element layouts, mostly uniform; an off-by-one across stage boundaries for non-uniform layouts is not exercised.',
     [PB, SO], [('predecessor chaining', PB + ':NosnocProblem.__create_control_stage, __create_primal_variables'), ('initial state', PB + ':FiniteElementZero')])
prop('C04', 'Cross-complementarity covers every stage pair including the predecessor',
     'With FESD on, for every finite element each stage\'s convex multipliers are complementary to the dual multipliers of every stage of the same element and to the last multipliers of the preceding element, in both cross-complementarity modes. With FESD off, exactly the stage-wise pairs are imposed. No pair is dropped for any number of stages or position of the element.',
     ['inputs', 'configurations'], 'all n_s, element positions, both cross complementarity modes, Stewart and Step',
     'A dropped pair leaves simple examples solvable, so switch detection only degrades for particular data.',
     [PB], [('pairing', PB + ':FiniteElement.create_complementarity_constraints'), ('multiplier collections', PB + ':Lambda, Theta, get_Lambdas_incl_last_prev_fe')])
prop('C05', 'Each MPCC mode encodes its documented complementarity relaxation',
     'For each complementarity mode the constraint rows and bounds are the documented relaxation: product minus sigma equal or below zero (Scholtes), product against the bounded elastic slack (elastic modes, two-sided with both signs), Fischer-Burmeister residual (plus its weighted augmentation), or big-M with a binary switch. In every mode nonnegativity of both complementary quantities is enforced, by variable bounds or by the complementarity function, so that at the limit the product is zero and both are nonnegative. Step multipliers stay within [0, 1] from above.',
     ['inputs', 'configurations'], 'all complementarity modes, all vector sizes and all values of sigma, tau and slack',
     'Only some modes are solved in tests, on problems where the initial guess leads to the right sign.',
     [PB, TY], [('encodings', PB + ':NosnocFormulationObject.create_complementarity'), ('multiplier bounds', PB + ':FiniteElement.__init__')])
prop('C06', 'The complementarity residual covers every imposed multiplier pair',
     'The residual that is reported and that stops the homotopy is the maximum over all finite elements of all products of convex and dual multipliers that the cross-complementarity conditions require to vanish: with FESD each stage against each stage of the element and the predecessor\'s last multipliers, without FESD stage by stage. It is evaluated at the solution vector and parameters of the NLP just solved.',
     ['inputs', 'configurations'], 'all n_s, element layouts, both problem representations, FESD on and off',
     'An uncovered pair only matters when that pair is the last to converge.',
     [PB, SO], [('residual vector', PB + ':FiniteElement.get_complementarity_vector'), ('residual', PB + ':NosnocProblem.__init__ (J_comp)')])
prop('C07', 'Filippov systems are reformulated to the correct Stewart or Step DCS',
     'In Stewart mode the dynamics are the sum over subsystems of F_i theta_i with indicators g_i = -S_i c_i (or the given ones), stationarity g_i - lambda_i + mu_i = 0 and sum(theta_i) = 1; in Step mode each region weight is the product of alpha or 1 - alpha according to the sign matrix (zero entries ignored), c_i = lambda_p_i - lambda_n_i, with lambda_n paired to alpha and lambda_p to 1 - alpha; general inclusions use the given right-hand side and multipliers. This holds for every subsystem of a product system, and user algebraic equations are appended unchanged.',
     ['inputs', 'programs'], 'all models: number of subsystems, regions, switching functions, sign matrices, Stewart/Step/general inclusion',
     'Test models have one or two subsystems of equal size and simple sign matrices.',
     [MO, PB], [('reformulation', MO + ':NosnocModel.preprocess_model'), ('stage variable order', PB + ':FiniteElement.rk_stage_z')])
prop('C08', 'Parameter values are laid out exactly like the parameter symbols',
     'The numeric parameter vector given to the NLP solver, to the residual evaluation and to the problem dump has the same blocks in the same order as the symbolic parameter vector: per control stage the time-varying then the global parameters, then sigma, tau, the initial multipliers in the order in which the initial element stores them, then the initial state. Setting global or time-varying parameters changes exactly the corresponding block of every stage, and the initial multipliers are recomputed from the current initial state and first-stage parameters at every solve.',
     ['inputs', 'configurations', 'histories'], 'all models (numbers of subsystems and parameters), both representations, all stage counts, any sequence of set and solve calls',
     'Two layouts that agree for one subsystem differ for two; tests have no Step model with two subsystems and known initial multipliers.',
     [SO, PB, MO], [('values', SO + ':NosnocSolverBase.setup_p_val'), ('symbols', PB + ':NosnocProblem.__init__, __create_primal_variables'), ('initial multipliers', MO + ':compute_lambda00, lambda00_fun'), ('setters', SO + ':NosnocSolverBase.set'), ('dump', PB + ':NosnocProblem.dump')])
prop('C09', 'Step sizes are bounded and sum to the prescribed horizon',
     'With FESD each finite element has one step-size variable, bounded by (1 - gamma_h) and (1 + gamma_h) times the nominal step of its control stage (no upper bound if that is switched off) and initialised at the nominal step. With an equidistant control grid the steps of each control stage sum to terminal_time / N_stages, otherwise all steps sum to terminal_time, for any number of control stages. Without FESD every step is the nominal one, and the returned time grid is the cumulative sum of these steps starting at zero, with control times at the stage boundaries.',
     ['inputs', 'configurations'], 'all horizons, stage counts, per-stage element counts, grid options, FESD on and off',
     'Tests use uniform element counts and the equidistant grid almost everywhere.',
     [PB, SO], [('step variable', PB + ':FiniteElement.__init__, add_step_size_variable'), ('horizon', PB + ':NosnocProblem.__init__'), ('grid', SO + ':get_results_from_primal_vector')])
prop('C10', 'Step equilibration implements the selected mode between neighbours only',
     'Each step-equilibration mode adds its own term and nothing else: mean and delta heuristics penalise the squared deviation from the nominal step and from the previous step, relaxed modes weight the squared step difference by the switch indicator (optionally scaled by tanh), direct modes impose indicator times step difference as equality or complementarity. The indicator is the product over components of the products of summed duals and of summed multipliers of the two neighbouring elements. Modes comparing neighbours act only between elements of the same control stage, and nothing is added when FESD is off.',
     ['inputs', 'configurations'], 'all seven modes, all element positions and layouts',
     'All modes converge on the tested examples even when a term is wrong, because the optimum keeps equal steps.',
     [PB], [('equilibration', PB + ':FiniteElement.step_equilibration')])
prop('C11', 'Variables, bounds, guesses and index sets stay aligned',
     'Every optimisation variable is appended together with exactly one lower bound, upper bound and initial value of its length, and every constraint with bounds of its length; inconsistent lengths raise an error. Index sets handed out for states, multipliers, controls, steps, algebraics, binaries and global variables address exactly the variables of that kind, also after the element blocks are merged into the full problem at their offset. Every variable of the problem belongs to exactly one index set.',
     ['inputs', 'configurations'], 'all option combinations and dimensions',
     'A shifted index set only shows for layouts where the shifted slot holds a different kind of variable.',
     [PB, UT], [('append', PB + ':add_variable, add_constraint, _add_primal_vector'), ('merge', PB + ':NosnocProblem.__collect_final_element'), ('offset', UT + ':increment_indices')])
prop('C12', 'The objective is the running cost quadrature plus terminal cost',
     'The objective contains for every finite element the Runge-Kutta quadrature of the stage cost (weights of the scheme, step size, speed-of-time factor, stage state, control, parameters of that stage, global variables), plus the terminal cost at the final state with the parameters of the last stage, plus exactly the terms of the selected step-equilibration and elastic modes. Elastic modes either add the slack divided by sigma or scale the other cost by sigma and add the slack, as selected.',
     ['inputs', 'configurations'], 'all costs, schemes, representations, stage layouts, elastic modes and scalings',
     'Optimal trajectories of the tested problems are dominated by constraints, so a wrong weight or dropped cost term is not visible.',
     [PB], [('stage cost', PB + ':FiniteElement.forward_simulation'), ('assembly', PB + ':NosnocProblem.__init__')])
prop('C13', 'User bounds, path and terminal constraints are all enforced',
     'Bounds on states, controls, global variables and user algebraics are attached to every corresponding variable of the problem; the path constraint is imposed with its bounds at the end of every control stage, additionally at every finite element boundary or at every integrator stage if requested; the terminal constraint is imposed at the final state as an equality. Missing bounds default to unbounded (path constraints: equality to zero), and the parameters and control of the respective stage are used.',
     ['inputs', 'configurations'], 'all OCP data, path-constraint options, schemes and layouts',
     'Tests check few constraints at the points that happen to be active.',
     [PB, OC], [('variable bounds', PB + ':FiniteElement.__init__, __create_control_stage'), ('path constraints', PB + ':FiniteElement.forward_simulation'), ('terminal', PB + ':NosnocProblem.__init__'), ('defaults', OC + ':preprocess_ocp')])
prop('C14', 'Every user path complementarity is imposed at its own granularity',
     'Each row of the user path complementarities is imposed exactly once per integrator stage if it depends on states or user algebraics, otherwise exactly once per control stage if it depends on controls or time-varying parameters, otherwise exactly once globally. No row is lost for any element layout, and the imposed pair is the two columns of that row evaluated with the data of that stage.',
     ['inputs', 'configurations'], 'all path complementarity expressions and all (also non-uniform) element layouts',
     'The only tests with path complementarities use uniform layouts and one kind of row.',
     [PB, OC], [('classification', OC + ':preprocess_ocp'), ('imposition', PB + ':FiniteElement.create_complementarity_constraints, NosnocProblem.create_global_compl_constraints')])
prop('C15', 'Speed-of-time variables scale dynamics and cost consistently',
     'Without speed-of-time variables the factor is one; in local mode each control stage has its own bounded factor, in global mode one bounded factor is shared by all stages; in all cases the same factor multiplies both the dynamics and the running cost of exactly the elements of its stage, and its values are returned with the results. Factors start at one and respect the configured minimum and maximum.',
     ['inputs', 'configurations'], 'all three modes and stage layouts',
     'No test enables speed-of-time variables.',
     [PB, SO], [('creation', PB + ':__create_control_stage, __create_primal_variables'), ('use', PB + ':NosnocProblem.__init__, FiniteElement.forward_simulation')])
prop('C16', 'Initial guesses are written exactly where the user or strategy says',
     'Setting x, u, v_global, theta or w writes the given value to exactly the variables of that kind of the addressed control stage or finite element and to no other variable, and unknown fields or shapes raise an error. At each solve the current-state strategies set every state variable to the current initial state and keep everything else (from the start guess, or from the previous optimum if selected), the external strategy changes nothing, and the smoothed strategy places the state, multiplier and dual guess of each collocation time at the stage of that time.',
     ['inputs', 'histories', 'configurations'], 'all layouts, set/solve sequences and strategies',
     'A misplaced guess changes iteration counts but rarely the converged solution the tests look at.',
     [SO, OP], [('setters', SO + ':NosnocSolverBase.set'), ('strategies', SO + ':NosnocSolverBase.initialize'), ('nodes', OP + ':preprocess (irk_time_points)')])
prop('C17', 'The homotopy follows the configured schedule and warm-starts',
     'The homotopy starts at sigma_0 and performs at most the configured number of iterations; each NLP is solved with the current sigma, the problem bounds and the previous solution as start. It stops after an iteration whose complementarity residual is below comp_tol or whose sigma has reached sigma_N, and otherwise updates sigma by the selected linear or superlinear rule. If the iteration limit is not given it is derived from comp_tol, sigma_0 and the slope.',
     ['inputs', 'configurations', 'histories'], 'all option values and solver outcomes',
     'Tests only look at the converged result with nearly default schedules.',
     [SO, OP], [('loop', SO + ':NosnocSolver.solve'), ('update', SO + ':homotopy_sigma_update'), ('limit', OP + ':preprocess')])
prop('C18', 'All reported results describe the same final solution',
     'Every entry of the result dictionary is taken from the final solution vector (after polishing if selected): states at element ends in order, all stage values, controls, multipliers at the last stage of each element, algebraics, global variables, step sizes, and the signed objective value of that solution. Trajectories start with the initial state used for that solve; switch times are points of the returned time grid at which the active multipliers change.',
     ['inputs', 'configurations'], 'all problems, options and solution vectors',
     'Tests check end states and the time grid, never switch times with more than two elements, objective values, or results after polishing.',
     [SO], [('results', SO + ':get_results_from_primal_vector'), ('stats', SO + ':NosnocSolver.solve, polish_solution')])
prop('C19', 'Reported status reflects the last NLP outcome and failures can stop',
     'The status is success exactly when the last solved NLP ended with one of the accepted solver return codes, and infeasible otherwise; an unsuccessful NLP is announced. A simulation loop asked to stop on failure stops after the first step that is not successful and tells its caller so.',
     ['inputs', 'histories'], 'all solver outcomes at every homotopy iteration and simulation step',
     'Tests contain no failing solve.',
     [SO, UT, HE], [('status', SO + ':NosnocSolver.solve'), ('success codes', UT + ':check_ipopt_success'), ('stop', HE + ':NosnocSimLooper.run')])
prop('C20', 'The simulation loop chains steps and accumulates all results',
     'Each simulation step starts from the end state of the previous one (the first from the given initial state), uses the parameter row and start guess of that step if given, and its results are appended once, in order, to every collected series; switch times are shifted by the time elapsed before the step, and the time grid is the cumulative sum of all steps from zero. The loop accepts only pure simulation problems and parameter arrays of matching shape.',
     ['inputs', 'histories'], 'all numbers of steps, parameter sequences, solver outcomes',
     'Tests compare the final state and grid of a few runs.',
     [HE, PB], [('loop', HE + ':NosnocSimLooper.run, get_results'), ('guard', PB + ':is_sim_problem')])
prop('C21', 'Independent objects and repeated solves do not influence each other',
     'Two option, model or OCP objects, and solvers built from distinct ones, share no mutable state: changing or preprocessing one never changes another. Solving leaves the bounds, constraints and symbols of the problem unchanged, so temporary fixations never leak into later solves, and arrays passed by the caller are never modified.',
     ['histories', 'inputs'], 'all sequences of constructing, configuring and solving in one process',
     'Tests run in one process and would pass or fail together; none constructs two differently configured objects and compares.',
     [OP, SO, MO, OC, PB, HE], [('options', OP + ':NosnocOpts'), ('bounds copies', SO + ':solve, polish_solution')])
prop('C22', 'Every option value is honoured, rejected, or warned about',
     'Options of the wrong type are rejected before anything is built; for every enumerated option each member is either implemented by every place that switches on it or rejected with an explicit error; combinations documented as unsupported produce a warning the user can see; and every declared option influences the behaviour. Derived options keep values the user set and are computed for unset ones.',
     ['configurations'], 'all option values and combinations',
     'The product of options is far larger than the tested combinations.',
     [OP, UT, PB, SO, MO, TY], [('validation', UT + ':validate'), ('preprocess', OP + ':NosnocOpts.preprocess'), ('switches', PB)])
prop('C23', 'Inconsistent model and OCP data are rejected before solving',
     'Model and OCP data whose sizes or kinds do not fit (region functions versus sign matrix or indicators, bounds and guesses versus dimension, parameter values versus parameter symbols, path complementarity width, missing or doubly given region definition, general inclusion in Stewart mode, missing clock for time freezing) raise an error during construction. Consistent data are accepted and missing optional data get defaults of the right size.',
     ['inputs'], 'all models and OCPs',
     'Tests cover five invalid inputs.',
     [MO, OC], [('model checks', MO + ':NosnocModel.__init__, preprocess_model'), ('OCP checks', OC + ':preprocess_ocp')])
prop('C24', 'Active-set fixing touches only sign-constrained multipliers',
     'Polishing fixes to zero or one only multipliers that are numerically at that value and never states, controls, steps, algebraics, global, speed-of-time, elastic or sign-free variables, and it handles every variable of the problem. Fixing the active set of the first element sets to zero exactly the multipliers of that element whose initial dual is positive. The solve after polishing uses these bounds with vanishing relaxation.',
     ['inputs', 'configurations'], 'all problems, options and iterates',
     'Polishing is tested on two problems whose free multipliers are nonnegative by coincidence.',
     [SO], [('polishing', SO + ':polish_solution'), ('first element', SO + ':NosnocSolver.solve')])
prop('C25', 'Least-squares handling keeps every constraint or refuses',
     'With least-squares constraint handling every constraint row is moved, squared and with unit weight, into the objective and no constraint remains; this is done only if all rows are equalities to zero, any inequality raises an error. The unreformulated constraint function stays available for diagnostics. With exact handling constraints and objective are untouched.',
     ['inputs', 'configurations'], 'all problems and complementarity modes',
     'Tests use problems with equalities only.',
     [PB], [('reformulation', PB + ':NosnocProblem.__init__')])
prop('C26', 'Automatic reformulation preserves the dynamics off the switching sets',
     'For dynamics built from smooth operations and non-nested sign, max and min, the reformulated model takes, for every combination of strict signs of the switching functions, the value of the original dynamics when the multipliers take their corresponding values; each introduced switching function is paired with its own multiplier or sign column. Dynamics that the selected reformulation cannot represent raise an error instead of giving another model.',
     ['programs', 'inputs'], 'all expression trees over the supported operations',
     'Tests rebuild three expressions with one switching function.',
     [AM], [('reformulation', AM + ':NosnocAutoModel')])
prop('C27', 'No supported call ends in an undefined name, attribute or result key',
     'Every name, module member, attribute of a library object, result key and method called in the package is defined on every path before it is used, and is called with the number of arguments and unpacked into the number of values it provides. Thus no option or API call can end in an internal name, attribute, key or unpacking error.',
     ['programs', 'configurations'], 'all functions and paths of the package',
     'Only executed paths can reveal an undefined reference.',
     ['nosnoc/'], [('definitions', 'nosnoc/*.py')])
prop('C28', 'The smoothed step model matches the sharp model in the limit',
     'The smoothed representation weights each region by the product over switching functions of the smooth step or its complement according to the sign matrix, normalised for zero entries so that full sign matrices give a partition of unity, sums the weighted dynamics of all subsystems, and uses soft minima of the same indicators as the sharp model for its dual multipliers. Smoothing parameters that are not positive, and models given by indicators only, are rejected.',
     ['inputs'], 'all models with switching functions and sign matrices',
     'Only one model is initialised with it in tests.',
     [MO], [('smoothing', MO + ':add_smooth_step_representation')])
prop('C29', 'Problem diagnostics flag exactly the inconsistent entries',
     'The problem print-out lists every constraint with its bounds and every variable with its guess and bounds, and marks and counts exactly those variables whose lower bound exceeds the upper bound or whose guess lies outside its bounds.',
     ['inputs'], 'all bound and guess vectors', 'No test inspects the print-out.',
     [PB], [('print', PB + ':NosnocProblem.print')])
prop('C30', 'Time freezing ties the clock state to the control grid',
     'With time freezing and an equidistant control grid, the physical clock of the model at the end of each control stage equals its initial value plus the elapsed share of the horizon, within the configured tolerance on both sides, for every control stage. Without time freezing no clock constraint is added, and time freezing without a clock is rejected.',
     ['inputs', 'configurations'], 'all stage counts, horizons, tolerances, initial clock values',
     'One example with one tolerance is solved.',
     [PB, MO], [('clock', PB + ':NosnocProblem.__init__'), ('clock function', MO + ':preprocess_model')])
prop('C31', 'Switches are located with the accuracy order of the scheme',
     'With FESD the computed trajectory converges to the exact nonsmooth solution, including the switching times, with the accuracy order of the underlying Runge-Kutta scheme as the step size goes to zero.',
     ['inputs', 'configurations'], 'all nonsmooth systems, schemes and step sizes', 'Tests check one tolerance on two systems.',
     [PB, RK], [('discretisation', PB)])
prop('C32', 'A converged homotopy satisfies complementarity to the tolerance',
     'If the problem is feasible and regular and the homotopy reports success, the returned solution satisfies the dynamics to the NLP tolerance and all complementarity conditions to comp_tol.',
     ['inputs', 'configurations'], 'all feasible regular problems', 'Convergence is checked on a few examples only.',
     [SO], [('homotopy', SO + ':NosnocSolver.solve')])
prop('C33', 'Differential and integral representations give the same solution',
     'For the same scheme and problem the three representations return the same state trajectory up to the NLP tolerance.',
     ['inputs', 'configurations'], 'all problems', 'Tests compare one example.',
     [PB], [('representations', PB + ':FiniteElement.forward_simulation')])
prop('C34', 'The vector field helper evaluates the smoothed Filippov field',
     'For a model in Stewart form, the function returned by create_function_calculate_vector_field maps state, control and algebraics to the sum over all subsystems of F_i(x, z, u, p, v) theta_i, where theta_i solves the Fischer-Burmeister smoothed Stewart conditions of the model indicators with the given smoothing (convex multipliers of every subsystem sum to one); in the limit this is the field of the active region or the sliding field. Other reformulations are rejected.',
     ['inputs', 'configurations'], 'all Stewart models, numbers of subsystems and regions, points and smoothing parameters',
     'No test calls the helper.',
     [SO], [('helper', SO + ':NosnocSolverBase.create_function_calculate_vector_field')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
