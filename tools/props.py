T = 'interfaces/acados_template/acados_template/'
C = T + 'c_templates_tera/'
N = 'acados/ocp_nlp/'
Q = 'acados/ocp_qp/'
S = 'acados/sim/'
HOOKS = dict(guard='none', enable='no hooks: every monitor observes through the public API, sanitizers and link-time interposition in /verif', source_commits=[])
NOTES = ('BLASFEO/HPIPM/OSQP come from the CasADi wheel through /verif/compat, DAQP is a stand-in there; templates are rendered by a '
         'minimal Tera renderer in /verif/lib because t_renderer is not installed. See DESIGN.md.')
NOT_APPLICABLE = {}
PROPS = []
BASE_WHY = ('The six offline tests build formulations and inspect Python objects; none of them generates, compiles or runs a solver, '
            'and a unit test only samples a few points of ')


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None),
                      technique=technique, note=note))


P('P01', 'Success status certifies a KKT point of the stated problem',
  'When a solver call returns the success status, the primal-dual iterate it exposes satisfies the first-order optimality conditions of the '
  'problem the user wrote down (with that formulation\'s dynamics, costs, bounds, slacks and current parameter values) within the '
  'user-chosen tolerances, and all inequality multipliers are nonnegative up to that tolerance. This holds for every nonlinear solver type, '
  'Hessian approximation, QP solver, globalization and integrator.',
  ['inputs', 'configurations'], 'every accepted formulation, solver option combination, initial guess and parameter value',
  BASE_WHY + 'the product of formulations, options and initial guesses.',
  [N + 'ocp_nlp_sqp.c', N + 'ocp_nlp_common.c', N + 'ocp_nlp_sqp_with_feasible_qp.c', N + 'ocp_nlp_ddp.c', C + 'acados_solver.in.c'],
  [('check_termination', N + 'ocp_nlp_sqp.c'), ('ocp_nlp_res_compute', N + 'ocp_nlp_common.c')],
  'runtime monitoring: independent KKT oracle over returned iterates of randomized problems',
  'Every success observed is re-evaluated with an independent CasADi/numpy model of the same problem; sampling of problems, no proof.')

P('P02', 'Reported cost and KKT residuals equal an independent evaluation',
  'At any iterate a user sets, the cost value and the four residuals (stationarity, equality, inequality, complementarity) the solver reports are the '
  'ones of the formulated problem at that iterate. This covers all cost and constraint types, slack formulations, integrators, parameters and cost scalings.',
  ['inputs', 'configurations'], 'every accepted formulation and every primal-dual iterate',
  BASE_WHY + 'iterates and formulations.',
  [N + 'ocp_nlp_common.c', N + 'ocp_nlp_cost_ls.c', N + 'ocp_nlp_cost_nls.c', N + 'ocp_nlp_cost_conl.c', N + 'ocp_nlp_cost_external.c',
   N + 'ocp_nlp_constraints_bgh.c', N + 'ocp_nlp_constraints_bgp.c', T + 'casadi_function_generation.py'],
  [('ocp_nlp_res_compute', N + 'ocp_nlp_common.c'), ('ocp_nlp_cost_compute', N + 'ocp_nlp_common.c')],
  'runtime monitoring: independent evaluation of cost and residuals at random iterates of randomized problems',
  'Reference built with CasADi differentiation and numpy; 1e-8 relative agreement; sampled formulations and iterates.')

P('P03', 'QP subproblems are the exact linearization of the problem',
  'The QP subproblem the solver assembles at an iterate consists of the exact first-order linearization of dynamics and constraints, the exact cost gradient, and the '
  'Hessian the chosen approximation stands for (Gauss-Newton, exact Lagrangian, user-supplied), including slack penalties and bounds. '
  'Its solution therefore is the corresponding (SQP) step of the formulated problem.',
  ['inputs', 'configurations'], 'every accepted formulation, Hessian option and iterate',
  BASE_WHY + 'iterates, formulations and Hessian options.',
  [N + 'ocp_nlp_common.c', N + 'ocp_nlp_dynamics_cont.c', N + 'ocp_nlp_dynamics_disc.c', N + 'ocp_nlp_cost_nls.c', N + 'ocp_nlp_constraints_bgh.c'],
  [('ocp_nlp_approximate_qp_matrices', N + 'ocp_nlp_common.c'), ('get_from_qp_in', T + 'acados_ocp_solver.py')],
  'runtime monitoring: QP data read back through the API compared with independently differentiated linearization',
  'Agreement 1e-8 with CasADi derivatives of an independent model at sampled iterates.')

P('P04', 'QP solver, condensing and numeric settings do not change the solution',
  'For a well-posed problem the solution found does not depend on which QP solver, condensing horizon, Riccati variant, warm start, '
  'thread count or QP preparation setting is selected; each choice yields the same primal solution and multipliers up to the tolerances.',
  ['configurations', 'inputs'], 'all pairs of QP-level settings on every strictly convex or locally well-posed problem',
  BASE_WHY + 'pairs of configurations.',
  [Q + 'ocp_qp_xcond_solver.c', Q + 'ocp_qp_partial_condensing.c', Q + 'ocp_qp_full_condensing.c', Q + 'ocp_qp_hpipm.c', Q + 'ocp_qp_osqp.c',
   'acados/dense_qp/dense_qp_hpipm.c', 'acados/dense_qp/dense_qp_daqp.c'],
  [('expansion after condensing', Q + 'ocp_qp_full_condensing.c')],
  'runtime monitoring: differential execution across settings with independent KKT oracle',
  'Solutions compared pairwise and to an independent KKT evaluation; HPIPM/OSQP real, DAQP through a stand-in QP solver.')

P('P05', 'Integrators reproduce the simulation they are defined to compute',
  'For every integrator type, stage count, number of steps, collocation rule, parameter and time value, the simulated next state (and algebraic variables) is the one '
  'of the stated Runge-Kutta or collocation scheme, and converges to the true solution at the order of the scheme. '
  'All integrator types agree on the same system, for standalone simulation and inside an optimal control problem.',
  ['inputs', 'configurations'], 'all models (explicit, implicit, DAE), schemes, states, inputs, parameters, step sizes',
  BASE_WHY + 'models, schemes and inputs.',
  [S + 'sim_erk_integrator.c', S + 'sim_irk_integrator.c', S + 'sim_lifted_irk_integrator.c', S + 'sim_gnsf.c', S + 'sim_collocation_utils.c', T + 'acados_sim_solver.py'],
  [('get_explicit_butcher_tableau', S + 'sim_collocation_utils.c'), ('sim_irk', S + 'sim_irk_integrator.c')],
  'runtime monitoring: reference collocation/Runge-Kutta recomputation and order-of-convergence oracle',
  'Sampled models and inputs; agreement to solver precision with an independent implementation and observed order.')

P('P06', 'Integrator sensitivities are the derivatives of the simulated map',
  'Forward and adjoint first-order sensitivities, Hessians, algebraic and parametric sensitivities returned by an integrator equal the derivatives of the very map it simulates; '
  'adjoint and forward modes are consistent for every seed.',
  ['inputs', 'configurations'], 'all integrators, seeds, models and points',
  BASE_WHY + 'seeds, models and points.',
  [S + 'sim_erk_integrator.c', S + 'sim_irk_integrator.c', S + 'sim_gnsf.c', S + 'sim_lifted_irk_integrator.c', N + 'ocp_nlp_dynamics_cont.c'],
  [('forward/adjoint propagation', S + 'sim_irk_integrator.c')],
  'runtime monitoring: derivative oracle (independent differentiation of the scheme, adjoint identity)',
  'Compared with derivatives of an independent implementation of the scheme at sampled points.')

P('P07', 'No memory error, undefined behaviour or leak on any accepted use',
  'Creating, configuring, solving, querying, resetting and destroying solvers and integrators of any accepted formulation never reads or writes outside the memory '
  'of the respective object, never uses uninitialized or freed memory, has no undefined behaviour and leaves no memory behind.',
  ['inputs', 'configurations', 'histories'], 'every accepted formulation and every sequence of API calls with valid arguments',
  'No offline test executes compiled code at all; memory errors stay silent without instrumentation.',
  [N + 'ocp_nlp_common.c', 'acados/utils/mem.c', 'acados/utils/external_function_generic.c', C + 'acados_solver.in.c', C + 'acados_sim_solver.in.c', 'interfaces/acados_c/ocp_nlp_interface.c'],
  [('calculate_size/assign pairs', N + 'ocp_nlp_common.c')],
  'AddressSanitizer + UndefinedBehaviorSanitizer builds of library and generated code under randomized API workloads; leak accounting',
  'Sanitizers see every memory access of acados and generated code; the prebuilt BLASFEO/HPIPM is not instrumented.')

P('P08', 'What is set is what is read, and nothing else changes',
  'After setting any field of a stage, reading that field returns exactly the values set, for every stage, field, array layout and access path (single fields, flat vectors, iterates, parameters, bounds), '
  'and no other stage or field changes. Arguments of wrong name, stage or shape are rejected without changing anything.',
  ['inputs', 'histories'], 'every formulation, field, stage, value and access path, in any order',
  BASE_WHY + 'fields, stages and call orders.',
  [T + 'acados_ocp_solver.py', 'interfaces/acados_c/ocp_nlp_interface.c', N + 'ocp_nlp_common.c', C + 'acados_solver.in.c'],
  [('set/get/constraints_set/cost_set', T + 'acados_ocp_solver.py'), ('ocp_nlp_out_set/get', 'interfaces/acados_c/ocp_nlp_interface.c')],
  'runtime monitoring: shadow-state model checked after every random API call',
  'Random API histories with a shadow copy of the whole observable state.')

P('P09', 'Solvers are deterministic, reset is complete, instances are isolated',
  'Solving the same problem from the same iterate gives bitwise the same result, whatever the solver did before a reset, how many other solver instances exist, or in which order their calls interleave. '
  'Reset leaves no trace of former iterates, failures or statistics that influences results.',
  ['histories', 'schedules'], 'all histories of solves, failures, resets and interleavings with other instances',
  BASE_WHY + 'call histories.',
  [C + 'acados_solver.in.c', N + 'ocp_nlp_common.c', N + 'ocp_nlp_sqp.c', Q + 'ocp_qp_hpipm.c'],
  [('acados_reset', C + 'acados_solver.in.c'), ('memory_reset_qp_solver', N + 'ocp_nlp_common.c')],
  'runtime monitoring: replay comparison of recorded result logs across random histories',
  'Bitwise comparison of recorded iterates/statistics of a probe solve after random histories.')

P('P10', 'Batch solvers equal independent sequential solves and are race free',
  'A batch call computes for each batch element exactly what a separate solver computes sequentially for that element\'s data, for every batch size, thread count and subset, including partial batches and sensitivities. '
  'There are no data races between elements, and flat batch getters and setters are consistent with the per-solver ones.',
  ['schedules', 'inputs', 'configurations'], 'all thread schedules, batch sizes, active subsets and per-element data',
  'Concurrency errors depend on the schedule; no offline test runs a batch.',
  [T + 'acados_ocp_batch_solver.py', T + 'acados_sim_batch_solver.py', C + 'acados_solver.in.c', C + 'acados_sim_solver.in.c', N + 'ocp_nlp_common.c'],
  [('acados_batch_solve', C + 'acados_solver.in.c')],
  'ThreadSanitizer on batch workloads plus differential comparison with sequential solves under thread/jitter variation',
  'OpenMP runtime replaced by a pthread shim under ThreadSanitizer; results compared exactly with sequential execution.')

P('P11', 'Parametric sensitivities are derivatives of the solution map',
  'At a regular solution, the forward and adjoint solution sensitivities, the optimal value gradient and its variants with respect to the initial state and global parameters equal the derivatives of '
  'the solution (value) that re-solving at perturbed parameters yields, and forward and adjoint evaluations are consistent.',
  ['inputs', 'configurations'], 'all formulations supported, parameters, seeds and stages',
  BASE_WHY + 'parameters and seeds.',
  [N + 'ocp_nlp_common.c', T + 'acados_ocp_solver.py', C + 'acados_solver.in.c'],
  [('eval_solution_sensitivity', T + 'acados_ocp_solver.py'), ('ocp_nlp_common_eval_lagr_grad_p', N + 'ocp_nlp_common.c')],
  'runtime monitoring: implicit-function oracle and finite differences of re-solves',
  'Compared with an independent implicit-function-theorem solution and with re-solves.')

P('P12', 'Status, statistics and failure reporting are truthful',
  'Iteration limits, minimal steps, timeouts, infeasible or failing subproblems and non-finite values are reported with the documented status and never as success; iteration counts and per-iteration statistics '
  'match the iterations that really happened, and the time statistics are consistent. A failed call leaves the solver usable.',
  ['fault_sequences', 'inputs', 'histories'], 'all failure causes at every iteration, stage and call history',
  BASE_WHY + 'fault positions.',
  [N + 'ocp_nlp_sqp.c', N + 'ocp_nlp_sqp_rti.c', N + 'ocp_nlp_common.c', T + 'acados_ocp_solver.py'],
  [('check_termination', N + 'ocp_nlp_sqp.c'), ('get_stats', T + 'acados_ocp_solver.py')],
  'runtime monitoring with injected faults (non-finite data, infeasible data, iteration limits) and trace checking of statistics',
  'Faults injected through parameters, bounds and limits at random stages/iterations; statistics checked against stored iterates.')

P('P13', 'Globalization only accepts steps that its rule allows',
  'With globalization enabled, every accepted step satisfies the selected rule: the merit function or funnel condition decreases as documented, step sizes stay within the configured bounds, feasible-direction '
  'variants keep their guarantees, and near the solution full steps yield the unglobalized solution.',
  ['inputs', 'histories', 'configurations'], 'all problems, initial guesses and globalization options',
  BASE_WHY + 'iterate histories.',
  [N + 'ocp_nlp_globalization_merit_backtracking.c', N + 'ocp_nlp_globalization_funnel.c', N + 'ocp_nlp_globalization_fixed_step.c', N + 'ocp_nlp_ddp.c'],
  [('line search', N + 'ocp_nlp_globalization_merit_backtracking.c')],
  'runtime monitoring: online checking of stored iterates and step sizes against the documented acceptance rules',
  'Iterate logs of real solves are re-evaluated with an independent cost/constraint model.')

P('P14', 'Regularization yields the documented positive semidefinite Hessians',
  'Each regularization method turns the (possibly indefinite) Hessian into one that satisfies the definition of the method, leaves sufficiently positive definite Hessians unchanged where it is defined to do so, '
  'and never alters the solution reported for a problem whose Hessian needs no regularization.',
  ['inputs', 'configurations'], 'all Hessians, dimensions, methods and thresholds',
  BASE_WHY + 'matrices and methods.',
  [N + 'ocp_nlp_reg_mirror.c', N + 'ocp_nlp_reg_project.c', N + 'ocp_nlp_reg_convexify.c', N + 'ocp_nlp_reg_project_reduc_hess.c', N + 'ocp_nlp_reg_glm.c', 'acados/utils/math.c'],
  [('regularize', N + 'ocp_nlp_reg_mirror.c')],
  'runtime monitoring: eigenvalue oracle on QP data before and after regularization',
  'numpy eigen-decomposition of the QP Hessians read back through the API.')

P('P15', 'QP scaling does not change the problem that is solved',
  'With QP objective or constraint scaling enabled, the steps, multipliers and slacks delivered are those of the unscaled problem, and scaling factors respect their configured limits.',
  ['inputs', 'configurations'], 'all problems, scaling types and bounds',
  BASE_WHY + 'badly scaled problems.',
  [N + 'ocp_nlp_qpscaling_common.c', N + 'ocp_nlp_qpscaling.c'],
  [('rescale solution', N + 'ocp_nlp_qpscaling.c')],
  'runtime monitoring: differential solve with and without scaling plus independent KKT oracle',
  'Sampled badly scaled problems; multipliers compared after rescaling.')

P('P16', 'Real-time iteration phases compose to the documented full step',
  'Splitting a real-time iteration into preparation and feedback gives the same result as the combined call, feedback uses the initial state given after preparation, and the resulting step is the SQP step of the problem; '
  'advanced-step levels perform the documented extra iterations.',
  ['histories', 'inputs', 'configurations'], 'all sequences of preparation and feedback with changing data',
  BASE_WHY + 'call sequences.',
  [N + 'ocp_nlp_sqp_rti.c', T + 'acados_ocp_solver.py'],
  [('ocp_nlp_sqp_rti phases', N + 'ocp_nlp_sqp_rti.c')],
  'runtime monitoring: trace comparison of phase-split and combined calls and of reference Newton steps',
  'Random closed-loop histories; compared with combined RTI and with an SQP solver limited to one iteration.')

P('P17', 'Zero-order robust updates compute the documented tightening',
  'The robust (zoRO) update propagates the disturbance covariance through the current linearization with the given feedback and tightens exactly the selected constraints by the configured number of standard deviations, '
  'leaving all other bounds untouched.',
  ['inputs', 'configurations'], 'all linearizations, uncertainty matrices, feedback gains and constraint selections',
  BASE_WHY + 'matrices and constraint selections.',
  [T + 'custom_update_templates/custom_update_function_zoro_template.in.c', T + 'zoro_description.py'],
  [('uncertainty propagation', T + 'custom_update_templates/custom_update_function_zoro_template.in.c')],
  'runtime monitoring: covariance propagation and backoff recomputed in numpy from observed linearizations',
  'Sampled problems and all description options; compared with bounds read back.')

P('P18', 'Online data changes equal rebuilding with the new data',
  'Changing references, weights, bounds, slack penalties, parameters, global parameters or sparse parameter entries of a compiled solver makes it solve the same problem as a solver built with the new data in the formulation, '
  'for every stage and in any order of changes.',
  ['histories', 'inputs'], 'every sequence of data changes on every formulation',
  BASE_WHY + 'update sequences.',
  [T + 'acados_ocp_solver.py', C + 'acados_solver.in.c', 'interfaces/acados_c/ocp_nlp_interface.c', N + 'ocp_nlp_cost_ls.c', N + 'ocp_nlp_constraints_bgh.c'],
  [('cost_set/constraints_set/set_params_sparse/set_p_global', T + 'acados_ocp_solver.py')],
  'runtime monitoring: reference model updated in lock step with random update histories',
  'After every random history, residuals, cost and solutions are compared with the reference on the new data.')

P('P19', 'Problem descriptions survive the JSON round trip',
  'Dumping a consistent single- or multi-phase problem description to JSON and loading it again gives an equivalent description: every field except machine specific paths is preserved with value and shape, expressions evaluate to the same values, a solver generated from it behaves identically, and dumping it again gives the same file content. Dumping a simulation description writes every field.',
  ['inputs', 'configurations'], 'every consistent description, including empty arrays, scalars, infinities and optional parts',
  BASE_WHY + 'descriptions.',
  [T + 'acados_ocp.py', T + 'acados_sim.py', T + 'acados_multiphase_ocp.py', T + 'utils.py', T + 'acados_model.py'],
  [('to_dict/from_dict/dump_to_json/from_json', T + 'acados_ocp.py')],
  'runtime monitoring: field-wise comparison of reloaded descriptions and of their re-dumped JSON',
  'Randomized descriptions; deep comparison of all serialized fields and of expressions by evaluation.')

P('P20', 'Inconsistent formulations are rejected, consistent ones are preserved',
  'Making a description consistent accepts every dimensionally consistent formulation, derives the right dimensions, and keeps its mathematical content; every dimension mismatch, missing part or conflicting definition is rejected with an exception instead of '
  'producing a solver for another problem. Repeating it changes nothing. (One exemption: a time grid that ends before tf is accepted, shipped examples rely on it.)',
  ['inputs', 'configurations'], 'every formulation and every single corruption of it',
  'Existing tests try a handful of inconsistent inputs.',
  [T + 'acados_ocp.py', T + 'acados_ocp_constraints.py', T + 'acados_ocp_cost.py', T + 'acados_dims.py', T + 'acados_sim.py'],
  [('make_consistent', T + 'acados_ocp.py')],
  'runtime monitoring: mutation of valid descriptions with accept/reject and idempotence oracle',
  'Random valid descriptions, each corrupted in every applicable way.')

P('P21', 'Option setters validate and store exactly what was given',
  'Every option accepts each documented value and then reads back as that value, and rejects values of wrong type or outside the documented range with an exception, leaving the former value; options reach the compiled solver unchanged.',
  ['inputs', 'configurations'], 'every option and every value',
  'Existing tests touch a few options.',
  [T + 'acados_ocp_options.py', T + 'acados_sim.py', T + 'acados_ocp_constraints.py', T + 'acados_ocp_cost.py', C + 'acados_solver.in.c'],
  [('property setters', T + 'acados_ocp_options.py')],
  'runtime monitoring: table-driven accept/reject and read-back monitor over all options, with observable-effect checks in compiled solvers',
  'All options enumerated; values sampled per documented domain.')

P('P22', 'Cost translations and detection preserve the cost function',
  'Translating a cost between formulations (least squares, nonlinear least squares, convex-over-nonlinear, external) or detecting its type automatically gives the same cost value, gradient and solution for all states, controls, parameters, references and stages.',
  ['inputs', 'programs'], 'all cost expressions, weights and references, path, initial and terminal',
  BASE_WHY + 'expressions.',
  [T + 'acados_ocp.py', T + 'acados_ocp_cost.py'],
  [('translate_*_cost_to_*, detect_cost_type', T + 'acados_ocp.py')],
  'runtime monitoring: evaluation of translated costs at random points against the original definition',
  'Sampled expressions and points, evaluated symbolically and in compiled solvers.')

P('P23', 'Constraint transformations preserve their documented meaning',
  'Reformulating constraints as penalties, squashing, slack formulations, initial/terminal copies or feasibility problems yields costs and constraints whose values are the documented function of the original constraint and bound values, and the remaining constraints keep their meaning.',
  ['inputs', 'programs'], 'all constraints, bounds (one and two sided), weights and stages',
  BASE_WHY + 'constraints and bounds.',
  [T + 'acados_ocp.py', T + 'penalty_utils.py'],
  [('formulate_constraint_as_*', T + 'acados_ocp.py')],
  'runtime monitoring: evaluation of transformed problems at random points against the documented penalty definitions',
  'Sampled constraints and points.')

P('P24', 'The CasADi solver interface solves the same problem',
  'The CasADi-based counterpart of a problem has the same objective, constraints, initial guess and parameters, and its solution and multipliers, mapped back, are those of the compiled solver, with setting and getting consistent in both directions.',
  ['inputs', 'configurations'], 'all supported formulations and iterates',
  BASE_WHY + 'formulations.',
  [T + 'acados_casadi_ocp.py', T + 'acados_casadi_ocp_solver.py'],
  [('AcadosCasadiOcpSolver', T + 'acados_casadi_ocp_solver.py')],
  'runtime monitoring: differential comparison of NLP functions at random points and of solutions',
  'IPOPT of the CasADi wheel as second solver; sampled problems.')

P('P25', 'Structure detection for GNSF models preserves the dynamics',
  'The automatically detected structured form of a model describes the same implicit system for all states, inputs, algebraic variables and parameters, and the structured integrator gives the same results as the generic implicit one.',
  ['inputs', 'programs'], 'all models the detection accepts',
  BASE_WHY + 'models.',
  [T + 'gnsf.py', S + 'sim_gnsf.c'],
  [('detect_gnsf_structure', T + 'gnsf.py')],
  'runtime monitoring: residual comparison of detected structure at random points and differential simulation',
  'Sampled models with linear and nonlinear parts.')

P('P26', 'Multi-phase problems equal their single-phase counterparts',
  'A multi-phase problem whose phases share one formulation gives the same solution as the single-phase problem, and a problem with different phases and transitions satisfies the optimality conditions of the concatenated problem; each phase uses its own costs, constraints, parameters, options and times.',
  ['inputs', 'configurations'], 'all phase partitions and formulations',
  BASE_WHY + 'phase partitions.',
  [T + 'acados_multiphase_ocp.py', C + 'acados_multi_solver.in.c', T + 'acados_ocp_solver.py'],
  [('AcadosMultiphaseOcp', T + 'acados_multiphase_ocp.py')],
  'runtime monitoring: differential residual/QP/solution comparison with the single-phase solver and reference model',
  'Random partitions; compared with the single-phase solver and an independent model of the concatenation.')

P('P27', 'Stored iterates restore the solver state exactly',
  'Storing an iterate (in memory, flattened, or in a file) and loading it again restores exactly the stored primal and dual values for every formulation, and converting between representations loses nothing; files are not overwritten unless asked, and incompatible iterates are rejected.',
  ['inputs', 'histories'], 'all formulations, iterates and store/load sequences',
  BASE_WHY + 'iterates and formulations.',
  [T + 'acados_ocp_iterate.py', T + 'acados_ocp_solver.py'],
  [('store_iterate/load_iterate', T + 'acados_ocp_solver.py'), ('AcadosOcpIterate', T + 'acados_ocp_iterate.py')],
  'runtime monitoring: exact comparison of restored states over random store/load histories',
  'Random histories in scratch directories.')

P('P28', 'QP export, file format and QP solver interfaces agree',
  'QPs extracted from a solver, written to and read from files describe the same QP, and solving them with the QP interfaces gives a solution that satisfies the QP\'s optimality conditions and reproduces the solver\'s own QP solution.',
  ['inputs', 'configurations'], 'all QPs, dimensions, QP solvers and file round trips',
  BASE_WHY + 'QPs.',
  [T + 'acados_ocp_qp.py', T + 'acados_ocp_qp_solver.py', T + 'acados_casadi_ocp_qp_solver.py', T + 'acados_ocp_solver.py', Q + 'ocp_qp_common.c'],
  [('dump_last_qp_to_json, AcadosOcpQp', T + 'acados_ocp_qp.py')],
  'runtime monitoring: independent QP KKT oracle and field-wise round-trip comparison',
  'Random QPs, checked with numpy.')

P('P29', 'Code is regenerated whenever the problem changed',
  'When existing generated code may be reused, it is reused only if it was generated for the same problem; any change that alters what the generated solver computes leads to regeneration, so results always are those of the current description.',
  ['inputs', 'histories'], 'every change of a description between two solver creations',
  BASE_WHY + 'changes.',
  [T + 'acados_ocp_solver.py', T + 'acados_sim_solver.py', T + 'acados_ocp.py', T + 'utils.py'],
  [('hash comparison', T + 'utils.py')],
  'runtime monitoring: mutation histories with result comparison against fresh builds',
  'Each field mutated between creations in scratch directories.')

P('P30', 'Numerical utilities compute their mathematical definition',
  'Matrix exponential, eigenvalue decompositions, mirrored and projected matrices, inverse, determinant, norms, interpolation and quadrature utilities give the mathematically defined result to rounding accuracy for all inputs and sizes.',
  ['inputs'], 'all matrices, vectors, sizes',
  'No offline test calls the C utilities.',
  ['acados/utils/math.c', 'acados/utils/math.h', S + 'sim_collocation_utils.c'],
  [('acados_eigen_decomposition', 'acados/utils/math.c'), ('expm', 'acados/utils/math.c')],
  'runtime monitoring: C routines driven with random inputs against numpy/scipy oracles under sanitizers',
  'Random and structured matrices, sizes 1..12.')

P('P31', 'Changing the time grid or condensing online equals a new solver',
  'Setting new time steps, changing the number of active stages or the partial condensing horizon of an existing solver makes it behave like a solver newly created with that setting, including cost scaling, in any order and any number of times.',
  ['histories', 'configurations'], 'all sequences of horizon, time step and condensing changes',
  BASE_WHY + 'change sequences.',
  [T + 'acados_ocp_solver.py', C + 'acados_solver.in.c', N + 'ocp_nlp_common.c'],
  [('set_new_time_steps/update_qp_solver_cond_N', T + 'acados_ocp_solver.py')],
  'runtime monitoring: differential comparison with freshly created solvers over random change histories',
  'Random histories, reference model and fresh solver.')

P('P32', 'Helper layers keep stage data and expressions correct',
  'The parameter manager delivers for every stage exactly the values assigned to it, the cost and constraint evaluator, the model with a cost state and the penalty functions give the documented values at all points, and no helper silently drops, shifts or aliases user data.',
  ['inputs', 'histories'], 'all parameters, stages, assignment orders and evaluation points',
  'Existing tests assign a few values once.',
  [T + 'acados_param_manager.py', T + 'penalty_utils.py', T + 'mpc_utils.py', T + 'utils.py'],
  [('AcadosParamManager', T + 'acados_param_manager.py')],
  'runtime monitoring: shadow-model comparison over random assignment histories and point evaluations',
  'Random histories and points.')
