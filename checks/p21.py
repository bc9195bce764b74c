"""py: for every option of the OCP, OCP-QP and simulation option classes a table gives its documented domain.  Random histories
of accepted and rejected assignments are run against a shadow record: accepted values have to read back unchanged, rejected ones
have to raise, and after every assignment all other options have to be untouched.  c: solvers are generated with random option
values (m: of problems with several phases); a reader compiled against the headers of the tree under test reads the option structures of the solver (NLP, globalization,
regularization, QP scaling, condensing, HPIPM, integrators at every stage) and compares them with the values given.  Then options
are set at run time, and after each one the whole record has to equal the expected one; assignments of wrong type and unknown
names have to be refused without effect."""
import ctypes
import hashlib
import os
import subprocess
import warnings
import numpy as np
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P21'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['the option structures are read through the headers of the tree; a field that no longer exists is skipped',
               'the domain of an option is the one its documentation or error message states; booleans given for 0/1 options, integral floats and NaN are not judged']
RULE = 'distinct (class, option, accepted or rejected); (option, solver type, globalization, regularization, QP solver, integrator, given at generation or run time)'


# ------------------------------------------------------------------------------------------------- domains
class Dom:
    def __init__(self, good, bad):
        self.good, self.bad = good, bad


STR_BAD = lambda r: [None, '', 'UNKNOWN', 3, 1.5][int(r.integers(5))]
NONSTR = lambda r: [None, 3, 1.5, ['a']][int(r.integers(4))]


def enum(*v):
    return Dom(lambda r: v[int(r.integers(len(v)))], lambda r: [str(v[int(r.integers(len(v)))]).lower() + '_', 'UNKNOWN', v[0] + ' ', v[-1][:-1]][int(r.integers(4))])


BOOL = Dom(lambda r: bool(r.integers(2)), lambda r: ['True', None, 2, 0.5, [True]][int(r.integers(5))])
BIT = Dom(lambda r: int(r.integers(2)), lambda r: [2, -1, 'on', None, 0.5, 7][int(r.integers(6))])


def fl(lo, hi, badvals=(), excl_lo=False, logscale=True, types=True):
    def good(r):
        if r.random() < .15 and not excl_lo:
            return float(lo)
        if r.random() < .15 and np.isfinite(hi) and badvals and max(badvals, default=0) > hi:
            return float(hi) if not excl_lo else float(lo + .5 * (hi - lo))
        if np.isfinite(hi):
            return float(lo + (hi - lo) * r.uniform(.01, .99))
        return float(lo + 10.0 ** r.uniform(-9, 3))

    def bad(r):
        c = list(badvals) + (['1.0', None, [1.0]] if types else [])
        return c[int(r.integers(len(c)))]
    return Dom(good, bad)


POS = fl(0.0, np.inf, (0.0, -1e-6, -3.0), excl_lo=True)
NONNEG = fl(0.0, np.inf, (-1e-9, -2.5))
UNIT = fl(0.0, 1.0, (-0.1, 1.1, 5.0))
OPENUNIT = fl(0.0, 1.0, (-0.1, 1.1, 0.0, 1.0), excl_lo=True, types=False)
GE1 = fl(1.0, np.inf, (0.999, 0.0, -2.0))
INT0 = Dom(lambda r: int(r.integers(0, 60)), lambda r: [-1, -20, '3', 2.5, None][int(r.integers(5))])
STR = Dom(lambda r: ['a', 'some name', '-O2 -g', 'x.c'][int(r.integers(4))], NONSTR)
ARR = Dom(lambda r: [np.abs(r.normal(size=int(r.integers(1, 6)))), np.abs(r.normal(size=(int(r.integers(1, 5)), 1)))][int(r.integers(2))],
          lambda r: [[1.0, 2.0], 'abc', 1.5][int(r.integers(3))])
STEPS = Dom(lambda r: [int(r.integers(1, 9)), r.integers(1, 9, int(r.integers(1, 6)))][int(r.integers(2))], lambda r: ['abc', 1.5, None][int(r.integers(3))])
BLOCKS = Dom(lambda r: [int(q) for q in r.integers(0, 5, int(r.integers(1, 5)))], lambda r: [[1, -1], [1, 2.5], 3, '12', None, ['a']][int(r.integers(6))])
ANY = Dom(lambda r: float(r.uniform(.1, 4)), None)
FLOAT = Dom(lambda r: float(r.normal()), lambda r: ['1.0', None, [1.0]][int(r.integers(3))])
INT = Dom(lambda r: int(r.integers(0, 9)), lambda r: ['3', 2.5, None][int(r.integers(3))])

QP = enum('PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_QPOASES', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_QPDUNES', 'PARTIAL_CONDENSING_OSQP', 'PARTIAL_CONDENSING_CLARABEL', 'FULL_CONDENSING_DAQP')
LEVELS = lambda n: Dom(lambda r: int(r.integers(n)), lambda r: [n, -1, 'a', None, 0.5][int(r.integers(5))])

OCP = dict(
    qp_solver=QP, hpipm_mode=enum('BALANCE', 'SPEED_ABS', 'SPEED', 'ROBUST'), hessian_approx=enum('GAUSS_NEWTON', 'EXACT'),
    integrator_type=enum('ERK', 'IRK', 'GNSF', 'DISCRETE', 'LIFTED_IRK'), nlp_solver_type=enum('SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP'),
    globalization=enum('FUNNEL_L1PEN_LINESEARCH', 'MERIT_BACKTRACKING', 'FIXED_STEP'), collocation_type=enum('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA'),
    regularize_method=enum('NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'),
    globalization_fixed_step_length=fl(0.0, 1.0, (-0.1, 1.1, 2.0, -5.0)), qpscaling_ub_max_abs_eig=NONNEG, qpscaling_lb_norm_inf_grad_obj=NONNEG,
    qpscaling_scale_objective=enum('NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'), qpscaling_scale_constraints=enum('NO_CONSTRAINT_SCALING', 'INF_NORM'),
    nlp_qp_tol_strategy=enum('ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING', 'FIXED_QP_TOL'), nlp_qp_tol_reduction_factor=UNIT, nlp_qp_tol_safety_factor=UNIT,
    nlp_qp_tol_min_stat=POS, nlp_qp_tol_min_eq=POS, nlp_qp_tol_min_ineq=POS, nlp_qp_tol_min_comp=POS, nlp_solver_warm_start_first_qp=BOOL, nlp_solver_warm_start_first_qp_from_nlp=BOOL,
    levenberg_marquardt=NONNEG, sim_method_num_stages=STEPS, sim_method_num_steps=STEPS, sim_method_newton_iter=Dom(INT.good, INT.bad), sim_method_newton_tol=NONNEG, sim_method_jac_reuse=Dom(lambda r: [int(r.integers(2)), r.integers(0, 2, 3)][int(r.integers(2))], STEPS.bad),
    qp_solver_tol_stat=POS, qp_solver_tol_eq=POS, qp_solver_tol_ineq=POS, qp_solver_tol_comp=POS, qp_solver_cond_N=INT0, qp_solver_cond_block_size=BLOCKS, qp_solver_warm_start=LEVELS(4),
    qp_solver_cond_ric_alg=BIT, qp_solver_ric_alg=BIT, qp_solver_mu0=NONNEG, qp_solver_t0_init=LEVELS(3), tau_min=NONNEG, solution_sens_qp_t_lam_min=NONNEG, qp_solver_iter_max=INT0, as_rti_iter=INT0,
    with_anderson_acceleration=BOOL, anderson_activation_threshold=FLOAT, as_rti_level=LEVELS(5), with_adaptive_levenberg_marquardt=BOOL, adaptive_levenberg_marquardt_lam=GE1,
    adaptive_levenberg_marquardt_mu_min=NONNEG, adaptive_levenberg_marquardt_mu0=NONNEG, adaptive_levenberg_marquardt_obj_scalar=NONNEG, log_primal_step_norm=BOOL, log_dual_step_norm=BOOL,
    store_iterates=BOOL, timeout_max_time=NONNEG, timeout_heuristic=enum('MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO'), tol=POS, qp_tol=POS,
    nlp_solver_tol_stat=POS, nlp_solver_tol_eq=POS, nlp_solver_tol_ineq=POS, nlp_solver_tol_comp=POS, nlp_solver_tol_min_step_norm=NONNEG, globalization_alpha_min=Dom(lambda r: float(r.uniform(0, 1)), None),
    reg_epsilon=NONNEG, reg_max_cond_block=GE1, reg_adaptive_eps=BOOL, reg_min_epsilon=NONNEG, globalization_alpha_reduction=Dom(lambda r: float(r.uniform(.01, .99)), None),
    globalization_line_search_use_sufficient_descent=BIT, globalization_eps_sufficient_descent=POS, globalization_use_SOC=BIT, globalization_full_step_dual=BIT,
    globalization_funnel_init_increase_factor=fl(1.0, np.inf, (1.0, 0.5, -2.0), excl_lo=True, types=False), globalization_funnel_init_upper_bound=fl(0.0, np.inf, (0.0, -1.0), excl_lo=True, types=False),
    globalization_funnel_sufficient_decrease_factor=OPENUNIT, globalization_funnel_kappa=OPENUNIT, globalization_funnel_fraction_switching_condition=OPENUNIT,
    eval_residual_at_max_iter=BOOL, use_constraint_hessian_in_feas_qp=BOOL, byrd_omojokon_slack_relaxation_factor=GE1, search_direction_mode=enum('NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'),
    allow_direction_mode_switch_to_nominal=BOOL, globalization_funnel_initial_penalty_parameter=fl(0.0, 1.0, (-0.1, 1.1, 3.0), types=False), globalization_funnel_use_merit_fun_only=BOOL,
    nlp_solver_ext_qp_res=BIT, rti_log_residuals=BIT, rti_log_only_available_residuals=BIT, nlp_solver_max_iter=INT0, time_steps=ARR, shooting_nodes=ARR, cost_scaling=ARR, tf=ANY, Tsim=ANY,
    N_horizon=INT0, print_level=INT0, exact_hess_constr=BIT, exact_hess_cost=BIT, exact_hess_dyn=BIT, fixed_hess=BIT, ext_cost_num_hess=BIT, cost_discretization=enum('EULER', 'INTEGRATOR'),
    custom_update_filename=STR, custom_update_header_filename=STR, custom_update_copy=BOOL,
    custom_templates=Dom(lambda r: [('a.in.h', 'a.h')][:int(r.integers(2))], lambda r: ['x', [['a', 'b']], [('a', 3)], None][int(r.integers(4))]))
QPO = dict(qp_solver=QP, tol_stat=POS, tol_eq=POS, tol_ineq=POS, tol_comp=POS, iter_max=INT0, cond_N=INT0, cond_block_size=BLOCKS, warm_start=LEVELS(4), cond_ric_alg=BIT, ric_alg=BIT, mu0=NONNEG,
           t0_init=LEVELS(3), hpipm_mode=OCP['hpipm_mode'], print_level=INT)
SIM = dict(integrator_type=enum('ERK', 'IRK', 'GNSF'), num_stages=INT, num_steps=INT, newton_iter=INT, newton_tol=FLOAT, sens_forw=BOOL, sens_adj=BOOL, sens_algebraic=BOOL, sens_hess=BOOL, output_z=BOOL,
           sim_method_jac_reuse=BIT, T=Dom(lambda r: float(r.uniform(.1, 2)), lambda r: ['1', None, [1.0]][int(r.integers(3))]), collocation_type=OCP['collocation_type'])
CG = dict(ext_fun_compile_flags=STR, ext_fun_expand_constr=BOOL, ext_fun_expand_cost=BOOL, ext_fun_expand_dyn=BOOL, ext_fun_expand_precompute=BOOL, with_solution_sens_wrt_params_forw=BOOL,
          with_solution_sens_wrt_params_adj=BOOL, with_value_sens_wrt_params=BOOL, generate_hess=BOOL, sens_forw_p=BOOL,
          casadi_code_gen_options=Dom(lambda r: {'with_header': bool(r.integers(2))}, lambda r: ['x', None, 3, []][int(r.integers(4))]),
          json_file=Dom(lambda r: 'f%d.json' % r.integers(9), lambda r: ['', None, 3][int(r.integers(3))]), model_external_shared_lib_name=Dom(lambda r: 'lib%d' % r.integers(5), lambda r: ['libx.so', None, 4][int(r.integers(3))]),
          model_external_shared_lib_dir=STR)
MULTI = {'tol': ['nlp_solver_tol_' + q for q in ('stat', 'eq', 'ineq', 'comp')], 'qp_tol': ['qp_solver_tol_' + q for q in ('stat', 'eq', 'ineq', 'comp')]}
FAM = [('py', 20), ('c', 60), ('m', 24)]


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1300021 * seed + 89 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    (py if case['fam'] == 'py' else comp)(case, ob, rng)


# ------------------------------------------------------------------------------------------------- setters
def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def classes():
    from acados_template import AcadosOcp, AcadosSim
    import acados_template.acados_ocp_options as oo
    o, s = AcadosOcp(), AcadosSim()
    return [('ocp', o.solver_options, OCP), ('qp', oo.AcadosOcpQpOptions(), QPO), ('sim', s.solver_options, SIM), ('codegen', o.code_gen_options, CG)]


def record(obj):
    d = {}
    for k, p in vars(type(obj)).items():
        if isinstance(p, property):
            try:
                d[k] = getattr(obj, k)
            except Exception as e:
                d[k] = 'raises ' + type(e).__name__
    return {k: (v.copy() if isinstance(v, (np.ndarray, list, dict)) else v) for k, v in d.items()}


def py(case, ob, rng):
    for nm, obj, tab in classes():
        tab = {k: d for k, d in tab.items() if isinstance(getattr(type(obj), k, None), property)}
        ob.check(len(tab) > 10, 'table', 'options of %s vanished' % nm)
        ref = record(obj)
        keys = [k for k in tab for _ in range(2 if nm == 'ocp' else 3)]
        for k in rng.permutation(keys):
            k = str(k)
            d = tab[k]
            good = d.bad is None or rng.random() < .55
            v = (d.good if good else d.bad)(rng)
            keep = v.copy() if isinstance(v, (np.ndarray, list, dict)) else v
            try:
                setattr(obj, k, v)
                ok = True
            except Exception as e:
                ok, err = False, e
            now = record(obj)
            ob.count('assignments')
            ob.state(nm, k, good)
            who = 'option %s of %s' % (k, nm)
            if good:
                ob.check(ok, nm + '/' + k, lambda: '%s refuses %r: %r' % (who, v, err))
                if not ok:
                    continue
                want = keep
                if isinstance(v, np.ndarray) and v.ndim > 1:
                    want = keep.flatten()
                touched = MULTI.get(k, [k]) if nm == 'ocp' else [k]
                for q in touched:
                    if k in MULTI and nm == 'ocp':
                        ob.check(now[q] == keep, nm + '/' + k, '%s: %s reads %r, given %r' % (who, q, now[q], keep))
                    else:
                        ob.check(same(now[q], want), nm + '/' + k, lambda: '%s reads back as %r, given %r' % (who, now[q], keep))
                # aliases of the same value
                skip = set(touched) | {k}
                if nm == 'ocp':
                    for a, l in MULTI.items():
                        if set(l) & skip:
                            skip.add(a)
                skip |= ALIAS.get((nm, k), set())
            else:
                ob.check(not ok, nm + '/' + k, lambda: '%s accepts %r' % (who, v))
                if ok:
                    setattr(obj, k, d.good(rng))
                    ref = record(obj)
                    continue
                skip = set()
            for q in ref:
                if q not in skip:
                    ob.check(same(ref[q], now[q]) or repr(ref[q]) == repr(now[q]), nm + '/other', lambda: '%s: assigning %r changes %s from %r to %r' % (who, v, q, ref[q], now[q]))
            ref = now


ALIAS = {('sim', 'T'): {'Tsim'}, ('codegen', 'with_solution_sens_wrt_params_forw'): {'with_solution_sens_wrt_params'}, ('codegen', 'with_solution_sens_wrt_params_adj'): {'with_solution_sens_wrt_params'},
         ('sim', 'num_stages'): {'sim_method_num_stages'}, ('sim', 'num_steps'): {'sim_method_num_steps'}, ('sim', 'newton_iter'): {'sim_method_newton_iter'}, ('sim', 'newton_tol'): {'sim_method_newton_tol'}}


# ------------------------------------------------------------------------------------------------- compiled solvers
HEAD = r'''
#include <string.h>
#include <stdbool.h>
#include "acados/utils/types.h"
#include "acados/ocp_nlp/ocp_nlp_common.h"
#include "acados/ocp_nlp/ocp_nlp_sqp.h"
#include "acados/ocp_nlp/ocp_nlp_sqp_rti.h"
#include "acados/ocp_nlp/ocp_nlp_ddp.h"
#include "acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h"
#include "acados/ocp_nlp/ocp_nlp_globalization_common.h"
#include "acados/ocp_nlp/ocp_nlp_globalization_funnel.h"
#include "acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.h"
#include "acados/ocp_nlp/ocp_nlp_globalization_fixed_step.h"
#include "acados/ocp_nlp/ocp_nlp_qpscaling.h"
#include "acados/ocp_nlp/ocp_nlp_reg_mirror.h"
#include "acados/ocp_nlp/ocp_nlp_reg_project.h"
#include "acados/ocp_nlp/ocp_nlp_reg_convexify.h"
#include "acados/ocp_nlp/ocp_nlp_reg_glm.h"
#include "acados/ocp_nlp/ocp_nlp_dynamics_cont.h"
#include "acados/ocp_nlp/ocp_nlp_cost_external.h"
#include "acados/sim/sim_common.h"
#include "acados/ocp_qp/ocp_qp_xcond_solver.h"
#include "acados/ocp_qp/ocp_qp_partial_condensing.h"
#include "acados/ocp_qp/ocp_qp_hpipm.h"
#include "acados/dense_qp/dense_qp_hpipm.h"
#include "hpipm_d_ocp_qp_ipm.h"
#include "hpipm_d_dense_qp_ipm.h"
'''
# access paths
NLP = {'SQP': '((ocp_nlp_sqp_opts *) p)->nlp_opts', 'SQP_RTI': '((ocp_nlp_sqp_rti_opts *) p)->nlp_opts', 'DDP': '((ocp_nlp_ddp_opts *) p)->nlp_opts', 'SQP_WITH_FEASIBLE_QP': '((ocp_nlp_sqp_wfqp_opts *) p)->nlp_opts'}
OWN = {'SQP': '((ocp_nlp_sqp_opts *) p)', 'SQP_RTI': '((ocp_nlp_sqp_rti_opts *) p)', 'SQP_WITH_FEASIBLE_QP': '((ocp_nlp_sqp_wfqp_opts *) p)'}
GL = {'FUNNEL_L1PEN_LINESEARCH': 'ocp_nlp_globalization_funnel_opts', 'MERIT_BACKTRACKING': 'ocp_nlp_globalization_merit_backtracking_opts', 'FIXED_STEP': 'ocp_nlp_globalization_fixed_step_opts'}
TOLSTR = ['FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING']
TIMEOUT = ['MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO']


def fields(so, integrator, N):
    """name -> (C expression, expected value after generation or None when only kept)"""
    f = {}
    n = '(%s)' % NLP[so['nlp_solver_type']]
    t, g = so['nlp_solver_type'], so['globalization']
    for k in ('levenberg_marquardt', 'fixed_hess', 'solution_sens_qp_t_lam_min', 'print_level', 'store_iterates', 'with_anderson_acceleration', 'anderson_activation_threshold', 'tau_min'):
        f[k] = n + '->' + k, so[k]
    f['ext_qp_res'] = n + '->ext_qp_res', so['nlp_solver_ext_qp_res']
    f['qp_iter_max'] = n + '->qp_iter_max', so['qp_solver_iter_max']
    f['qp_warm_start'] = n + '->qp_warm_start', so['qp_solver_warm_start']
    f['warm_start_first_qp'] = n + '->warm_start_first_qp', so['nlp_solver_warm_start_first_qp']
    f['warm_start_first_qp_from_nlp'] = n + '->warm_start_first_qp_from_nlp', so['nlp_solver_warm_start_first_qp_from_nlp']
    if t != 'SQP_RTI':
        for k in ('with_adaptive_levenberg_marquardt', 'adaptive_levenberg_marquardt_lam', 'adaptive_levenberg_marquardt_mu_min', 'adaptive_levenberg_marquardt_mu0', 'adaptive_levenberg_marquardt_obj_scalar',
                  'eval_residual_at_max_iter', 'nlp_qp_tol_reduction_factor', 'nlp_qp_tol_safety_factor', 'nlp_qp_tol_min_stat', 'nlp_qp_tol_min_eq', 'nlp_qp_tol_min_ineq', 'nlp_qp_tol_min_comp'):
            f[k] = n + '->' + k, so[k]
        f['nlp_qp_tol_strategy'] = n + '->nlp_qp_tol_strategy', TOLSTR.index(so['nlp_qp_tol_strategy'])
        for k in ('stat', 'eq', 'ineq', 'comp'):
            f['tol_' + k] = n + '->tol_' + k, so['nlp_solver_tol_' + k]
        f['max_iter'] = n + '->max_iter', so['nlp_solver_max_iter']
        q = '((ocp_nlp_qpscaling_opts *) %s->qpscaling)' % n
        f['qpscaling_ub_max_abs_eig'] = q + '->ub_max_abs_eig', so['qpscaling_ub_max_abs_eig']
        f['qpscaling_lb_norm_inf_grad_obj'] = q + '->lb_norm_inf_grad_obj', so['qpscaling_lb_norm_inf_grad_obj']
        f['qpscaling_scale_objective'] = q + '->scale_qp_objective', float(so['qpscaling_scale_objective'] == 'OBJECTIVE_GERSHGORIN')
        f['qpscaling_scale_constraints'] = q + '->scale_qp_constraints', float(so['qpscaling_scale_constraints'] == 'INF_NORM')
    if t in ('SQP', 'SQP_WITH_FEASIBLE_QP'):
        for k in ('log_primal_step_norm', 'log_dual_step_norm'):
            f[k] = n + '->' + k, so[k]
        f['tol_min_step_norm'] = n + '->tol_min_step_norm', so['nlp_solver_tol_min_step_norm']
        o = OWN[t]
        if so['timeout_max_time'] > 0:
            f['timeout_max_time'] = o + '->timeout_max_time', so['timeout_max_time']
            f['timeout_heuristic'] = o + '->timeout_heuristic', TIMEOUT.index(so['timeout_heuristic'])
        else:
            f['timeout_max_time'] = o + '->timeout_max_time', 0.0
    if t == 'SQP_WITH_FEASIBLE_QP':
        o = OWN[t]
        for k in ('byrd_omojokon_slack_relaxation_factor', 'use_constraint_hessian_in_feas_qp', 'allow_direction_mode_switch_to_nominal'):
            f[k] = o + '->' + k, so[k]
        f['search_direction_mode'] = '%s->search_direction_mode == %s' % (o, so['search_direction_mode']), 1.0
    if t == 'SQP_RTI':
        o = OWN[t]
        for k in ('as_rti_iter', 'as_rti_level', 'rti_log_residuals', 'rti_log_only_available_residuals'):
            f[k] = o + '->' + k, so[k]
        f['rti_phase'] = o + '->rti_phase', None
    gs = '((%s *) %s->globalization)' % (GL[g], n)
    gg = gs + '->globalization_opts'
    f['globalization_full_step_dual'] = gg + '->full_step_dual', so['globalization_full_step_dual']
    if g == 'FIXED_STEP':
        f['globalization_fixed_step_length'] = gs + '->step_length', so['globalization_fixed_step_length']
    else:
        for k in ('alpha_min', 'alpha_reduction', 'eps_sufficient_descent'):
            f['globalization_' + k] = gg + '->' + k, so['globalization_' + k]
    if g == 'MERIT_BACKTRACKING':
        for k in ('line_search_use_sufficient_descent', 'use_SOC'):
            f['globalization_' + k] = gg + '->' + k, so['globalization_' + k]
    if g == 'FUNNEL_L1PEN_LINESEARCH':
        for k, c in (('init_increase_factor', 'initialization_increase_factor'), ('init_upper_bound', 'initialization_upper_bound'), ('sufficient_decrease_factor', 'sufficient_decrease_factor'), ('kappa', 'kappa'),
                     ('fraction_switching_condition', 'fraction_switching_condition'), ('initial_penalty_parameter', 'initial_penalty_parameter'), ('use_merit_fun_only', 'use_merit_fun_only')):
            f['globalization_funnel_' + k] = gs + '->' + c, so['globalization_funnel_' + k]
    r = so['regularize_method']
    st = dict(MIRROR='mirror', PROJECT='project', CONVEXIFY='convexify', GERSHGORIN_LEVENBERG_MARQUARDT='glm').get(r)
    if st:
        rs = '((ocp_nlp_reg_%s_opts *) %s->regularize)' % (st, n)
        f['reg_epsilon'] = rs + '->epsilon', so['reg_epsilon']
        if st in ('mirror', 'project'):
            f['reg_min_epsilon'] = rs + '->min_epsilon', so['reg_min_epsilon']
            f['reg_adaptive_eps'] = rs + '->adaptive_eps', so['reg_adaptive_eps']
            f['reg_max_cond_block'] = rs + '->max_cond_block', so['reg_max_cond_block']
    if integrator != 'DISCRETE':
        for i in range(N):
            s = '((sim_opts *) ((ocp_nlp_dynamics_cont_opts *) %s->dynamics[%d])->sim_solver)' % (n, i)
            at = lambda v: v[i] if isinstance(v, np.ndarray) else v
            f['ns[%d]' % i] = s + '->ns', at(so['sim_method_num_stages'])
            f['num_steps[%d]' % i] = s + '->num_steps', at(so['sim_method_num_steps'])
            if integrator != 'ERK':
                f['newton_iter[%d]' % i] = s + '->newton_iter', so['sim_method_newton_iter']
                f['newton_tol[%d]' % i] = s + '->newton_tol', so['sim_method_newton_tol']
                f['jac_reuse[%d]' % i] = s + '->jac_reuse', at(so['sim_method_jac_reuse'])
                f['collocation[%d]' % i] = '%s->collocation_type == %s' % (s, so['collocation_type']), 1.0
    x = '((ocp_qp_xcond_solver_opts *) %s->qp_solver_opts)' % n
    if so['qp_solver'].startswith('PARTIAL') :
        pc = '((ocp_qp_partial_condensing_opts *) %s->xcond_opts)' % x
        f['cond_N'] = pc + '->N2', so['qp_solver_cond_N']
        f['qp_cond_ric_alg'] = pc + '->ric_alg', so['qp_solver_cond_ric_alg']
        if so['qp_solver_cond_block_size'] is not None:
            for i, b in enumerate(so['qp_solver_cond_block_size']):
                f['block_size[%d]' % i] = pc + '->block_size[%d]' % i, b
    if so['qp_solver'].endswith('HPIPM'):
        full = so['qp_solver'].startswith('FULL')
        h = '((%s *) %s->qp_solver_opts)' % ('dense_qp_hpipm_opts' if full else 'ocp_qp_hpipm_opts', x)
        hp = h + '->hpipm_opts'
        for k, c in (('stat', 'g'), ('eq', 'b'), ('ineq', 'd'), ('comp', 'm')):
            f['qp_tol_' + k] = hp + '->res_%s_max' % c, so['qp_solver_tol_' + k]
        f['qp_iter_max(qp)'] = hp + '->iter_max', so['qp_solver_iter_max']
        f['qp_warm_start(qp)'] = hp + '->warm_start', so['qp_solver_warm_start']
        f['qp_t0_init'] = hp + '->t0_init', so['qp_solver_t0_init']
        if so['qp_solver_mu0']:
            f['qp_mu0'] = hp + '->mu0', so['qp_solver_mu0']
        if not full:
            f['qp_ric_alg'] = hp + '->square_root_alg', so['qp_solver_ric_alg']
        f['qp_hpipm_mode'] = '%s->mode == %s' % (hp, so['hpipm_mode']), 1.0
        f['tau_min(qp)'] = h + '->m_relax', None
        f['qp_print_level'] = h + '->print_level', None
    return f


class Reader:
    def __init__(self, f):
        self.names = list(f)
        prefix = os.environ['VP_PREFIX']
        inc = ['-I' + prefix + '/include'] + ['-I%s/include/%s/include' % (prefix, q) for q in ('blasfeo', 'hpipm')] + ['-I%s/interfaces' % os.environ.get('VP_REPO', '/repo')]

        def build(names):
            src = HEAD + 'void rd(void *p, double *v) {\n' + ''.join('v[%d] = (double) (%s);\n' % (self.names.index(k), f[k][0]) for k in names) + '}\n'
            fn = 'rd_' + hashlib.sha1(src.encode()).hexdigest()[:12]
            open(fn + '.c', 'w').write(src)
            r = subprocess.run(['gcc', '-O0', '-w', '-shared', '-fPIC'] + inc + [fn + '.c', '-o', fn + '.so'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (os.path.abspath(fn + '.so'), '') if r.returncode == 0 else (None, r.stdout)
        so, log = build(self.names)
        self.lost = []
        if so is None:
            import re
            lines = {int(q) for q in re.findall(r'rd_\w+\.c:(\d+):\d+: error', log)}
            n0 = HEAD.count('\n') + 2
            self.lost = [k for i, k in enumerate(self.names) if i + n0 in lines]
            so, log = build([k for k in self.names if k not in self.lost])
            if so is None or len(self.lost) > len(self.names) // 2:
                raise Inconclusive('the option structures cannot be read: ' + log[:200])
        self.lib = ctypes.CDLL(so)
        self.lib.rd.argtypes = [ctypes.c_void_p, ctypes.c_void_p]

    def __call__(self, s):
        v = np.full(len(self.names), np.nan)
        self.lib.rd(s.nlp_opts, v.ctypes.data)
        return {k: v[i] for i, k in enumerate(self.names) if k not in self.lost}


def draw(rng, so_names, t, N):
    """random values of the options that a generated solver gets"""
    v = {}
    skip = {'qp_solver', 'hessian_approx', 'integrator_type', 'nlp_solver_type', 'globalization', 'regularize_method', 'time_steps', 'shooting_nodes', 'cost_scaling', 'tf', 'Tsim', 'N_horizon', 'cost_discretization',
            'exact_hess_constr', 'exact_hess_cost', 'exact_hess_dyn', 'ext_cost_num_hess', 'custom_update_filename', 'custom_update_header_filename', 'custom_update_copy', 'custom_templates', 'tol', 'qp_tol',
            'with_anderson_acceleration', 'as_rti_level', 'sim_method_num_stages', 'sim_method_num_steps', 'sim_method_jac_reuse', 'collocation_type', 'qp_solver_cond_N', 'qp_solver_cond_block_size', 'fixed_hess',
            'qpscaling_scale_objective', 'qpscaling_scale_constraints', 'sim_method_newton_iter', 'nlp_qp_tol_strategy', 'store_iterates', 'timeout_max_time'}
    for k in so_names:
        if k in OCP and k not in skip and rng.random() < .8:
            v[k] = OCP[k].good(rng)
    return v


def phases(rng, pr, so):
    """the solver of the same problem written as two or three phases"""
    from acados_template import AcadosMultiphaseOcp, AcadosOcpSolver
    N = pr.N
    cuts = np.sort(rng.choice(np.arange(1, N), min(N - 1, int(rng.integers(1, 3))), replace=False))
    Ns = [int(q) for q in np.diff(np.concatenate([[0], cuts, [N]]))]
    mo = AcadosMultiphaseOcp(N_list=Ns)
    for i in range(len(Ns)):
        mo.set_phase(pr.make_ocp('ph%d' % i), i)
    mo.name = 'multi'
    mo.solver_options = so
    mo.code_gen_options.code_export_directory, mo.code_gen_options.json_file = 'multi', 'm.json'
    return AcadosOcpSolver(mo, verbose=False)


def comp(case, ob, rng):
    integ = str(rng.choice(['DISCRETE', 'ERK', 'IRK', 'GNSF', 'IRK']))
    t = str(rng.choice(['SQP', 'SQP', 'SQP_RTI', 'SQP_WITH_FEASIBLE_QP', 'DDP']))
    fix = dict(integrator=integ, nz=0, constr='BGH', hess='GAUSS_NEWTON', idxs_rev=False, cost_disc='EULER', npg=0, stages=None, regularize=None)
    fix = {k: v for k, v in fix.items() if k not in ('stages', 'regularize')}
    multi = case['fam'] == 'm'
    if multi:
        fix.update(N=int(rng.integers(2, 7)))
    if t == 'DDP':
        fix.update(bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, x0='fixed', cost='NONLINEAR_LS', cost_0='same', cost_e='NONLINEAR_LS')
    if t == 'SQP_WITH_FEASIBLE_QP':
        fix.update(soft=0)
    pr = Prob(case['seed'], **fix)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    N = pr.N
    so.nlp_solver_type = t
    so.globalization = dict(SQP_RTI='FIXED_STEP', DDP='MERIT_BACKTRACKING', SQP_WITH_FEASIBLE_QP='FUNNEL_L1PEN_LINESEARCH').get(t) or str(rng.choice(list(GL)))
    so.qp_solver = 'PARTIAL_CONDENSING_HPIPM' if t == 'DDP' or rng.random() < .7 else 'FULL_CONDENSING_HPIPM'
    so.regularize_method = str(rng.choice(['NO_REGULARIZE', 'MIRROR', 'PROJECT', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT']))
    if t in ('DDP',):
        so.regularize_method = 'NO_REGULARIZE'
    given = draw(rng, [k for k, p in vars(type(so)).items() if isinstance(p, property)], t, N)
    given['qp_solver_warm_start'] = int(rng.integers(3))
    given['sim_method_newton_iter'] = int(rng.integers(1, 9))
    given['nlp_qp_tol_strategy'] = 'FIXED_QP_TOL' if rng.random() < .6 else 'ADAPTIVE_CURRENT_RES_JOINT'
    given['nlp_solver_max_iter'] = int(rng.integers(1, 40))
    if rng.random() < .5:
        given['timeout_max_time'] = float(rng.uniform(5, 100))
    given['fixed_hess'] = 0
    given['print_level'] = 0
    if t in ('SQP', 'SQP_WITH_FEASIBLE_QP'):
        given['store_iterates'] = bool(rng.integers(2))
    if t == 'SQP' and rng.random() < .3 and so.globalization == 'FIXED_STEP':
        given['qpscaling_scale_objective'] = 'OBJECTIVE_GERSHGORIN'
        given['qpscaling_scale_constraints'] = 'INF_NORM'
    if t == 'SQP_RTI':
        given['as_rti_level'] = int(rng.choice([4, 4, 3, 0]))
        given['rti_log_residuals'] = 0
    if t == 'DDP':
        given['with_adaptive_levenberg_marquardt'] = bool(rng.integers(2))
    if given.get('with_anderson_acceleration') is None and t in ('SQP', 'SQP_RTI') and so.globalization == 'FIXED_STEP' and rng.random() < .3:
        given['with_anderson_acceleration'] = True
    if so.globalization == 'FUNNEL_L1PEN_LINESEARCH':
        given['globalization_full_step_dual'] = 1
    if so.qp_solver.startswith('PARTIAL'):
        cn = int(rng.integers(1, N + 1)) if t != 'DDP' else N
        given['qp_solver_cond_N'] = cn
        if rng.random() < .5 and cn < N:
            b = np.ones(cn, int)
            for _ in range(N - cn):
                b[rng.integers(cn)] += 1
            given['qp_solver_cond_block_size'] = [int(q) for q in b] + [0]
    if integ in ('IRK', 'GNSF'):
        given['collocation_type'] = str(rng.choice(['GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE']))
    if integ != 'DISCRETE':
        per = lambda lo, hi: rng.integers(lo, hi, N) if rng.random() < .5 else int(rng.integers(lo, hi))
        given['sim_method_num_steps'] = per(1, 5)
        given['sim_method_num_stages'] = per(1, 5) if integ != 'GNSF' else int(rng.integers(1, 5))
        given['sim_method_jac_reuse'] = per(0, 2)
    if t == 'SQP_RTI':
        given['nlp_qp_tol_strategy'] = 'FIXED_QP_TOL'
    if so.qp_solver[:4] == 'FULL' or given.get('qp_solver_cond_N') != N:
        given['nlp_solver_warm_start_first_qp_from_nlp'] = False
    for k, v in given.items():
        try:
            setattr(so, k, v.copy() if isinstance(v, np.ndarray) else v)
        except Exception as e:
            ob.check(False, 'ocp/' + k, 'option %s refuses %r: %r' % (k, v, e))
            return
    try:
        s = make_solver(ocp) if not multi else phases(rng, pr, so)
    except (ValueError, NotImplementedError) as e:
        raise Inconclusive('refused: ' + str(e)[:120])
    rec = record(so)
    # making the problem consistent leaves given options alone
    for k, v in given.items():
        w = rec[k]
        if isinstance(w, np.ndarray) and not isinstance(v, np.ndarray):
            ok = w.size and np.all(w == v)
        elif isinstance(v, np.ndarray):
            ok = np.array_equal(np.ravel(w), v)
        else:
            ok = w == v
        if k == 'qp_solver_mu0' or (k, t) in KEPT:
            continue
        ob.check(ok, 'consistent/' + k, lambda: 'option %s: given %r, is %r after creating the solver' % (k, v, w))
    f = fields(rec, integ, N)
    rd = Reader(f)
    now = rd(s)
    ob.count('fields that could not be read', len(rd.lost))
    ob.check('tau_min' in rd.lost or not np.isnan(now['tau_min']), 'reader', 'nothing read')
    conf = (('phases, ' if multi else '') + t, so.globalization[:3], so.regularize_method[:4], so.qp_solver[:2], integ)
    for k, w in now.items():
        want = f[k][1]
        if want is None:
            continue
        ob.count('options compared')
        ob.state(k.split('[')[0], 'generation', *conf)
        eq(ob, 'generated/' + k.split('[')[0], w, want, lambda: 'option %s given as %r reaches the solver as %r (%s)' % (k, want, w, conf))
    # --------------------------------------------------------------- run time
    RT = runtime(t, so, f)
    for _ in range(25):
        k = str(rng.choice(list(RT) + ['!type', '!name']))
        before = now
        if k[0] == '!':
            n = str(rng.choice(list(RT)))
            try:
                if k == '!name':
                    s.options_set(n + '_x', 1.0)
                else:
                    typ = RT[n][1]
                    bad = {float: ['1.0', None, [1.0], 1], int: ['1', None, 1.5], bool: ['True', None, 1.5]}[typ]
                    s.options_set(n, bad[int(rng.integers(len(bad)))])
                ob.check(False, 'options_set/refuse', 'options_set accepts a wrong %s for %s' % ('name' if k == '!name' else 'type', n))
            except (TypeError, ValueError):
                pass
            exp = dict(before)
        else:
            touched, typ, gen = RT[k]
            v = gen(rng)
            try:
                s.options_set(k, v)
            except Exception as e:
                ob.check(False, 'options_set/' + k, 'options_set(%s, %r) raises %r' % (k, v, e))
                continue
            exp = dict(before)
            for q in touched:
                if q in exp:
                    exp[q] = float(v)
        now = rd(s)
        for q in now:
            eq(ob, 'options_set/' + k, now[q], exp[q], lambda: 'options_set(%s, %r): %s reads %r, expected %r (%s)' % (k, v if k[0] != '!' else '', q, now[q], exp[q], conf))
        ob.count('run-time settings')
        ob.state(k, 'run time', *conf)
    # a solver with valid options still works
    ob.count('solvers')


KEPT = {('levenberg_marquardt', 'DDP'), ('with_adaptive_levenberg_marquardt', 'DDP'), ('nlp_solver_max_iter', 'SQP_RTI')}


def eq(ob, key, got, want, msg):
    ob.check(abs(got - float(want)) <= 1e-12 * max(1e-12, abs(float(want))) or got == float(want), key, msg)


def runtime(t, so, f):
    d = {}
    F = float

    def add(k, typ, gen, touched=None):
        d[k] = (touched or [k], typ, gen)
    add('levenberg_marquardt', F, NONNEG.good)
    add('tau_min', F, NONNEG.good, ['tau_min', 'tau_min(qp)'])
    for k in ('stat', 'eq', 'ineq', 'comp'):
        add('qp_tol_' + k, F, POS.good)
        add('tol_' + k, F, POS.good, ['tol_' + k, 'qp_tol_' + k])
    add('warm_start_first_qp', bool, BOOL.good)
    add('warm_start_first_qp_from_nlp', bool, BOOL.good)
    add('qp_warm_start', int, lambda r: int(r.integers(3)), ['qp_warm_start', 'qp_warm_start(qp)'])
    add('qp_t0_init', int, lambda r: int(r.integers(3)))
    add('qp_mu0', F, POS.good)
    add('anderson_activation_threshold', F, POS.good)
    add('with_adaptive_levenberg_marquardt', bool, BOOL.good)
    for k in ('adaptive_levenberg_marquardt_lam', 'adaptive_levenberg_marquardt_mu_min', 'adaptive_levenberg_marquardt_mu0'):
        add(k, F, OCP[k].good)
    if t != 'SQP_RTI':
        mx = so.nlp_solver_max_iter
        add('max_iter', int, lambda r: int(r.integers(0, mx + 1)))
        add('nlp_solver_max_iter', int, lambda r: int(r.integers(0, mx + 1)), ['max_iter'])
    g = so.globalization
    add('globalization_full_step_dual', int, BIT.good)
    if g == 'FIXED_STEP':
        add('globalization_fixed_step_length', F, UNIT.good)
    else:
        for k in ('alpha_min', 'alpha_reduction', 'eps_sufficient_descent'):
            add('globalization_' + k, F, OCP['globalization_' + k].good)
    if g == 'MERIT_BACKTRACKING':
        for k in ('line_search_use_sufficient_descent', 'use_SOC'):
            add('globalization_' + k, int, BIT.good)
    if g == 'FUNNEL_L1PEN_LINESEARCH':
        for k in ('init_increase_factor', 'init_upper_bound', 'sufficient_decrease_factor', 'kappa', 'fraction_switching_condition', 'initial_penalty_parameter'):
            add('globalization_funnel_' + k, F, OCP['globalization_funnel_' + k].good)
    if t == 'SQP_RTI':
        add('rti_phase', int, lambda r: int(r.integers(1, 3)))
    return d
