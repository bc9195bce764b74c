"""QP scaling does not change the problem that is solved.

Generated problems (random magnitudes of bounds, coefficients and weights, slacks, masked sides, all cost and constraint types) are put at
random primal-dual iterates and one SQP iteration is executed with objective scaling, constraint scaling or both and random limits.  The
step with all multipliers and slacks must satisfy the optimality conditions of the unscaled reference QP; the reported scaling factors must
equal the documented formulas evaluated with the reference linearization, respect the configured limits, and never be zero, negative or not
finite.  Full runs with scaling (SQP and SQP_WITH_FEASIBLE_QP, line searches, condensing, adaptive QP tolerances, several solves) are judged
by the optimality conditions of the unscaled problem and against runs without scaling."""
import warnings
import numpy as np
from prob import Prob, Obj, make_solver
from p03 import step_kkt, hessian

PROPERTY = 'P15'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['DAQP is a stand-in (see P04).', 'Shared slacks (idxs_rev) are not combined with constraint scaling.']
RULE = 'distinct (scaling, kind of run, formulation, which limits are active) judged'
CASE_TIMEOUT = 120
FAM = [('step', {}, 36), ('soft', dict(soft=2), 16), ('bgp', dict(constr='BGP', nh=2), 10), ('solve', {}, 26), ('feas', dict(constr='BGH', soft=0), 10), ('adapt', {}, 8), ('ddp', dict(x0='fixed', bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, nz=0), 3)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=15000017 * seed + 47 * i + 3 * sum(map(ord, nm)), fix=dict(dict(idxs_rev=False, hess='GAUSS_NEWTON'), **fix), fam=nm))
    return out


def scaling(so, rng):
    w = int(rng.integers(3))
    if w != 1:
        so.qpscaling_scale_objective = 'OBJECTIVE_GERSHGORIN'
        so.qpscaling_ub_max_abs_eig = float(10 ** rng.uniform(-1.5, 2))
        if rng.random() < .6:
            so.qpscaling_lb_norm_inf_grad_obj = float(10 ** rng.uniform(-4, 1.5))
    if w != 0:
        so.qpscaling_scale_constraints = 'INF_NORM'
    return w



def gersh(H):
    r = np.sum(np.abs(H), 1) - np.abs(np.diag(H))
    d = np.diag(H)
    return np.max(np.maximum(np.abs(d - r), np.abs(d + r)), initial=0)


def factors(pr, ob, so, s, ref, Hs, T):
    lim = ''
    if so.qpscaling_scale_objective != 'NO_OBJECTIVE_SCALING':
        eig, grad = 0.0, 0.0
        exact = 0.0
        for k in range(pr.N + 1):
            o, q = ref[k], pr.st[k]
            Z = np.concatenate([q.scal * q.Zl, q.scal * q.Zu])
            eig = max(eig, gersh(Hs[k]), np.max(np.abs(Z), initial=0))
            exact = max(exact, np.max(np.abs(np.linalg.eigvalsh(Hs[k]))), np.max(np.abs(Z), initial=0))
            grad = max(grad, np.max(np.abs(np.concatenate([o.g, o.gsl, o.gsu])), initial=0))
        ub, lb = so.qpscaling_ub_max_abs_eig, so.qpscaling_lb_norm_inf_grad_obj
        f = s.get_qp_scaling_objective()
        want = min(1.0, ub / eig)
        lim += 'd' if want < 1 else '1'
        st = 0
        if want * grad <= lb:
            want = max(want, min(ub / eig, lb / grad))
            st = 8
            lim += 'u'
        ob.close(f, want, 1e-7, 'obj_factor', 'objective scaling (max. eigenvalue estimate %g, gradient %g, limits %g %g): %s' % (eig, grad, ub, lb, T))
        ob.check(f * exact <= ub * (1 + 1e-7), 'obj_limit', lambda: 'largest eigenvalue of the scaled Hessian %g above the limit %g: %s' % (f * exact, ub, T))
        got = s.get_stats('qpscaling_status')
        if abs(min(1.0, ub / eig) * grad - lb) > 1e-6 * lb:
            ob.check((got == 0) == (st == 0), 'status', lambda: 'qpscaling_status %d, gradient %g after scaling, limit %g: %s' % (got, f * grad, lb, T))
    if so.qpscaling_scale_constraints != 'NO_CONSTRAINT_SCALING':
        for k in range(pr.N + 1):
            o, q = ref[k], pr.st[k]
            nb = q.nbu + q.nbx
            n = q.ni - nb
            f = s.get_qp_scaling_constraints(k)
            ob.check(len(f) == n, 'constr_factor', lambda: '%d factors for %d constraints of stage %d: %s' % (len(f), n, k, T))
            m = o.mask[:2 * q.ni]
            b = np.maximum(np.abs(o.fun[nb:q.ni] * m[nb:q.ni]), np.abs(o.fun[q.ni + nb:2 * q.ni] * m[q.ni + nb:]))
            want = 1 / np.maximum(1.0, np.maximum(b, np.max(np.abs(o.J[nb:]), axis=1, initial=0)))
            if n:
                ob.close(f, want, 1e-7, 'constr_factor', 'constraint scaling of stage %d: %s' % (k, T))
                ob.check(np.all(f * np.maximum(b, np.max(np.abs(o.J[nb:]), axis=1, initial=0)) <= 1 + 1e-7), 'constr_limit', lambda: 'scaled coefficients above 1 at stage %d: %s' % (k, T))
                lim += 'c' if np.min(want) < 1 else '-'
    return lim


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 15)
    fam = case['fam']
    pr = Prob(case['seed'], **case['fix'])
    if fam == 'ddp':
        return f_ddp(pr, ob, rng)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP'
    w = scaling(so, rng)
    T = '%s %s %s' % (so.qpscaling_scale_objective, so.qpscaling_scale_constraints, pr.tag())
    so.qp_solver_iter_max = 300
    if fam in ('step', 'soft', 'bgp'):
        so.nlp_solver_max_iter = 1
        so.qp_solver_cond_N = pr.N
        so.qp_tol = 1e-11
        so.qp_tau_min = None if not hasattr(so, 'qp_tau_min') else so.qp_tau_min
        lm = float(rng.uniform(.01, 1)) if rng.random() < .5 else 0.0
        so.levenberg_marquardt = lm
        s = make_solver(ocp)
        for rep in range(3):
            it = pr.random_iterate(rng, float(rng.choice([.2, 1.0, 3.0])), .3)
            pr.set_iterate(s, it)
            st = s.solve()
            new = pr.get_iterate(s)
            ref = [pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)]
            Hs = [hessian(pr, ref[k], k, dict(exact=0), lm) for k in range(pr.N + 1)]
            if st == 0:
                continue        # already converged at the first check: no QP
            lim = factors(pr, ob, so, s, ref, Hs, T)
            ok = st == 2 and s.get_stats('statistics')[5, 1] == 0
            ob.count('status_%d' % st if st != 2 or ok else 'qp_inexact')
            if ok:
                step_kkt(pr, ob, ref, Hs, it, new)
                ob.count('steps')
                ob.state(w, lim, pr.tag())
            elif st == 4:
                s.reset()
                repair(pr, s)
        return
    f_solve(pr, ob, rng, ocp, so, w, fam, T)


def repair(pr, s):
    if pr.np:
        s.set_flat('p', np.concatenate([q.p for q in pr.st]))
    if pr.npg:
        s.set_p_global_and_precompute_dependencies(pr.pgval)


def f_solve(pr, ob, rng, ocp, so, w, fam, T):
    from p12 import audit
    so.nlp_solver_max_iter = 100
    tol = 1e-6
    so.nlp_solver_tol_stat = so.nlp_solver_tol_eq = so.nlp_solver_tol_ineq = so.nlp_solver_tol_comp = tol
    so.qpscaling_ub_max_abs_eig = max(so.qpscaling_ub_max_abs_eig, 0.3)
    ext = False
    if fam == 'feas':
        so.nlp_solver_type = 'SQP_WITH_FEASIBLE_QP'
        so.globalization = 'FUNNEL_L1PEN_LINESEARCH'
        so.search_direction_mode = str(rng.choice(['NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'][:2]))
    elif fam == 'adapt':
        so.nlp_qp_tol_strategy = 'ADAPTIVE_QPSCALING'
    else:
        so.qp_solver = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP']))
        so.globalization = str(rng.choice(['FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
        so.qp_solver_cond_N = int(rng.integers(1, pr.N + 1))
        so.qp_solver_warm_start = int(rng.integers(2)) if 'HPIPM' in so.qp_solver else 0
    if fam != 'adapt':
        so.qp_tol = 1e-9
    so.levenberg_marquardt = .05
    T = '%s %s %s %s %s' % (so.nlp_solver_type, so.globalization, so.qp_solver, fam, T)
    s = make_solver(ocp)
    o2 = pr.make_ocp()
    for f in ('nlp_solver_type', 'globalization', 'qp_solver', 'qp_solver_iter_max', 'nlp_solver_max_iter', 'levenberg_marquardt', 'qp_solver_cond_N'):
        if getattr(so, f) is not None:
            setattr(o2.solver_options, f, getattr(so, f))
    if fam == 'feas':
        o2.solver_options.search_direction_mode = so.search_direction_mode
    o2.solver_options.qp_tol = 1e-9
    q = o2.solver_options
    q.nlp_solver_tol_stat = q.nlp_solver_tol_eq = q.nlp_solver_tol_ineq = q.nlp_solver_tol_comp = tol
    plain = make_solver(o2)
    for rep in range(3):
        it = pr.random_iterate(rng, .3, .1)
        pr.set_iterate(s, it)
        pr.set_iterate(plain, it)
        a, b = s.solve(), plain.solve()
        ob.count('pair_%d_%d' % (a, b))
        if a == 0:
            got = pr.get_iterate(s)
            n = pr.kkt(got).norms
            # complementarity and stationarity are those of the unscaled problem
            for i, f in enumerate(('stat', 'eq', 'ineq', 'comp')):
                ob.check(n[i] <= 2 * tol, 'kkt_' + f, lambda: 'success reported, but residual %s of the unscaled problem is %.2e: %s' % (f, n[i], T))
            ob.close(s.get_residuals(), n, 1e-7, 'residuals', 'residuals: ' + T)
            ob.close(s.get_cost(), pr.cost(got), 1e-9, 'cost', 'cost: ' + T)
            if b == 0 and fam != 'adapt':
                p = pr.get_iterate(plain)
                if abs(pr.cost(p) - pr.cost(got)) > 1e-4 * (1 + abs(pr.cost(p))):
                    ob.count('other_minimum')
                ob.count('both')
        elif b == 0:
            ob.count('scaled_only_failed')
            # same problem, same start, exact QP solutions: the iterations are the same up to rounding of the QPs
            if fam in ('solve',) and s.get_stats('nlp_iter') and plain.get_stats('nlp_iter') < 15:
                ob.check(a in (2, 4), 'status', lambda: 'status %d with, 0 without scaling: %s' % (a, T))
        if a in (1, 4):
            s.reset(); repair(pr, s)
        if b in (1, 4):
            plain.reset(); repair(pr, plain)
        ob.state(w, a, fam, so.qp_solver, so.globalization, pr.tag())


def f_ddp(pr, ob, rng):
    """either refused or right"""
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'DDP'
    so.qpscaling_scale_objective = 'OBJECTIVE_GERSHGORIN'
    so.qpscaling_ub_max_abs_eig = .3
    so.nlp_solver_max_iter = 100
    try:
        s = make_solver(ocp)
    except (NotImplementedError, ValueError):
        ob.count('refused')
        ob.check(True, 'ddp', '')
        return
    o2 = pr.make_ocp('unscaled')
    for a in ('nlp_solver_type', 'qp_solver', 'qp_solver_cond_N', 'globalization', 'nlp_solver_max_iter', 'regularize_method'):
        setattr(o2.solver_options, a, getattr(so, a))
    u = make_solver(o2)
    it = pr.random_iterate(rng, .3, .1)
    pr.set_iterate(s, it)
    pr.set_iterate(u, it)
    st, su = s.solve(), u.solve()
    n, m = pr.kkt(pr.get_iterate(s)).norms, pr.kkt(pr.get_iterate(u)).norms
    ob.count('ddp solves')
    # Gauss-Newton may also end with small steps instead of small residuals
    ob.check(st == su or st == 0 or su == 3 and st == 2 or max(n) <= 1e3 * max(m) and max(n) < 1e-3, 'ddp',
             lambda: 'DDP with QP scaling: status %d, residuals %s, without scaling %d, %s: %s' % (st, n, su, m, pr.tag()))
    if su == 0:
        ob.check(max(n) < 1e-3, 'ddp', lambda: 'DDP with QP scaling: status %d, residuals %s, without scaling %d, %s: %s' % (st, n, su, m, pr.tag()))
