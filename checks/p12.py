"""Status, statistics and failure reporting are truthful.

Generated problems are solved with SQP, SQP_WITH_FEASIBLE_QP, DDP and SQP_RTI under random limits, tolerances and injected faults, with the
iterates stored.  The statistics are then audited against the stored iterates with the independent evaluator: every residual row,
the number of iterations, the step norms and step sizes, the QP status and iteration columns, the final status (success exactly at
the first iterate that satisfies the tolerances, iteration limit only at the limit, minimal step only after a small step, timeout), the consistency of the times, and the values returned by the convenience getters.  *fault* families inject non-finite values,
crossing bounds, impossible limits and timeouts at random stages: the status must not be success, the promised status must be the one
reported, the exception of solve_for_x0 must come, and after repair of the data the solver has to work as a fresh one."""
import warnings
import numpy as np
from prob import Prob, Obj, make_solver

PROPERTY = 'P12'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['SQP_RTI returns success also when the QP solver stopped at its iteration limit (documented in the code): judged by qp_stat.']
RULE = 'distinct (solver type, globalization, fault or limit, formulation, resulting status) audited'
CASE_TIMEOUT = 120
FREE = dict(x0='fixed', bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, hess='GAUSS_NEWTON')
FAM = [('sqp', {}, 36), ('glob', dict(nz=0), 14), ('feas', dict(soft=0, constr='BGH', nz=0), 8), ('ddp', FREE, 10), ('rti', dict(nz=0, cost='EXTERNAL', cost_0='same', cost_e='CONVEX_OVER_NONLINEAR'), 10),
       ('fault', {}, 36), ('frti', {}, 10), ('timeout', {}, 10)]
COLS = dict(SQP=(1, 2, 3, 4), SQP_WITH_FEASIBLE_QP=(1, 2, 3, 4), DDP=(1, 2))


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=5000011 * seed + 37 * i + sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def to_obj(pr, it):
    o = Obj()
    for f in ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam'):
        l = [np.array(v) for v in getattr(it, f)]
        while len(l) < pr.N + 1 and f != 'pi':
            l.append(np.zeros(0))
        setattr(o, f, l)
    return o


def flat(it, fs=('x', 'u', 'sl', 'su', 'pi', 'lam')):
    return np.concatenate([np.concatenate(getattr(it, f)) for f in fs])


def times(s, ob, T):
    t = {f: s.get_stats(f) for f in ('time_tot', 'time_lin', 'time_sim', 'time_qp', 'time_qp_solver_call', 'time_qp_xcond', 'time_reg', 'time_glob', 'time_qpscaling')}
    ob.check(all(np.isfinite(v) and 0 <= v < 60 for v in t.values()), 'times', lambda: 'times %s: %s' % (t, T))
    e = 1e-4
    ob.check(t['time_lin'] + t['time_qp'] + t['time_reg'] + t['time_glob'] <= t['time_tot'] + e, 'times', lambda: 'parts exceed the total time: %s: %s' % (t, T))
    ob.check(t['time_qp_solver_call'] + t['time_qp_xcond'] <= t['time_qp'] + e and t['time_sim'] <= t['time_tot'] + e, 'times', lambda: 'nested times exceed the outer ones: %s: %s' % (t, T))


def audit(pr, s, ob, so, st, T, tol, maxiter, evalres, minstep, logs):
    """compare status and statistics with the stored iterates"""
    typ = so.nlp_solver_type
    n = s.get_stats('nlp_iter')
    ob.check(s.status == st, 'status', lambda: 'status attribute %s, returned %s: %s' % (s.status, st, T))
    ob.check(0 <= n <= maxiter or (st == 4 and n <= maxiter), 'nlp_iter', lambda: '%d iterations with limit %d: %s' % (n, maxiter, T))
    if typ == 'SQP':
        ob.check(s.get_stats('sqp_iter') == n, 'nlp_iter', lambda: 'sqp_iter and nlp_iter differ: ' + T)
    S = s.get_stats('statistics')
    ob.check(S.shape[1] == n + 1 and np.array_equal(S[0], np.arange(n + 1)), 'stat_shape', lambda: 'statistics shape %s for %d iterations: %s' % (S.shape, n, T))
    its = [to_obj(pr, i) for i in s.get_iterates().iterate_list]
    ob.check(len(its) == n + 1 and np.array_equal(flat(its[-1]), flat(pr.get_iterate(s)), equal_nan=True), 'last_iterate', lambda: 'the last stored iterate is not the current one: ' + T)
    final = n if (st != 2 or evalres) and st != 4 else n - 1   # last iterate with evaluated residuals
    cols = COLS[typ]
    norms = []
    for i in range(final + 1):
        r = pr.kkt(its[i])
        norms.append(r.norms)
        if st == 1 and i == n and np.max(np.abs(flat(its[i]))) > 1e3:
            break   # diverged: intermediate values overflow differently
        for j, c in enumerate(cols):
            ob.close(S[c, i], r.norms[j], 1e-7, 'row', 'residual column %d of iteration %d/%d, status %d: %s' % (c, i, n, st, T))
        if typ == 'DDP' and not pr.nz:
            ob.close(S[3, i], r.cost, 1e-7, 'row_cost', 'cost column of iteration %d/%d: %s' % (i, n, T))
    ob.count('rows', final + 1)
    # termination
    k = len(cols) if typ != 'DDP' else 3
    adaptive = so.with_adaptive_levenberg_marquardt   # may also stop at a zero-residual solution
    border = lambda r: any(abs(r[j] - tol[j]) < 1e-7 * (1 + tol[j]) for j in range(k)) or any(abs(r[j] - tol[j]) < 1e-9 for j in range(k))
    sat = [all(r[j] < tol[j] for j in range(k)) for r in norms]
    if not adaptive and not any(border(r) for r in norms):
        ob.check(not any(sat[:-1]), 'late', lambda: 'iterate %d satisfies the tolerances but the solver went on to %d, status %d: %s' % (sat.index(True), n, st, T))
        if norms and final == n:
            ob.check((st == 0) == bool(sat[-1]), 'success', lambda: 'status %d but final residuals %s with tolerances %s: %s' % (st, norms[-1], tol, T))
    if st == 2:
        ob.check(n == maxiter, 'maxiter', lambda: 'iteration limit %d reported after %d iterations: %s' % (maxiter, n, T))
    if st == 0 and final >= 0 and typ == 'DDP':
        pass
    elif n == maxiter and st not in (0, 1, 2, 3, 4, 7):
        ob.violation('maxiter', 'status %d at the iteration limit: %s' % (st, T))
    # steps
    if typ in ('SQP', 'DDP'):
        qs = S[5] if typ == 'SQP' else S[5]
        qi = S[6] if typ == 'SQP' else S[6]
        ob.check(qs[0] == 0 and qi[0] == 0 and np.all(qi >= 0) and np.all(qi <= so.qp_solver_iter_max), 'qp_iter', lambda: 'QP columns %s %s: %s' % (qs, qi, T))
        ob.check(set(qs[:-1]) <= {0, 2} and (qs[-1] in (0, 2)) == (st != 4), 'qp_stat', lambda: 'QP status column %s with status %d: %s' % (qs, st, T))
        ob.check(typ == 'DDP' or np.all(qi == 0) or np.all((qi[1:] > 0) | (qs[1:] != 0) | ('HPIPM' not in so.qp_solver)), 'qp_iter', lambda: 'QP solved without iterations: %s: %s' % (qi, T))
    ob.check(np.array_equal(s.get_stats('qp_iter'), S[6] if typ == 'SQP' else S[6] + S[8] + S[10]) if typ != 'DDP' else np.array_equal(s.get_stats('qp_iter'), S[6]) and np.array_equal(s.get_stats('qp_stat'), S[5]), 'qp_iter', lambda: 'get_stats(qp_iter) %s: %s' % (s.get_stats('qp_iter'), T))
    if typ == 'SQP':
        al = s.get_stats('alpha')
        for f, c in (('res_stat_all', 1), ('res_eq_all', 2), ('res_ineq_all', 3), ('res_comp_all', 4), ('qp_stat', 5), ('alpha', 7)):
            ob.check(np.array_equal(s.get_stats(f), S[c], equal_nan=True), 'getter', lambda: 'get_stats(%s) is not column %d: %s' % (f, c, T))
        ob.check(np.array_equal(s.get_stats('res_all'), S[1:5].T, equal_nan=True), 'getter', lambda: 'res_all: ' + T)
        ob.check(np.array_equal(s.get_residuals(), S[1:5, -1], equal_nan=True) or final < n, 'residuals', lambda: 'get_residuals %s, last row %s: %s' % (s.get_residuals(), S[1:5, -1], T))
        if logs and not so.with_anderson_acceleration:
            ps = s.get_stats('primal_step_norm')
            for i in range(n if st != 4 else n - 1):
                d = np.max(np.abs(flat(its[i + 1], ('x', 'u', 'sl', 'su')) - flat(its[i], ('x', 'u', 'sl', 'su'))))
                ob.close(d, al[i + 1] * ps[i], 1e-9, 'step_norm', 'step norm of iteration %d: %s' % (i, T))
                ob.count('steps')
        if minstep and norms and st in (0, 2, 3) and logs:
            ps = s.get_stats('primal_step_norm')
            if st == 3 and so.globalization == 'FIXED_STEP':
                ob.check(n > 0 and ps[n - 1] < minstep, 'minstep', lambda: 'minimal step reported, last step %s: %s' % (ps, T))
            ob.check(not np.any(ps[:max(n - 1, 0)] < minstep), 'minstep_late', lambda: 'steps %s below the limit %g did not stop the solver: %s' % (ps, minstep, T))
    times(s, ob, T)
    return norms


def configure(ocp, pr, fam, rng):
    so = ocp.solver_options
    so.nlp_solver_type = dict(feas='SQP_WITH_FEASIBLE_QP', ddp='DDP').get(fam, 'SQP')
    if fam == 'glob':
        so.globalization = str(rng.choice(['MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
    if fam == 'feas':
        so.globalization = 'FUNNEL_L1PEN_LINESEARCH'
    if fam == 'ddp':
        so.globalization = str(rng.choice(['MERIT_BACKTRACKING', 'FIXED_STEP']))
    if fam in ('sqp',) and rng.random() < 0.3:
        so.globalization_fixed_step_length = float(rng.uniform(0.3, 1))
    if fam in ('sqp', 'fault', 'timeout') and not pr.f['idxs_rev']:
        so.qp_solver = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP'], p=[.6, .25, .15] if not pr.f['soft'] and pr.f_hess != 'EXACT' else [.7, .3, 0]))
    if pr.f_hess == 'EXACT' and fam != 'ddp':
        so.regularize_method = str(rng.choice(['MIRROR', 'PROJECT', 'NO_REGULARIZE']))
    if fam == 'ddp' and rng.random() < 0.5:
        so.with_adaptive_levenberg_marquardt = True
    so.store_iterates = True


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 9)
    fam = case['fam']
    globals()['f_' + ('trace' if fam in ('sqp', 'glob', 'feas', 'ddp') else fam)](case, ob, rng, fam)


def f_trace(case, ob, rng, fam):
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    configure(ocp, pr, fam, rng)
    cap = int(rng.choice([1, 2, 4, 8, 20]))
    so.nlp_solver_max_iter = cap
    if rng.random() < 0.6:
        so.eval_residual_at_max_iter = bool(rng.integers(2))
    evalres = so.eval_residual_at_max_iter if so.eval_residual_at_max_iter is not None else so.globalization == 'FUNNEL_L1PEN_LINESEARCH'
    minstep = 0.0
    if fam == 'sqp' and rng.random() < 0.4:
        minstep = float(10 ** rng.uniform(-6, -0.5))
        so.nlp_solver_tol_min_step_norm = minstep
    logs = fam == 'sqp'
    if logs:
        so.log_primal_step_norm = True
        so.log_dual_step_norm = True
    if rng.random() < 0.3:
        so.nlp_solver_ext_qp_res = 1
    if rng.random() < 0.2 and 'HPIPM' in so.qp_solver:
        so.qp_solver_iter_max = int(rng.integers(1, 5))
    s = make_solver(ocp)
    tol = np.array([so.nlp_solver_tol_stat, so.nlp_solver_tol_eq, so.nlp_solver_tol_ineq, so.nlp_solver_tol_comp], float)
    names = ['stat', 'eq', 'ineq', 'comp']
    mx = cap
    for rep in range(4):
        if rep:
            for j in range(4):
                if rng.random() < 0.5:
                    tol[j] = 10 ** rng.uniform(-7, 0)
                    s.options_set('tol_' + names[j], float(tol[j]))
            if rng.random() < 0.5:
                mx = int(rng.integers(0 if evalres else 1, cap + 1))
                s.options_set('nlp_solver_max_iter', mx)
        pr.set_iterate(s, pr.random_iterate(rng, 0.4, 0.3))
        st = s.solve()
        T = '%s %s max_iter=%d %s' % (so.nlp_solver_type, so.globalization, mx, pr.tag())
        audit(pr, s, ob, so, st, T, tol, mx, evalres, minstep, logs)
        ob.count('status_%d' % st)
        ob.state(so.nlp_solver_type, so.globalization, so.qp_solver, st, pr.tag())
        if st == 1 or st == 4:
            s.reset()
            if pr.np:
                s.set_flat('p', np.concatenate([q.p for q in pr.st]))
            for j in range(4):
                s.options_set('tol_' + names[j], float(tol[j]))


def f_rti(case, ob, rng, fam):
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP_RTI'
    so.rti_log_residuals = 1
    full = bool(rng.integers(2)) and pr.f['cost_e'] != 'NONLINEAR_LS'
    so.rti_log_only_available_residuals = int(not full)
    ext = int(rng.integers(2))
    so.nlp_solver_ext_qp_res = ext
    s = make_solver(ocp)
    for rep in range(4):
        it = pr.random_iterate(rng, 0.4, 0.3)
        pr.set_iterate(s, it)
        st = s.solve()
        T = 'RTI ext=%d full=%d %s' % (ext, full, pr.tag())
        S = s.get_stats('statistics')
        n = s.get_stats('nlp_iter')
        ob.check(n == 1 and S.shape[1] == 2, 'rti_iter', lambda: 'nlp_iter %d, statistics shape %s: %s' % (n, S.shape, T))
        a, b = pr.kkt(it).norms, pr.kkt(pr.get_iterate(s)).norms
        for j, f in enumerate(('res_stat_all', 'res_eq_all', 'res_ineq_all', 'res_comp_all')):
            v = s.get_stats(f)
            ob.close(v[0], a[j], 1e-7, 'rti_res', '%s before the step: %s' % (f, T))
            if full and st == 0:
                ob.close(v[1], b[j], 1e-7, 'rti_res', '%s after the step: %s' % (f, T))
        ob.check(np.array_equal(s.get_stats('qp_stat'), S[1]) and np.array_equal(s.get_stats('qp_iter'), S[2]) and S[1][1] in (0, 2, 4, 1, 3, 6, 9), 'rti_qp', lambda: 'QP columns %s: %s' % (S[1:3], T))
        times(s, ob, T)
        ob.count('rows', 2)
        ob.state('rti', ext, full, st, pr.tag())
        if st:
            s.reset()


def faults(pr, rng):
    """list of (name, inject(s), repair(s), allowed statuses)"""
    N = pr.N
    k = int(rng.integers(N + 1))
    bad = float(rng.choice([np.nan, np.inf, -np.inf]))
    out = []

    def iterate(s):
        it = pr.random_iterate(rng, 0.3, 0.2)
        it.x[k][int(rng.integers(pr.nx))] = np.nan
        pr.set_iterate(s, it)
    out.append(('x NaN', iterate, lambda s: None))
    if pr.np:
        def par(s):
            for q in range(N + 1):
                s.set(q, 'p', np.full(pr.np, np.nan))
        out.append(('p NaN', par, lambda s: [s.set(q, 'p', pr.st[q].p) for q in range(N + 1)]))
    st = pr.st[k]
    if pr.ck[pr.kind(k)].type != 'EXTERNAL':
        out.append(('yref NaN', lambda s: s.cost_set(k, 'yref', np.full(pr.ck[pr.kind(k)].ny, np.nan)), lambda s: s.cost_set(k, 'yref', st.yref)))
    if pr.f['x0'] == 'fixed':
        out.append(('x0 NaN', lambda s: (s.set(0, 'lbx', np.full(pr.nx, np.nan)), s.set(0, 'ubx', np.full(pr.nx, np.nan))),
                    lambda s: (s.set(0, 'lbx', pr.st[0].lbx), s.set(0, 'ubx', pr.st[0].ubx))))
    # crossing hard bounds
    hard = [i for i in range(st.nbu) if st.rev[i] < 0]
    if st.nbu and hard:
        i = hard[int(rng.integers(len(hard)))]

        def cross(s):
            lo, hi = st.lbu.copy(), st.ubu.copy()
            lo[i], hi[i] = 3.0, -3.0
            s.constraints_set(k, 'lbu', lo)
            s.constraints_set(k, 'ubu', hi)
        out.append(('crossing', cross, lambda s: (s.constraints_set(k, 'lbu', st.lbu), s.constraints_set(k, 'ubu', st.ubu))))
    return out


def f_fault(case, ob, rng, fam):
    rti = fam == 'frti'
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    configure(ocp, pr, fam if not rti else 'x', rng)
    if rti:
        so.nlp_solver_type = 'SQP_RTI'
        so.store_iterates = False
    so.nlp_solver_max_iter = 15
    s = make_solver(ocp)
    ref = pr.random_iterate(rng, 0.3, 0.2)

    def base(x):
        pr.set_iterate(x, ref)
        st = x.solve()
        return st, flat(pr.get_iterate(x))
    st0, r0 = base(s)
    F = faults(pr, rng)
    for rep in range(4):
        nm, inject, repair = F[int(rng.integers(len(F)))]
        pr.set_iterate(s, pr.random_iterate(rng, 0.3, 0.2))
        inject(s)
        T = '%s at %s %s %s' % (nm, so.nlp_solver_type, so.qp_solver, pr.tag())
        raised = None
        if nm == 'x0 NaN' or pr.f['x0'] != 'fixed' or rng.random() < 0.5:
            st = s.solve()
        else:
            try:
                s.solve_for_x0(pr.st[0].lbx, fail_on_nonzero_status=True, print_stats_on_failure=False)
                raised = False
            except RuntimeError as e:
                raised = True
                ob.check('status %d' % s.status in str(e), 'message', lambda: 'message of the exception is %s: %s' % (e, T))
            st = s.status
            ob.check(raised == (st != 0), 'raised', lambda: 'solve_for_x0 %s with status %d: %s' % ('raised' if raised else 'did not raise', st, T))
        it = flat(pr.get_iterate(s))
        if nm == 'crossing':
            ok = st != 0 if not rti else st != 0 or s.get_stats('qp_stat')[-1] != 0
            ob.check(ok, 'infeasible', lambda: 'status %d, QP status %s, %s: %s' % (st, s.get_stats('qp_stat')[-1], nm, T))
        elif rti:
            ob.check(st != 0 or np.all(np.isfinite(it)) and s.get_stats('qp_stat')[-1] == 0 or s.get_stats('qp_stat')[-1] != 0, 'nonfinite', lambda: 'status 0 with a non-finite iterate, %s: %s' % (nm, T))
            if not np.all(np.isfinite(it)):
                ob.check(st != 0, 'nonfinite', lambda: 'status 0 with a non-finite iterate, %s: %s' % (nm, T))
        else:
            # the data may be irrelevant (unused parameters, a free variable); then everything is finite
            ob.check(st != 0 or np.all(np.isfinite(it)), 'nonfinite', lambda: 'status 0 with a non-finite iterate, %s: %s' % (nm, T))
            if nm == 'x NaN':
                ob.check(st == 1, 'nan_status', lambda: 'status %d for a NaN initial guess: %s' % (st, T))
            if nm == 'yref NaN':
                ob.check(st == 1, 'nan_status', lambda: 'status %d for a NaN reference: %s' % (st, T))
        ob.count('faults')
        ob.count('fault_status_%d' % st)
        ob.state(so.nlp_solver_type, so.qp_solver, nm, st, pr.tag())
        repair(s)
        s.reset()
        if pr.np:
            s.set_flat('p', np.concatenate([q.p for q in pr.st]))
        if pr.npg:
            s.set_p_global_and_precompute_dependencies(pr.pgval)
        st1, r1 = base(s)
        ob.check(st1 == st0 and np.allclose(r1, r0, rtol=1e-9, atol=1e-9, equal_nan=True), 'usable', lambda: 'after %s and repair: status %d (before %d), difference %.2e' % (T, st1, st0, np.nanmax(np.abs(r1 - r0))))


f_frti = f_fault


def f_timeout(case, ob, rng, fam):
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    configure(ocp, pr, fam, rng)
    so.nlp_solver_max_iter = 10
    so.eval_residual_at_max_iter = True
    h = str(rng.choice(['ZERO', 'LAST', 'MAX_CALL', 'MAX_OVERALL', 'AVERAGE']))
    so.timeout_heuristic = h
    so.timeout_max_time = float(rng.choice([1e-9, 1e4]))
    so.nlp_solver_tol_stat = so.nlp_solver_tol_comp = so.nlp_solver_tol_eq = so.nlp_solver_tol_ineq = 1e-7
    s = make_solver(ocp)
    tol = np.full(4, 1e-7)
    for rep in range(3):
        pr.set_iterate(s, pr.random_iterate(rng, 0.3, 0.2))
        it = pr.get_iterate(s)
        st = s.solve()
        T = 'timeout %g %s %s' % (so.timeout_max_time, h, pr.tag())
        audit(pr, s, ob, so, st, T, tol, 10, True, 0, False)
        if so.timeout_max_time < 1:
            ob.check(st == 7 and s.get_stats('nlp_iter') == 0, 'timeout', lambda: 'status %d after %d iterations: %s' % (st, s.get_stats('nlp_iter'), T))
            ob.check(np.array_equal(flat(pr.get_iterate(s)), flat(it)), 'timeout', lambda: 'iterate changed: ' + T)
        else:
            ob.check(st != 7, 'timeout', lambda: 'timeout reported: ' + T)
        ob.state('timeout', h, so.timeout_max_time, st, pr.tag())
        if st in (1, 4):
            s.reset()
