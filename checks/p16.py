"""Real-time iteration phases compose to the documented full step.

Closed-loop histories on generated problems.  *split*: preparation, then a new initial state, then feedback, against the
combined call on a second instance and against the KKT conditions of the reference QP (exact linearization at the prepared
iterate, initial state given after the preparation); all condensing variants, regularizations, Levenberg-Marquardt terms and
Hessians; the same step also as one iteration of the SQP solver.  *as*: advanced-step RTI with every level and advancement
strategy; the advanced initial state is compared with its definition and the iterate produced by the preparation has to satisfy
the KKT conditions of the QP that defines the level: A = previous linearization with the advanced state, B = zero-order QP (constraint
functions at the current iterate, matrices of the previous linearization, gradient extrapolated with the Hessian), C = adjoint
corrected QP (current functions, gradients and adjoints, previous matrices), D = full SQP iterations.  *fix*: many level B / C / D iterations
converge to points that are feasible (B) or KKT points (C, D) of the problem with the advanced state, as evaluated by the reference."""
import warnings
import numpy as np
from prob import Prob, Obj, make_solver
import p03

PROPERTY = 'P16'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['HPIPM condensing (external) factorizes the state Hessian blocks: with indefinite blocks steps are judged only without condensing.', 'RTI status does not reveal a QP iteration limit, so steps are judged when the QP solver reports success.']
RULE = 'distinct (family, level, strategy, solver configuration, formulation) whose phases were judged'
CASE_TIMEOUT = 120

QPS = ['PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP']


def cases(tier, seed):
    out = []
    for nm, n in (('split', 56), ('sqp1', 20), ('as0', 16), ('as1', 16), ('as2', 16), ('as3', 16), ('fix1', 10), ('fix2', 10), ('fix3', 8)):
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s_%d_%d' % (nm, seed, i), seed=4000037 * seed + 31 * i + sum(map(ord, nm)), fam=nm))
    return out


def refpoint(pr, it, opt, lm):
    o = [pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)]
    return o, [p03.hessian(pr, o[k], k, opt, lm) for k in range(pr.N + 1)]


def convex(pr, H):
    return all(np.min(np.linalg.eigvalsh(h)) > 1e-9 for h in H)


def qp_ok(s):
    return int(np.ravel(s.get_stats('qp_stat'))[-1]) == 0


def setup(case, rng, fix):
    pr = Prob(case['seed'], **fix)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP_RTI'
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact']:
        opt['constr'] = so.exact_hess_constr
    lm = float(rng.uniform(0.05, 1)) if rng.random() < 0.3 else 0.0
    so.levenberg_marquardt = lm
    return pr, ocp, so, opt, lm


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 1)
    fam = case['fam']
    (split if fam == 'split' else sqp1 if fam == 'sqp1' else asrti if fam.startswith('as') else fixp)(case, ob, rng)


def pick_qp(pr, so, rng):
    qp = str(rng.choice(QPS))
    if 'DAQP' in qp and (pr.f['soft'] or pr.f['hess'] == 'EXACT'):
        qp = 'PARTIAL_CONDENSING_HPIPM'
    so.qp_solver = qp
    so.qp_solver_cond_N = int(rng.integers(1, pr.N + 1)) if 'PARTIAL' in qp else pr.N
    if 'DAQP' in qp:
        so.qp_solver_iter_max = 1000
        so.qp_tol = 1e-9
    return qp


def split(case, ob, rng):
    pr, ocp, so, opt, lm = setup(case, rng, {})
    qp = pick_qp(pr, so, rng)
    reg = 'NO_REGULARIZE'
    if pr.f_hess == 'EXACT' or rng.random() < 0.2:
        reg = str(rng.choice(['NO_REGULARIZE', 'PROJECT', 'MIRROR', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT']))
    if pr.f['x0'] != 'fixed' and reg in ('CONVEXIFY', 'PROJECT_REDUC_HESS'):
        reg = 'PROJECT'
    so.regularize_method = reg
    so.rti_log_residuals = int(rng.random() < 0.3)
    so.rti_log_only_available_residuals = 1
    A = make_solver(ocp)
    from acados_template import AcadosOcpSolver
    B = AcadosOcpSolver(ocp, generate=False, build=False, verbose=False)
    T = '%s %s reg=%s' % (pr.tag(), qp, reg)
    n0 = pr.st[0].nbx
    it = pr.random_iterate(rng, 0.5, 0.3)
    for rep in range(5):
        if rep == 0 or rng.random() < 0.4:
            it = pr.random_iterate(rng, 0.5, 0.3)
            for s in (A, B):
                s.reset()
                if pr.np:
                    s.set_flat('p', np.concatenate([q.p for q in pr.st]))
                pr.set_iterate(s, it)
        elif pr.np:
            k = int(rng.integers(pr.N + 1))
            pr.st[k].p = rng.uniform(-.5, .5, pr.np)
            for s in (A, B):
                s.set(k, 'p', pr.st[k].p)
        it = pr.get_iterate(A)
        x0 = rng.uniform(-.6, .6, n0)
        if n0 and pr.f['x0'] != 'fixed':
            o = pr.st[0]
            lo, hi = o.lbx + 0.1 * x0, o.ubx + 0.1 * x0
            lo, hi = np.where(np.abs(o.lbx) < 1e9, lo, o.lbx), np.where(np.abs(o.ubx) < 1e9, hi, o.ubx)
        else:
            lo = hi = x0
        A.options_set('rti_phase', 1)
        A.solve()
        ob.check(np.array_equal(np.concatenate(pr.get_iterate(A).x), np.concatenate(it.x)), 'prep_moves', 'the preparation phase changed the iterate: ' + T)
        for s in (A, B):
            if n0:
                s.set(0, 'lbx', lo)
                s.set(0, 'ubx', hi)
        if n0:
            pr.st[0].lbx, pr.st[0].ubx = lo, hi
        A.options_set('rti_phase', 2)
        sa = A.solve()
        qa = qp_ok(A)
        if rng.random() < 0.3 and pr.f['x0'] == 'fixed':
            B.options_set('rti_phase', 0)
            try:
                u0 = B.solve_for_x0(x0, fail_on_nonzero_status=False, print_stats_on_failure=False)
                ob.check(np.array_equal(u0, B.get(0, 'u')), 'solve_for_x0', 'solve_for_x0 does not return u0: ' + T)
            except Exception as e:
                ob.violation('solve_for_x0', 'solve_for_x0 raised %r: %s' % (e, T))
            sb = B.status
        else:
            B.options_set('rti_phase', 0)
            sb = B.solve()
        if not (sa == 0 and sb == 0 and qa and qp_ok(B)):
            ob.count('not_judged')
            ob.check((sa == 0) == (sb == 0) or not (qa and qp_ok(B)) or reg != 'NO_REGULARIZE' or opt['exact'], 'split_status', 'status %d split, %d combined: %s' % (sa, sb, T))
            for s in (A, B):
                s.reset()
                if pr.np:
                    s.set_flat('p', np.concatenate([q.p for q in pr.st]))
                if n0:
                    s.set(0, 'lbx', lo)
                    s.set(0, 'ubx', hi)
                pr.set_iterate(s, pr.random_iterate(np.random.default_rng(rep), 0.3, 0.2))
            continue
        a, b = pr.get_iterate(A), pr.get_iterate(B)
        nonconvex = opt['exact'] and reg == 'NO_REGULARIZE'
        if not nonconvex:
            tol = 1e-5
            for f in ('x', 'u'):
                ob.close(np.concatenate(getattr(a, f)), np.concatenate(getattr(b, f)), tol, 'split_' + f, '%s of split and combined call: %s' % (f, T))
            if pr.nz:
                ob.close(np.concatenate(a.z), np.concatenate(b.z), tol, 'split_z', 'z of split and combined call: %s' % T)
        if reg == 'NO_REGULARIZE' or not opt['exact']:
            o, H = refpoint(pr, it, opt, lm)
            if (reg == 'NO_REGULARIZE' or lm > 0 and not opt['exact']) and (convex(pr, H) or so.qp_solver_cond_N == pr.N and 'PARTIAL' in qp):
                p03.step_kkt(pr, ob, o, H, it, a, skip_x0=reg == 'CONVEXIFY')
                p03.step_kkt(pr, ob, o, H, it, b, skip_x0=reg == 'CONVEXIFY')
        ob.count('split_steps')
        ob.state('split', qp, so.qp_solver_cond_N, reg, pr.tag())
        pr.set_iterate(B, a)
        pr.set_iterate(A, a)


def sqp1(case, ob, rng):
    pr, ocp, so, opt, lm = setup(case, rng, {})
    so.qp_solver_cond_N = pr.N
    import copy
    A = make_solver(ocp)
    ocp2 = pr.make_ocp(name='sqp%d' % case['seed'])
    s2 = ocp2.solver_options
    s2.nlp_solver_type = 'SQP'
    s2.nlp_solver_max_iter = 1
    s2.levenberg_marquardt = lm
    s2.qp_tol, s2.qp_solver_iter_max, s2.qp_solver_cond_N = so.qp_tol, so.qp_solver_iter_max, pr.N
    s2.tol = 1e-14
    B = make_solver(ocp2)
    for rep in range(3):
        it = pr.random_iterate(rng, 0.5, 0.3)
        for s in (A, B):
            s.reset()
            pr.set_iterate(s, it)
        sa, sb = A.solve(), B.solve()
        if sa == 0 and sb == 2 and qp_ok(A) and qp_ok(B):
            a, b = pr.get_iterate(A), pr.get_iterate(B)
            for f in ('x', 'u', 'pi', 'lam', 'sl', 'su', 'z'):
                ob.close(np.concatenate(getattr(a, f)), np.concatenate(getattr(b, f)), 1e-6, 'sqp1_' + f, '%s of a real-time iteration and of one SQP iteration: %s' % (f, pr.tag()))
            ob.count('sqp1_steps')
            ob.state('sqp1', pr.tag())
        else:
            ob.count('not_judged')


def level_fix(level, rng):
    fix = dict(x0='fixed')
    if level == 1:
        fix.update(soft=0)
    if level == 2:
        fix.update(nh=0, nh_0=0, nh_e=0)
    if level in (1, 2):
        for f in ('cost', 'cost_0', 'cost_e'):
            fix[f] = str(rng.choice(['EXTERNAL', 'CONVEX_OVER_NONLINEAR']))
        fix['cost_0'] = 'same' if rng.random() < 0.5 else fix['cost_0']
    return fix


def asrti(case, ob, rng):
    level = int(case['fam'][2])
    pr, ocp, so, opt, lm = setup(case, rng, level_fix(level, rng))
    so.as_rti_level = level
    strat = 'SIMULATE_ADVANCE'     # the only strategy that the interfaces offer
    nit = int(rng.choice([1, 1, 1, 2, 0])) if level else 1
    qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM']))
    so.qp_solver = qp
    so.qp_solver_cond_N = int(rng.integers(1, pr.N + 1)) if 'PARTIAL' in qp else pr.N
    so.as_rti_iter = nit

    s = make_solver(ocp)
    T = 'level %s iter %d %s %s %s' % ('ABCD'[level], nit, strat, qp, pr.tag())
    first, lin = True, None
    nocond = 'PARTIAL' in qp and so.qp_solver_cond_N == pr.N
    judge = lambda o, H, it, new: p03.step_kkt(pr, ob, o, H, it, new) if nocond or convex(pr, H) else ob.count('not_judged_indefinite')
    w = pr.random_iterate(rng, 0.4, 0.2)
    pr.set_iterate(s, w)
    x0 = pr.st[0].lbx.copy()
    for step in range(6):
        w = pr.get_iterate(s)
        s.options_set('rti_phase', 1)
        s.solve()
        w1 = pr.get_iterate(s)
        if not first:
            adv = w.x[1] if strat == 'SHIFT_ADVANCE' else pr.step(0, w.x[0], w.u[0])[0] if strat == 'SIMULATE_ADVANCE' else x0
            for f in ('lbx', 'ubx'):
                ob.close(s.constraints_get(0, f), adv, 1e-8, 'advance', 'initial state of the advanced problem: ' + T)
            pr.st[0].lbx = pr.st[0].ubx = adv.copy()
        ok = True
        judged = False
        if (first and level != 3) or (nit == 0 and level):
            for f in ('x', 'u', 'pi', 'lam'):
                ob.check(np.array_equal(np.concatenate(getattr(w, f)), np.concatenate(getattr(w1, f))), 'prep_moves', 'the preparation changed %s without advanced-step iteration: %s' % (f, T))
            judged = True
        elif nit == 1:
            qs = np.ravel(s.get_stats('qp_stat'))
            ok = not np.any(qs)
            if ok:
                if level == 0:
                    o, H = refpoint(pr, lin[0], opt, lm)
                    judge(o, H, lin[0], w1)
                elif level == 3:
                    o, H = refpoint(pr, w, opt, lm)
                    judge(o, H, w, w1)
                else:
                    cur, _ = refpoint(pr, w, opt, lm)
                    wl, lo, H = lin
                    q = []
                    for k in range(pr.N + 1):
                        c = cur[k].copy()
                        c.J = lo[k].J
                        if k < pr.N:
                            c.A, c.B = lo[k].A, lo[k].B
                        if level == 1:
                            c.g = lo[k].g + H[k] @ np.concatenate([w.u[k] - wl.u[k], w.x[k] - wl.x[k]])
                        elif k < pr.N:
                            pi = w.pi[k]
                            ex = np.concatenate([cur[k].B.T @ pi, cur[k].A.T @ pi])
                            li = np.concatenate([c.B.T @ pi, c.A.T @ pi])
                            c.g = cur[k].g + ex - li
                        q.append(c)
                    judge(q, H, w, w1)
                judged = True
        if judged:
            ob.count('preparations_judged')
            ob.state(T)
        o, H = refpoint(pr, w1, opt, lm)
        lin = (w1, o, H)
        x0 = (pr.st[0].lbx + 0.05 * rng.normal(size=pr.nx)) if rng.random() < 0.6 else rng.uniform(-.4, .4, pr.nx)
        s.set(0, 'lbx', x0)
        s.set(0, 'ubx', x0)
        pr.st[0].lbx = pr.st[0].ubx = x0.copy()
        s.options_set('rti_phase', 2)
        st = s.solve()
        if not (ok and st == 0 and qp_ok(s)):
            ob.count('not_judged')
            break
        o, H = refpoint(pr, w1, opt, lm)
        judge(o, H, w1, pr.get_iterate(s))
        ob.count('feedbacks_judged')
        first = False


def fixp(case, ob, rng):
    level = int(case['fam'][3])
    fix = level_fix(level, rng)
    fix.update(hess='GAUSS_NEWTON', nonlin=0.5, integrator=str(rng.choice(['ERK', 'DISCRETE'])))
    if rng.random() < 0.5:
        fix.update(integrator='IRK', nz=0)
    pr, ocp, so, opt, lm = setup(case, rng, fix)
    so.as_rti_level = level
    so.levenberg_marquardt = 0.0
    so.qp_solver_cond_N = pr.N
    so.as_rti_iter = 70
    S = [make_solver(ocp)]
    ocp2 = pr.make_ocp(name='fp%d' % case['seed'])
    s2 = ocp2.solver_options
    for f in ('nlp_solver_type', 'qp_tol', 'qp_solver_iter_max', 'as_rti_level', 'qp_solver_cond_N'):
        setattr(s2, f, getattr(so, f))
    s2.as_rti_iter = 71
    S.append(make_solver(ocp2))
    T = 'fixpoint level %s %s' % ('ABCD'[level], pr.tag())
    for rep in range(3):
        it = pr.random_iterate(rng, 0.2, 0.0)
        x0 = rng.uniform(-.3, .3, pr.nx)
        pts, ok = [], True
        for s in S:
            s.reset()
            pr.set_iterate(s, it)
            s.set(0, 'lbx', x0)
            s.set(0, 'ubx', x0)
            for i in range(2 if level != 3 else 1):      # the first feedback starts the advanced steps
                s.options_set('rti_phase', 1)
                s.solve()
                w = pr.get_iterate(s)
                if i == 0 and level != 3:
                    s.options_set('rti_phase', 2)
                    ok = ok and s.solve() == 0
            pts.append(w)
            ok = ok and not np.any(np.ravel(s.get_stats('qp_stat')))
            adv = s.constraints_get(0, 'lbx')
        pr.st[0].lbx = pr.st[0].ubx = adv
        d = max(np.max(np.abs(np.concatenate(getattr(pts[0], f)) - np.concatenate(getattr(pts[1], f)))) for f in ('x', 'u', 'pi'))
        if not np.isfinite(d) or d > 1e-9 or not ok:
            ob.count('not_converged')
            continue
        r = pr.kkt(pts[-1]).norms
        names = ('eq', 'ineq') if level == 1 else ('stat', 'eq', 'ineq', 'comp')
        for nm in names:
            v = r[('stat', 'eq', 'ineq', 'comp').index(nm)]
            ob.check(v <= 2e-6, 'fix_' + nm, lambda: 'limit of the iterations has res_%s %.2e: %s' % (nm, v, T))
        ob.count('fixpoints')
        ob.state(T)
