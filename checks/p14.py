"""Random problems whose exact Hessians are indefinite (random multipliers, nonlinear dynamics, costs and
constraints, optional Levenberg-Marquardt shift of random sign-changing size) are given to solvers with each
regularization method and random thresholds. One iteration is executed in one of four ways: combined real-time
iteration, split preparation and feedback, SQP with one iteration, RTI after earlier iterations on the same
object. The QP Hessian read back is compared with the documented definition evaluated by numpy
(eigenvalue mirror and projection with fixed or adaptive epsilon, Gershgorin shift, Algorithm 6 of
Verschueren 2017 for CONVEXIFY); block and reduced Hessians must be positive (semi)definite; PROJECT_REDUC_HESS
must leave Hessians alone whose reduced Hessian is positive definite. The step and all multipliers
must satisfy the optimality conditions of the QP with the documented Hessian - for CONVEXIFY without
projection those of the original indefinite QP, because only the Hessian representation may change."""
import numpy as np
from prob import Prob, make_solver
from p03 import step_kkt, hessian

PROPERTY = 'P14'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['PROJECT_REDUC_HESS is only judged on stage data (R blocks of the Riccati recursion), as its correction of Q depends on pivoting']
RULE = 'distinct (method, options, calling mode, needs regularization or not)'

METHODS = ['MIRROR', 'PROJECT', 'GERSHGORIN_LEVENBERG_MARQUARDT', 'CONVEXIFY', 'PROJECT_REDUC_HESS', 'NO_REGULARIZE']


def cases(tier, seed):
    out = []
    for m, n in zip(METHODS, (24, 24, 18, 34, 24, 3)):
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (m.lower().replace('project_', 'p')[:6], seed, i), seed=14000029 * seed + 31 * i + len(m), method=m))
    return out


def sym_blocks(s, k, nu):
    """lower triangles are what the QP solvers use"""
    Q = s.get_from_qp_in(k, 'Q')
    Q = np.tril(Q) + np.tril(Q, -1).T
    if nu == 0:
        return Q
    R, S = s.get_from_qp_in(k, 'R'), s.get_from_qp_in(k, 'S')
    R = np.tril(R) + np.tril(R, -1).T
    return np.block([[R, S.reshape(nu, -1)], [S.reshape(nu, -1).T, Q]])


def blockwise(H, o):
    m = o['method']
    if m == 'GERSHGORIN_LEVENBERG_MARQUARDT':
        a = np.abs(H)
        est = np.min(np.diag(H) - a.sum(1) + np.diag(a))
        shift = 0.0 if est >= o['eps'] else (o['eps'] - est if est < 0 else o['eps'])
        return H + shift * np.eye(len(H)), abs(est) < 1e-9 or abs(est - o['eps']) < 1e-9
    d, V = np.linalg.eigh(H)
    e = o['eps']
    if o['adaptive']:
        top = np.max(np.abs(d)) if m == 'MIRROR' else max(np.max(d), 0)
        e = max(top / o['cond'], o['mineps'])
    if m == 'MIRROR':
        d = np.maximum(np.abs(d), e)
    else:
        d = np.maximum(d, e)
    return (V * d) @ V.T, False


def convexify(Hs, refs, st, N, delta, eps):
    """Algorithm 6 (Verschueren 2017): returns regularized Hessians, original plus projection correction, near-threshold flag"""
    nx = st[N].nx
    out, orig = [None] * (N + 1), [h.copy() for h in Hs]
    nuN = st[N].nu
    Qbar = Hs[N][nuN:, nuN:] - delta * np.eye(nx)
    out[N] = Hs[N].copy()
    out[N][nuN:, nuN:] = delta * np.eye(nx)
    near = proj = False
    for k in range(N - 1, -1, -1):
        nu = st[k].nu
        G = np.hstack([refs[k].B, refs[k].A])
        H = Hs[k] + G.T @ Qbar @ G
        H = (H + H.T) / 2
        d = np.linalg.eigvalsh(H[:nu, :nu]) if nu else np.zeros(0)
        near |= bool(np.any(np.abs(d - 1e-10) < 1e-7))
        if np.any(d < 1e-10):
            proj = True
            w, V = np.linalg.eigh(H)
            P = (V * np.maximum(w, eps)) @ V.T
            orig[k] = orig[k] + P - H
            H = P
        R, S, Q = H[:nu, :nu], H[:nu, nu:], H[nu:, nu:]
        Qt = delta * np.eye(Q.shape[0]) + (S.T @ np.linalg.solve(R, S) if nu else 0)
        out[k] = np.block([[R, S], [S.T, Qt]])
        Qbar = Q - Qt
    return out, orig, proj, near


def reduced(Hs, refs, st, N):
    """R blocks of the Riccati recursion in stages N..1, full block at stage 0 (and rounding error estimates)"""
    res = []
    P = None
    err = 0.0
    for k in range(N, -1, -1):
        nu = st[k].nu
        M = Hs[k].copy()
        if k < N:
            G = np.hstack([refs[k].B, refs[k].A])
            M = M + G.T @ P @ G
            err = err * (1 + np.linalg.norm(G, 2)) ** 2
        err += 1e-15 * np.max(np.abs(M))
        M = (M + M.T) / 2
        if k == 0:
            res.append((M, err))
            break
        R, S, Q = M[:nu, :nu], M[:nu, nu:], M[nu:, nu:]
        res.append((R, err))
        try:
            K = np.linalg.solve(R, S) if nu else 0 * S
            err *= 1 + np.linalg.norm(K, 2) ** 2 if nu else 1
            P = Q - S.T @ K if nu else Q
        except np.linalg.LinAlgError:
            return None
    return res


def run(case, ob):
    rng = np.random.default_rng(case['seed'] + 5)
    m = case['method']
    fix = dict(hess='EXACT') if rng.random() < 0.85 else {}
    pr = Prob(case['seed'], **fix)
    if pr.f_idxs_rev or pr.f_integrator == 'GNSF':
        pr = Prob(case['seed'], **dict(fix, idxs_rev=False, integrator='ERK' if not pr.nz else 'IRK'))
    o = dict(method=m, eps=1e-4, adaptive=False, cond=1e7, mineps=1e-8)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.regularize_method = m
    if rng.random() < 0.7:
        o['eps'] = float(10 ** rng.uniform(-6, -0.5))
        so.reg_epsilon = o['eps']
    if m in ('MIRROR', 'PROJECT') and rng.random() < 0.5:
        o['adaptive'] = True
        so.reg_adaptive_eps = True
        if rng.random() < 0.8:
            o['cond'] = float(10 ** rng.uniform(0.5, 6))
            so.reg_max_cond_block = o['cond']
        if rng.random() < 0.6:
            o['mineps'] = float(10 ** rng.uniform(-6, 0))
            so.reg_min_epsilon = o['mineps']
    mode = ['rti', 'split', 'sqp', 'again'][rng.integers(4)]
    so.nlp_solver_type = 'SQP' if mode == 'sqp' else 'SQP_RTI'
    if mode == 'sqp':
        so.nlp_solver_max_iter = 1
        so.tol = 1e-12
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    so.qp_solver_cond_N = pr.N if rng.random() < 0.6 else int(rng.integers(1, pr.N + 1))
    if m == 'PROJECT_REDUC_HESS':
        so.qp_solver_ric_alg = 0
        so.qp_solver_cond_ric_alg = 0
    elif rng.random() < 0.4:
        so.qp_solver_ric_alg = int(rng.integers(2))
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact']:
        opt['constr'] = so.exact_hess_constr
        opt['cost'] = so.exact_hess_cost
        opt['dyn'] = so.exact_hess_dyn
    lm = 0.0
    if rng.random() < 0.5:
        lm = float(10 ** rng.uniform(-2, 1.2))
        so.levenberg_marquardt = lm
    s = make_solver(ocp)
    for rep in range(3):
        scale = float(rng.choice([0.05, 1.0, 6.0, 20.0] if m in METHODS[:3] else [0.5, 5.0, 20.0]))
        it = pr.random_iterate(rng, 0.6, scale)
        if not (mode == 'again' and rep):
            s.reset()
        pr.set_iterate(s, it)
        if mode == 'split':
            s.options_set('rti_phase', 1)
            s.solve()
            s.options_set('rti_phase', 2)
        st = s.solve()
        ob.count('status_%d' % st)
        ref = [pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)]
        Hs = [hessian(pr, ref[k], k, opt, lm) for k in range(pr.N + 1)]
        judge(pr, ob, s, mode, st, o, ref, Hs, it)


def judge(pr, ob, s, mode, st, o, ref, Hs, it):
    m, N = o['method'], pr.N
    tag = '%s %s %s' % (m, {k: v for k, v in o.items() if k != 'method'}, pr.tag())
    sc = [1 + np.max(np.abs(h)) for h in Hs]
    got = [sym_blocks(s, k, pr.st[k].nu) for k in range(N + 1)] if mode != 'sqp' else None
    want = orig = None
    need = False
    if m in ('MIRROR', 'PROJECT', 'GERSHGORIN_LEVENBERG_MARQUARDT'):
        want, near = zip(*[blockwise(h, o) for h in Hs])
        need = any(np.max(np.abs(w - h)) > 1e-9 for w, h in zip(want, Hs))
        if any(near):
            ob.count('near_threshold')
            return
        orig = want
    elif m == 'NO_REGULARIZE':
        want = orig = Hs
    elif m == 'CONVEXIFY':
        want, orig, need, near = convexify(Hs, ref, pr.st, N, 1e-4, o['eps'])
        cond = max(np.max(np.abs(w)) / c for w, c in zip(want, sc))
        if near or cond > 1e4:
            ob.count('near_threshold')
            return
    else:
        red = reduced(Hs, ref, pr.st, N)
        if red is None:
            return
        mins = [np.min(np.linalg.eigvalsh(r), initial=np.inf) for r, _ in red]
        need = min(mins) < 1e-12
        if min(abs(v) for v in mins) < 1e-6:
            ob.count('near_threshold')
            return
        if not need:
            want = orig = Hs
    if got is not None:
        for k in range(N + 1):
            T = 'stage %d of %d: %s' % (k, N, tag)
            if want is not None:
                s2 = sc[k] + np.max(np.abs(want[k]))
                ob.close(got[k] / s2, want[k] / s2, 2e-7, 'hess', 'regularized Hessian: ' + T)
            if m not in ('NO_REGULARIZE', 'PROJECT_REDUC_HESS'):
                w = np.linalg.eigvalsh(got[k])
                ob.check(w[0] >= -1e-9 * (1 + abs(w[-1])), 'psd', lambda: 'Hessian with eigenvalue %.2e after regularization: %s' % (w[0], T))
        if m == 'PROJECT_REDUC_HESS' and need:
            red = reduced(got, ref, pr.st, N)
            if red is not None:
                for j, (r, e) in enumerate(red):
                    if e > 1e-6:
                        break
                    w = np.min(np.linalg.eigvalsh(r), initial=np.inf)
                    ob.count('reduced_blocks_judged')
                    ob.check(w >= 0.9e-4, 'reduced_psd', lambda: 'reduced Hessian eigenvalue %.2e (stage %d): %s' % (w, N - j, tag))
                ob.count('reduced_judged')
        ob.count('hessians_judged')
        if need:
            ob.count('changed_by_' + m.lower()[:9])
    ob.state(m, mode, need, o['adaptive'])
    # the step belongs to the documented QP
    if m == 'CONVEXIFY' and (orig is None or pr.f_x0 != 'fixed'):
        return
    if st == (0 if mode != 'sqp' else 2) and orig is not None and int(np.ravel(s.get_stats('qp_stat'))[-1]) == 0:
        if m in ('NO_REGULARIZE',) and min(np.min(np.linalg.eigvalsh(h)) for h in Hs) < 1e-3:
            return
        if m == 'CONVEXIFY':
            bad = max(np.max(np.abs(w)) for w in want)
            if bad > 1e4:
                return
        new = pr.get_iterate(s)
        n0 = len(ob.violations)
        step_kkt(pr, ob, ref, orig, it, new, skip_x0=m == 'CONVEXIFY')
        for v in ob.violations[n0:]:
            v['msg'] += ' [%s %s]' % (mode, tag)
        ob.count('steps_judged')
