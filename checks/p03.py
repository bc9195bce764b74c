"""Random problems (same generator as P02) are put at random primal-dual iterates and one real-time
iteration is executed. Every block of the QP the solver built (`get_from_qp_in`: dynamics, gradients,
Hessian, constraint matrices and bounds, slack data, masks, index maps) is compared with the reference
linearization of `lib/prob.py`. Then the step is judged without trusting the QP data: the new iterate
minus the old one with the new multipliers must satisfy the optimality conditions of the QP assembled
by the reference. Hessian variants (Gauss-Newton, exact, partial exact terms, Levenberg-Marquardt)
are drawn at random, as are numeric option changes between two steps."""
import numpy as np
from prob import Prob, make_solver, INF

PROPERTY = 'P03'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['the step oracle applies only when the QP solver reports success (indefinite exact Hessians may fail)']
RULE = 'distinct (formulation class, Hessian variant) with all QP blocks compared'

FAM = [('gen', {}, 84), ('ex', dict(hess='EXACT'), 26), ('pg', dict(npg=2), 10), ('z', dict(integrator='IRK', nz=1), 12),
       ('z2', dict(integrator='IRK', nz=2, hess='GAUSS_NEWTON'), 6), ('rev', dict(idxs_rev=True, soft=2), 12),
       ('sb', dict(slackbnd=True, soft=2), 10), ('gnsfexact', dict(integrator='GNSF', hess='EXACT', constr='BGH'), 1), ('bgp', dict(constr='BGP', nh=2, hess='GAUSS_NEWTON'), 10)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=3000017 * seed + 13 * i + ord(nm[0]), fix=fix))
    return out


def hessian(pr, o, k, opt, lm):
    s = pr.st[k]
    kd = pr.kind(k)
    ct = pr.ck[kd].type
    H = o.Hcost.copy() if (ct == 'EXTERNAL' or (opt['exact'] and opt['cost'] and ct != 'CONVEX_OVER_NONLINEAR')) else o.Hgn.copy()
    if k < pr.N and opt['exact'] and opt['dyn']:
        H = H + o.Hdyn
    if pr.hk[kd].n:
        if pr.hk[kd].phi:
            H = H + o.Hscqp
        elif opt['exact'] and opt['constr']:
            H = H + o.Hcon
    return H + s.scal * lm * np.eye(H.shape[0])


def run(case, ob):
    rng = np.random.default_rng(case['seed'] + 5)
    pr = Prob(case['seed'], **case.get('fix', {}))
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP_RTI'
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    so.qp_solver_cond_N = pr.N
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact']:
        for nm in ('cost', 'dyn', 'constr'):
            if rng.random() < 0.25:
                opt[nm] = 0
                setattr(so, 'exact_hess_' + nm, 0)
        opt['constr'] = so.exact_hess_constr
        if rng.random() < 0.4:
            so.with_adaptive_levenberg_marquardt = False
    lm = 0.0
    if rng.random() < 0.4:
        lm = float(rng.uniform(0.01, 2.0))
        so.levenberg_marquardt = lm
    s = make_solver(ocp)
    for rep in range(2):
        if rep and rng.random() < 0.5:
            lm = float(rng.uniform(0.01, 3.0))
            s.options_set('levenberg_marquardt', lm)
        it = pr.random_iterate(rng, 0.6)
        s.reset()
        pr.set_iterate(s, it)
        st = s.solve()
        ob.count('status_%d' % st)
        ref = [pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)]
        Hs = [hessian(pr, ref[k], k, opt, lm) for k in range(pr.N + 1)]
        for k in range(pr.N + 1):
            compare(pr, ob, s, k, ref[k], Hs[k], it)
        new = pr.get_iterate(s)
        if st == 0 and int(np.ravel(s.get_stats('qp_stat'))[-1]) == 0:   # not: QP iteration limit
            ob.count('steps_judged')
            step_kkt(pr, ob, ref, Hs, it, new)
            for k in range(pr.N):
                if pr.nz:
                    d = np.concatenate([new.u[k] - it.u[k], new.x[k] - it.x[k]])
                    ob.close(new.z[k], ref[k].z + ref[k].dzdux @ d, 1e-6, 'z_step', 'z after step: %s' % pr.tag())
        ob.count('iterates')
    ob.state(pr.tag(), opt['exact'], opt['cost'], opt['dyn'], opt['constr'], lm > 0)


def compare(pr, ob, s, k, o, H, it):
    st = pr.st[k]
    nu, nx = st.nu, st.nx
    T = 'stage %d of %d %s' % (k, pr.N, pr.tag())
    q = lambda f: s.get_from_qp_in(k, f)
    if k < pr.N:
        ob.close(q('A'), o.A, 1e-8, 'A', 'A: ' + T)
        ob.close(q('B'), o.B, 1e-8, 'B', 'B: ' + T)
        ob.close(q('b').ravel(), o.xn - it.x[k + 1], 1e-9, 'b', 'b: ' + T)
    ob.close(q('Q'), H[nu:, nu:], 1e-7, 'Q', 'Q: ' + T)
    ob.close(q('q').ravel(), o.g[nu:], 1e-8, 'q', 'q: ' + T)
    if nu:
        ob.close(q('R'), H[:nu, :nu], 1e-7, 'R', 'R: ' + T)
        ob.close(q('S'), H[:nu, nu:], 1e-7, 'S', 'S: ' + T)
        ob.close(q('r').ravel(), o.g[:nu], 1e-8, 'r', 'r: ' + T)
    nb, ng, nh = st.nbu + st.nbx, st.ng, st.nh
    if ng + nh:
        ob.close(q('C'), o.J[nb:, nu:], 1e-8, 'C', 'C: ' + T)
        if nu:
            ob.close(q('D'), o.J[nb:, :nu], 1e-8, 'D', 'D: ' + T)
    nm = [('bu', 0, st.nbu), ('bx', st.nbu, nb), ('g', nb, st.ni)]
    for f, a, b in nm:
        if a == b:
            continue
        ml, mu = o.mask[a:b], o.mask[st.ni + a:st.ni + b]
        ob.close(q('l%s_mask' % f).ravel(), ml, 0, 'mask_l' + f, 'mask l%s: %s' % (f, T))
        ob.close(q('u%s_mask' % f).ravel(), mu, 0, 'mask_u' + f, 'mask u%s: %s' % (f, T))
        ob.close(q('l' + f).ravel() * ml, o.fun[a:b] * ml, 1e-9, 'l' + f, 'l%s: %s' % (f, T))
        ob.close(q('u' + f).ravel() * mu, -o.fun[st.ni + a:st.ni + b] * mu, 1e-9, 'u' + f, 'u%s: %s' % (f, T))
    if st.ns:
        ob.close(q('zl').ravel(), o.gsl, 1e-9, 'zl', 'zl: ' + T)
        ob.close(q('zu').ravel(), o.gsu, 1e-9, 'zu', 'zu: ' + T)
        ob.close(q('Zl').ravel(), st.scal * st.Zl, 1e-9, 'Zl', 'Zl: ' + T)
        ob.close(q('Zu').ravel(), st.scal * st.Zu, 1e-9, 'Zu', 'Zu: ' + T)
        ob.close(q('lls').ravel(), st.lls - it.sl[k], 1e-9, 'lls', 'lls: ' + T)
        ob.close(q('lus').ravel(), st.lus - it.su[k], 1e-9, 'lus', 'lus: ' + T)
        ob.close(q('idxs_rev').ravel(), st.rev, 0, 'idxs_rev', 'idxs_rev: ' + T)
    if nb:
        ob.close(q('idxb').ravel(), np.concatenate([st.idxbu, nu + st.idxbx]), 0, 'idxb', 'idxb: ' + T)


def step_kkt(pr, ob, ref, Hs, it, new, skip_x0=False):
    """KKT conditions of the reference QP at (new - it) with the multipliers of new
    (skip_x0: the multipliers of initial state bounds are not judged)"""
    tol = 2e-6
    prev = None
    for k in range(pr.N + 1):
        s, o = pr.st[k], ref[k]
        T = 'stage %d of %d %s' % (k, pr.N, pr.tag())
        d = np.concatenate([new.u[k] - it.u[k], new.x[k] - it.x[k]])
        dsl, dsu = new.sl[k] - it.sl[k], new.su[k] - it.su[k]
        lam = new.lam[k] * o.mask
        ni = s.ni
        ll, lu, lls, lus = lam[:ni], lam[ni:2 * ni], lam[2 * ni:2 * ni + s.ns], lam[2 * ni + s.ns:]
        g = o.g + Hs[k] @ d - o.J.T @ (ll - lu)
        if k < pr.N:
            g = g + np.concatenate([o.B.T @ new.pi[k], o.A.T @ new.pi[k]])
            e = o.xn + o.B @ d[:s.nu] + o.A @ d[s.nu:] - new.x[k + 1]
            ob.close(e, 0 * e, tol, 'step_eq', 'QP equality at step: ' + T)
        if prev is not None:
            g[s.nu:] -= prev
        if skip_x0 and k == 0:
            g[s.nu + s.idxbx] = 0
        gsl = o.gsl + s.scal * s.Zl * dsl - lls
        gsu = o.gsu + s.scal * s.Zu * dsu - lus
        J = o.J @ d
        fl, fu = o.fun[:ni] - J, o.fun[ni:2 * ni] + J
        for i in range(ni):
            if s.rev[i] >= 0:
                gsl[s.rev[i]] -= ll[i]
                gsu[s.rev[i]] -= lu[i]
                fl[i] -= dsl[s.rev[i]]
                fu[i] -= dsu[s.rev[i]]
        sc = 1 + np.max(np.abs(o.g), initial=0) + np.max(np.abs(lam), initial=0)
        ob.close(np.concatenate([g, gsl, gsu]) / sc, np.zeros(len(g) + 2 * s.ns), tol, 'step_stat', 'QP stationarity at step: ' + T)
        f = np.concatenate([fl, fu, o.fun[2 * ni:2 * ni + s.ns] - dsl, o.fun[2 * ni + s.ns:] - dsu]) * o.mask
        ob.check(np.max(f, initial=0) <= tol * sc, 'step_ineq', lambda: 'QP inequality violated by %.2e after step: %s' % (np.max(f), T))
        ob.check(np.max(np.abs(f * lam), initial=0) <= tol * sc, 'step_comp', lambda: 'QP complementarity %.2e after step: %s' % (np.max(np.abs(f * lam)), T))
        ob.check(np.min(lam, initial=0) >= -1e-9, 'step_lam', lambda: 'negative multiplier %.2e: %s' % (np.min(lam), T))
        prev = new.pi[k] if k < pr.N else None
