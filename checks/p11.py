"""Problems with global parameters (discrete dynamics, external and linear least-squares costs, all constraint classes, soft
constraints) are solved to tight tolerances; then solution sensitivities of all states, inputs,
multipliers and slacks, adjoint sensitivities for random seeds, and value gradients are evaluated and compared with central
differences of re-solved problems at perturbed initial states, controls and parameters, for two perturbation sizes.  In one family bounds of general and
nonlinear constraints are first moved such that many of them are active at the solution.  Points
where a constraint is weakly active, the two differences disagree, or a re-solve fails are not judged.  In addition
adjoint and forward sensitivities have to agree, for subsets of stages the same values have to be returned, and evaluating twice or
in another order gives the same."""
import warnings
import numpy as np
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P11'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['the KKT sensitivity solve of HPIPM (not part of acados, absent in the installed library) is replaced by a dense solve in compat/hpipm_compat.c',
               'only regular solutions (strict complementarity, differentiable) are judged']
RULE = 'distinct (kind of sensitivity, cost types, constraint classes, soft, x0, QP solver)'
MIN_HELD = 0.2

PG = dict(integrator='DISCRETE', hess='EXACT', constr='BGH', nonlin=.5)
LE = ['LINEAR_LS', 'EXTERNAL']
FAM = [('pg', PG, 34), ('pgsoft', dict(PG, soft=2), 14), ('x0', dict(hess='EXACT', constr='BGH', x0='fixed', nonlin=.5), 20), ('val', dict(PG, hess=None), 18),
       ('pgact', dict(PG, soft=0, onesided=False), 26), ('u0', dict(nonlin=.5, bu=True, x0='fixed', ng=0), 14), ('bgp', dict(PG, constr='BGP', soft=0), 4)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=1100009 * seed + 71 * i + sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def grab(pr, s):
    d = {}
    for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
        d[f] = [s.get(k, f) for k in range(pr.N + (f not in ('u', 'pi')))]
    d['cost'] = s.get_cost()
    if pr.f_x0 == 'fixed':
        # only the difference of both multipliers of a fixed state is determined
        l = d['lam'][0]
        n = pr.st[0].ni
        nbu = len(pr.st[0].lbu)
        dlt = l[nbu:nbu + pr.nx] - l[n + nbu:n + nbu + pr.nx]
        d['lam0'] = dlt
        l = l.copy()
        l[nbu:nbu + pr.nx] = l[n + nbu:n + nbu + pr.nx] = 0
        d['lam'][0] = l
    return d


def resolve(pr, s, it, what, v, tol=2e-8):
    """solution at perturbed data, warm started"""
    apply(pr, s, what, v)
    pr.set_iterate(s, it)
    st = s.solve()
    r = s.get_residuals(recompute=True)
    if st not in (0, 2) or not np.all(np.isfinite(r)) or max(r) > tol:
        return None
    return grab(pr, s)


def apply(pr, s, what, v):
    if what == 'x0':
        s.set(0, 'lbx', v)
        s.set(0, 'ubx', v)
    elif what == 'u0':
        s.constraints_set(0, 'lbu', v)
        s.constraints_set(0, 'ubu', v)
    else:
        s.set_p_global_and_precompute_dependencies(v)


def flatd(d, f):
    return np.concatenate([np.ravel(q) for q in d[f]]) if isinstance(d[f], list) else np.ravel(d[f])


def slackness(pr, d, s):
    """minimum over all inequalities of max(multiplier, slack of the inequality)"""
    m = 1e9
    for k in range(pr.N + 1):
        st = pr.st[k]
        u = d['u'][k] if k < pr.N else np.zeros(0)
        pi = d['pi'][k] if k < pr.N else None
        o = pr.stage(k, d['x'][k], u, pi, d['lam'][k], d['sl'][k], d['su'][k])
        act = np.asarray(o.mask) > 0
        fun, lam = np.asarray(o.fun), np.asarray(d['lam'][k])
        if k == 0 and pr.f_x0 == 'fixed':
            act = act.copy()
            n, nbu = st.ni, len(st.lbu)
            act[nbu:nbu + pr.nx] = act[n + nbu:n + nbu + pr.nx] = False
        if k == 0 and pr.f_fixu:
            act = act.copy()
            act[:pr.nu] = act[st.ni:st.ni + pr.nu] = False
        if act.any():
            m = min(m, np.min(np.maximum(np.abs(fun[act]), lam[act])))
    return m


def regularity(pr, d):
    """smallest singular value of the Jacobian of dynamics and active constraints (rows scaled), smallest eigenvalue of the
    Hessian of the Lagrangian on its null space"""
    N = pr.N
    off, n = [], 0
    for k in range(N + 1):
        off.append(n)
        n += pr.st[k].nu + pr.nx + 2 * pr.st[k].ns
    H, rows = np.zeros((n, n)), []
    for k in range(N + 1):
        st = pr.st[k]
        nux = st.nu + pr.nx
        u = d['u'][k] if k < N else np.zeros(0)
        o = pr.stage(k, d['x'][k], u, d['pi'][k] if k < N else None, d['lam'][k], d['sl'][k], d['su'][k])
        a = off[k]
        H[a:a + nux, a:a + nux] = o.Hcost + o.Hcon + (o.Hdyn[:nux, :nux] if k < N else 0)
        H[range(a + nux, a + nux + 2 * st.ns), range(a + nux, a + nux + 2 * st.ns)] = st.scal * np.concatenate([st.Zl, st.Zu])
        if k < N:
            R = np.zeros((pr.nx, n))
            R[:, a:a + st.nu], R[:, a + st.nu:a + nux] = o.B, o.A
            R[:, off[k + 1] + (pr.nu if k + 1 < N else 0):][:, :pr.nx] = -np.eye(pr.nx)
            rows += list(R)
        fun, lam, ni = np.asarray(o.fun), np.asarray(d['lam'][k]), st.ni
        for i in range(2 * ni + 2 * st.ns):
            fixed = k == 0 and ((pr.f_x0 == 'fixed' and st.nbu <= i % ni < st.nbu + pr.nx) or (pr.f_fixu and i % ni < pr.nu)) if i < 2 * ni else False
            if fixed and i >= ni:
                continue
            if not fixed and not (o.mask[i] > 0 and abs(fun[i]) < lam[i]):
                continue
            r = np.zeros(n)
            if i < 2 * ni:
                r[a:a + nux] = o.J[i % ni]
                q = st.rev[i % ni]
                if q >= 0:
                    r[a + nux + q + (st.ns if i >= ni else 0)] = 1 if i < ni else -1
            else:
                r[a + nux + i - 2 * ni] = 1
            rows.append(r)
    A = np.array(rows)
    A /= np.linalg.norm(A, axis=1)[:, None]
    U, sv, Vt = np.linalg.svd(A)
    if len(A) > n:
        return 0.0, 0.0
    Zs = Vt[len(A):].T
    ev = np.linalg.eigvalsh(Zs.T @ H @ Zs) if Zs.shape[1] else np.array([1.0])
    return sv.min(), ev.min()


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 3)
    fam = case['fam']
    fix = dict(case['fix'])
    if fam == 'pgact':
        fix['ng'], fix['nh'], fix['nh_0'], fix['nh_e'] = (int(q) for q in rng.integers([1, 1, 0, 0], 3))
        if rng.random() < .3:
            fix['soft'], fix['hard_h'] = 1, True
    if fam in ('pg', 'pgsoft', 'pgact', 'val', 'bgp'):
        fix['npg'] = int(rng.integers(1, 4))
        fix['cost'], fix['cost_e'] = rng.choice(LE), rng.choice(LE)
        fix['cost_0'] = str(rng.choice(LE + ['same']))
    pr = Prob(case['seed'], **fix)
    pr.f_fixu = False
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP'
    so.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    so.qp_solver_cond_N = pr.N
    so.qp_solver_ric_alg = 0
    so.qp_solver_cond_ric_alg = 0
    so.qp_solver_iter_max = 200
    so.nlp_solver_max_iter = 60
    so.qp_tol = 1e-11
    so.tol = 1e-9
    sens = fam in ('pg', 'pgsoft', 'pgact')
    if fam == 'x0':
        so.hessian_approx = 'EXACT'
        so.regularize_method = 'NO_REGULARIZE'
        so.levenberg_marquardt = 0.0
        so.exact_hess_constr = so.exact_hess_cost = so.exact_hess_dyn = 1
        so.fixed_hess = 0
        so.with_solution_sens_wrt_params = False
    if sens:
        so.with_solution_sens_wrt_params = True
        so.with_value_sens_wrt_params = True
    if fam in ('val', 'bgp'):
        so.with_value_sens_wrt_params = True
    if fam == 'u0':
        if len(ocp.constraints.lbu) != pr.nu or len(ocp.constraints.idxsbu):
            raise Inconclusive('not all controls are bounded')
    if fam == 'bgp':
        dep = False
        import casadi as ca
        for e in (ocp.model.con_phi_expr, ocp.model.con_phi_expr_0, ocp.model.con_phi_expr_e, ocp.model.con_r_expr, ocp.model.con_r_expr_0, ocp.model.con_r_expr_e):
            if e is not None and any(ca.which_depends(e, ocp.model.p_global)):
                dep = True
        try:
            s = make_solver(ocp)
            ob.check(not dep, 'bgp', 'sensitivities accepted for BGP constraints that depend on the parameters')
        except NotImplementedError:
            ob.check(dep, 'bgp', 'BGP constraints without parameter dependency refused')
            ob.count('refused')
            return
    else:
        s = make_solver(ocp)
    it = pr.random_iterate(rng, .2, .1)
    if fam == 'u0':
        ub = rng.uniform(-.3, .3, pr.nu)
        pr.f_fixu = True
        apply(pr, s, 'u0', ub)
    if fam == 'pgsoft' or pr.npg:
        apply(pr, s, 'pg', pr.pgval)
    pr.set_iterate(s, it)
    st = s.solve()
    if fam == 'pgact':
        st = tighten(pr, s, rng, ob)
        it = pr.get_iterate(s)
    r = s.get_residuals(recompute=True)
    ob.count('problems')
    if max(r) > 2e-8 or not np.all(np.isfinite(r)):
        ob.count('not converged')
        raise Inconclusive('not converged %s' % r)
    base = grab(pr, s)
    it = pr.get_iterate(s)
    if slackness(pr, base, s) < 1e-3:
        ob.count('weakly active')
        raise Inconclusive('weakly active')
    sv, ev = regularity(pr, base)
    what = dict(x0='x0', u0='u0').get(fam, 'pg')
    v0 = dict(x0=pr.x0bar, u0=ub if fam == 'u0' else None, pg=pr.pgval)[what].copy()
    n = len(v0)
    # ------------------------------------------------------------------ what acados returns
    got = {}
    if fam in ('pg', 'pgsoft', 'pgact', 'x0'):
        wrt = 'initial_state' if fam == 'x0' else 'p_global'
        if max(np.abs(it.lam[0]).max(initial=0), 0) > 1e6:
            raise Inconclusive('large multipliers')
        fst = s.setup_qp_matrices_and_factorize()
        if fst != 0:
            ob.check(False, 'factorize', 'setup_qp_matrices_and_factorize returns %d at a solution' % fst)
            return
        it2 = pr.get_iterate(s)
        stages = list(range(pr.N + 1))
        S = s.eval_solution_sensitivity(stages, wrt, return_sens_x=True, return_sens_u=True, return_sens_pi=True, return_sens_lam=True, return_sens_sl=True, return_sens_su=True)
        got = {f: S['sens_' + f] for f in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
        k = int(rng.integers(pr.N + 1))
        one = s.eval_solution_sensitivity(k, wrt, return_sens_u=k < pr.N)
        ob.check(np.array_equal(one['sens_x'], got['x'][k]), 'stage', 'sensitivities of a single stage differ')
        sub = [int(q) for q in rng.permutation(pr.N + 1)[:2]]
        two = s.eval_solution_sensitivity(sub, wrt, return_sens_x=True, return_sens_pi=True)
        sub_u = [q for q in sub if q < pr.N]
        for f in ('u', 'pi'):
            ob.check(len(two['sens_'+f]) == len(sub_u) and all(np.array_equal(a, got[f][q]) for a, q in zip(two['sens_'+f], sub_u)), 'stage', 'sensitivities of %s of a subset of stages differ' % f)
        ob.check(all(np.array_equal(a, got['x'][q]) for a, q in zip(two['sens_x'], sub)), 'stage', 'sensitivities of a subset of stages differ')
        for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
            ob.check(all(np.array_equal(a, b) for a, b in zip(getattr(it2, f), getattr(it, f))), 'iterate', 'factorizing changes %s of the iterate' % f)
        if fam == 'x0':
            H = s.eval_and_get_optimal_value_hessian()
        if wrt == 'p_global':
            ns = int(rng.integers(1, 4))
            sx = [(q, rng.normal(size=(pr.nx, ns))) for q in range(pr.N + 1) if rng.random() < .6]
            su = [(q, rng.normal(size=(pr.nu, ns))) for q in range(pr.N) if rng.random() < .6]
            if not sx and not su:
                sx = [(pr.N, rng.normal(size=(pr.nx, ns)))]
            ad = s.eval_adjoint_solution_sensitivity(sx, su)
            ref = sum(m.T @ got['x'][q] for q, m in sx) + sum(m.T @ got['u'][q] for q, m in su)
            sc = 1 + max(np.abs(ref).max(), max(np.abs(q).max(initial=0) for q in got['x'] + got['u']))
            ob.close(ad / sc, ref / sc, 1e-6, 'adjoint', 'adjoint sensitivities differ from forward ones: ' + pr.tag())
            ob.state('adjoint', pr.tag())
            # sparse seeds leave nothing behind
            ad2 = s.eval_adjoint_solution_sensitivity(sx, su)
            ob.check(np.array_equal(ad, ad2), 'adjoint', 'adjoint sensitivities are not reproducible')
    pr.set_iterate(s, it)
    s.setup_qp_matrices_and_factorize()
    grad = {}
    if fam in ('pg', 'pgsoft', 'pgact', 'val', 'bgp'):
        grad['pg'] = s.eval_and_get_optimal_value_gradient('p_global')
    if pr.f_x0 == 'fixed':
        grad['x0'] = s.eval_and_get_optimal_value_gradient('initial_state')
    if fam == 'u0':
        grad['u0'] = s.eval_and_get_optimal_value_gradient('initial_control')
    # ------------------------------------------------------------------ central differences of re-solves
    for w in dict.fromkeys([what] + list(grad)):
        vw = dict(x0=pr.x0bar, u0=v0, pg=pr.pgval)[w].copy()
        for j in range(len(vw)):
            D = []
            for h in (2e-4, 1e-4):
                e = np.zeros(len(vw))
                e[j] = h
                a, b = resolve(pr, s, it, w, vw + e), resolve(pr, s, it, w, vw - e)
                if a is None or b is None:
                    break
                # perturbed solutions have to lie on the same branch
                if max(np.abs(flatd(a, 'x') - flatd(base, 'x')).max(), np.abs(flatd(b, 'x') - flatd(base, 'x')).max()) > .05:
                    break
                D.append({f: (flatd(a, f) - flatd(b, f)) / (2 * h) for f in a})
            apply(pr, s, w, vw)
            if len(D) < 2:
                ob.count('directions without differences')
                continue
            if w in grad:
                g, d1, d2 = float(grad[w][j]), float(D[1]['cost'][0]), float(D[0]['cost'][0])
                if abs(d1 - d2) < 1e-4 * (1 + abs(d1)):
                    ob.count('gradient entries')
                    ob.check(abs(g - d1) <= 5e-4 * (1 + abs(d1)), 'value/' + w, lambda: 'gradient of the optimal value w.r.t. %s[%d]: %.6e, differences %.6e: %s' % (w, j, g, d1, pr.tag()))
                    ob.state('value', w, pr.tag())
            if w == what and got:
                for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
                    G = [q[:, j].copy() for q in got[f]]
                    if f == 'lam' and pr.f_x0 == 'fixed':
                        nn, nbu = pr.st[0].ni, len(pr.st[0].lbu)
                        dl = G[0][nbu:nbu + pr.nx] - G[0][nn + nbu:nn + nbu + pr.nx]
                        G[0][nbu:nbu + pr.nx] = G[0][nn + nbu:nn + nbu + pr.nx] = 0
                        if fam == 'x0':
                            compare(ob, 'hess', dl, H[:, j], D[0]['lam0'], D[1]['lam0'], pr)
                    G = np.concatenate(G) if G else np.zeros(0)
                    compare(ob, f, G, None, D[0][f], D[1][f], pr)
                ob.state('solution', w, pr.tag())


def tighten(pr, s, rng, ob):
    """move bounds of general and nonlinear constraints so that some become active at the solution"""
    it = pr.get_iterate(s)
    for k in range(pr.N + 1):
        st = pr.st[k]
        sd = vars(st)
        if rng.random() < .4:
            continue
        u = it.u[k] if k < pr.N else np.zeros(0)
        o = pr.stage(k, it.x[k], u, it.pi[k] if k < pr.N else None, it.lam[k], it.sl[k], it.su[k])
        fun = np.asarray(o.fun)
        nb, ng, nh, ni = st.nbu + st.nbx, st.ng, st.nh, st.ni
        for off, n, lo, hi in ((nb, ng, 'lg', 'ug'), (nb + ng, nh, 'lh', 'uh')):
            for i in range(n):
                q = rng.random()
                if st.rev[off + i] >= 0 or q < .35:
                    continue
                d = rng.uniform(.01, .08)
                # distances of the value to both bounds at the solution
                a, b = abs(fun[off + i]), abs(fun[ni + off + i])
                if q < .67:
                    sd[lo][i] += a + d
                    sd[hi][i] = max(sd[hi][i], sd[lo][i] + .5)
                else:
                    sd[hi][i] -= b + d
                    sd[lo][i] = min(sd[lo][i], sd[hi][i] - .5)
                ob.count('tightened constraints')
            if n:
                s.constraints_set(k, lo, sd[lo])
                s.constraints_set(k, hi, sd[hi])
    pr.set_iterate(s, it)
    st = s.solve()
    if st == 0:
        ob.count('problems with tightened constraints solved')
    return st


def compare(ob, f, G, other, d1, d2, pr):
    sc = 1 + np.abs(d2).max(initial=0)
    ok = np.abs(d1 - d2) < 2e-4 * sc
    if f == 'lam' and not ok.all():
        ok[:] = False
    ob.count('sensitivity entries', int(ok.sum()))
    ob.count('entries without reliable differences', int((~ok).sum()))
    for nm, g in (('', G), ('(value Hessian) ', other)):
        if g is None:
            continue
        e = np.abs(g - d2)[ok] / sc
        ob.check(not e.size or e.max() <= 2e-3, 'sens/' + f, lambda: 'sensitivity of %s %soff by %.2e (relative to %.2e): %s' % (f, nm, e.max() * sc, sc, pr.tag()))
