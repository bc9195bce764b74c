"""The same random problem (made strictly convex at QP level by a Gauss-Newton Hessian plus
Levenberg-Marquardt term) is put into several solvers that differ only in QP-level settings: QP
solver, condensing horizon and block sizes, Riccati and condensing algorithm variants, HPIPM mode,
barrier/initialization values, warm starts. Each makes real-time iterations from the same random
primal-dual iterates (several in a row, so state of earlier QPs is present); every new iterate must
satisfy the optimality conditions of the reference QP of `lib/prob.py`, and all of them must agree. Finally full SQP runs (with QP tolerance
strategies, first-QP warm starts) from the same guess must end in the same primal-dual point, certified
by the KKT model. The linearized constraints decide with an LP whether a QP is feasible at all; then
each setting has to report success."""
import numpy as np
from prob import Prob, make_solver, INF
from p03 import step_kkt, hessian

PROPERTY = 'P04'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['DAQP itself is not installed: its slot is filled by a stand-in dense QP solver (compat/daqp_compat.c), so acados\' DAQP interface is exercised, not DAQP',
               'no shared slacks (idxs_rev): the HPIPM of the CasADi wheel neither condenses them nor solves all such QPs',
               'OSQP is a first-order method: compared at 2e-4 and only without slacks']
RULE = 'distinct QP setting combinations (solver, condensing, algorithm variants, warm start) with a verified solution'

FAM = [('hp', {}, 26), ('soft', dict(soft=2), 14), ('fc', {}, 10), ('osqp', dict(soft=0, constr='BGH', onesided=False), 5),
       ('z', dict(integrator='IRK', nz=1), 3), ('long', dict(N=9), 6), ('free', dict(x0='free'), 5)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=4000037 * seed + 11 * i + 7 * ord(nm[0]), fix=fix, fam=nm))
    return out


def draw(rng, N, fam):
    """a random QP configuration: dict of option -> value"""
    c = {}
    p = dict(osqp=[.3, .2, .1, .4], fc=[.0, .7, .3, 0]).get(fam, [.6, .3, .1, 0])
    c['qp_solver'] = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP', 'PARTIAL_CONDENSING_OSQP'], p=p))
    if c['qp_solver'].startswith('PARTIAL'):
        n = N if rng.random() < 0.3 else int(rng.integers(1, N + 1))
        c['qp_solver_cond_N'] = n
        if n < N and rng.random() < 0.5:
            cuts = np.sort(rng.integers(0, N - n + 1, n))
            parts = 1 + np.diff(np.concatenate([[0], cuts, [N - n]]))
            parts[-1] -= 1
            c['qp_solver_cond_block_size'] = [int(v) for v in parts]
    if rng.random() < 0.6:
        c['qp_solver_cond_ric_alg'] = int(rng.integers(2))
    if 'HPIPM' in c['qp_solver']:
        if rng.random() < 0.6:
            c['qp_solver_ric_alg'] = int(rng.integers(2))
        c['hpipm_mode'] = str(rng.choice(['BALANCE', 'SPEED', 'ROBUST', 'BALANCE']))
        if rng.random() < 0.4:
            c['qp_solver_mu0'] = float(10 ** rng.uniform(0, 3))
        if rng.random() < 0.4:
            c['qp_solver_t0_init'] = int(rng.integers(3))
        if rng.random() < 0.3:
            c['tau_min'] = 0.0
    if rng.random() < 0.6 and 'DAQP' not in c['qp_solver']:
        c['qp_solver_warm_start'] = int(rng.integers(3))
    return c


def feasible(pr, ref):
    from scipy.optimize import linprog
    ns = [(s.nu + s.nx, s.ns) for s in pr.st]
    off = np.concatenate([[0], np.cumsum([a + 2 * b for a, b in ns])])
    n = off[-1]
    A, b, E, e = [], [], [], []
    for k in range(pr.N + 1):
        s, o = pr.st[k], ref[k]
        a = off[k]
        nux = s.nu + s.nx
        lo = o.fun[:s.ni].copy()
        for sgn, base, m0 in ((-1, 0, 0), (1, s.ni, s.ns)):
            for i in range(s.ni):
                if o.mask[base + i] > 0:
                    r = np.zeros(n)
                    r[a:a + nux] = sgn * o.J[i]
                    if s.rev[i] >= 0:
                        r[a + nux + m0 + s.rev[i]] = -1
                    A.append(r)
                    b.append(-o.fun[base + i])
        for i in range(2 * s.ns):
            r = np.zeros(n)
            r[a + nux + i] = -1
            A.append(r)
            b.append(-o.fun[2 * s.ni + i])
        if k < pr.N:
            R = np.zeros((s.nx, n))
            R[:, a:a + s.nu] = o.B
            R[:, a + s.nu:a + nux] = o.A
            a2 = off[k + 1] + pr.st[k + 1].nu
            R[:, a2:a2 + s.nx] = -np.eye(s.nx)
            E.append(R)
            e.append(o.rhs)
        del lo
    # interior margin: maximize t
    A = np.array(A).reshape(len(b), n)
    Em = np.vstack(E)
    fixed = np.zeros(len(b))
    res = linprog(np.zeros(n), A_ub=A if len(b) else None, b_ub=np.array(b) if len(b) else None, A_eq=Em, b_eq=np.concatenate(e), bounds=[(None, None)] * n, method='highs')
    del fixed
    return res.status == 0


def run(case, ob):
    fam = case['fam']
    rng = np.random.default_rng(case['seed'] + 5)
    fix = dict(case['fix'])
    fix['hess'] = 'GAUSS_NEWTON'
    pr = Prob(case['seed'], **fix)
    lm = float(rng.uniform(0.05, 1.0))
    for kd in ('p', '0', 'e'):
        if pr.ck[kd].type == 'EXTERNAL':
            lm = max(lm, 1.5)      # external costs enter with their exact (possibly indefinite) Hessian
    n_conf = 4 if fam != 'long' else 3
    base = dict(qp_solver='PARTIAL_CONDENSING_HPIPM', qp_solver_cond_N=pr.N, hpipm_mode='BALANCE')
    confs = [base] + [draw(rng, pr.N, fam) for _ in range(n_conf - 1)]
    its = [pr.random_iterate(rng, 0.35) for _ in range(3)]
    refs = [[pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)] for it in its]
    Hs = [[hessian(pr, r[k], k, dict(exact=False), lm) for k in range(pr.N + 1)] for r in refs]
    ok = []
    for it, r, H in zip(its, refs, Hs):
        for k in range(pr.N):
            r[k].rhs = it.x[k + 1] - r[k].xn
        ok.append(feasible(pr, r) and all(np.min(np.linalg.eigvalsh(h)) > 1e-2 for h in H))
    newb = [None] * 3
    for ci, c in enumerate(confs):
        ocp = pr.make_ocp('q')
        so = ocp.solver_options
        so.nlp_solver_type = 'SQP_RTI'
        so.qp_tol = 1e-8
        so.qp_solver_iter_max = 400
        so.levenberg_marquardt = lm
        osqp = c['qp_solver'].endswith('OSQP')
        if osqp:
            so.qp_tol = 1e-6
            so.qp_solver_iter_max = 20000
        for k, v in c.items():
            setattr(so, k, v)
        s = make_solver(ocp)
        desc = ' '.join('%s=%s' % kv for kv in sorted(c.items()))
        for j, it in enumerate(its):
            if rng.random() < 0.4:
                s.reset()
            pr.set_iterate(s, it)
            st = s.solve()
            ob.count('qp_solves')
            if not ok[j]:
                ob.count('qp_infeasible_or_nonconvex')
                continue
            if osqp and st != 0:
                ob.count('osqp_no_answer')
                continue
            if not ob.check(st == 0, 'status', lambda: 'status %d on a feasible strictly convex QP: %s: %s' % (st, pr.tag(), desc)):
                continue
            new = pr.get_iterate(s)
            n0 = len(ob.violations)
            if not osqp:
                # slacks with inactive lower and upper side are unique as Zl, Zu > 0
                step_kkt(pr, ob, refs[j], Hs[j], it, new)
            for v in ob.violations[n0:]:
                v['msg'] += ' [%s]' % desc
            if newb[j] is None:
                newb[j] = new
            else:
                tol = 2e-4 if osqp else 3e-5
                for f in ('x', 'u', 'sl', 'su'):
                    for k in range(pr.N + 1):
                        ob.close(getattr(new, f)[k], getattr(newb[j], f)[k], tol, 'agree_' + f, '%s stage %d: %s %s' % (f, k, pr.tag(), desc))
            ob.state(*sorted(c.items()))
        del s
    sqp(pr, ob, rng, confs, lm, fam)


def sqp(pr, ob, rng, confs, lm, fam):
    it = pr.random_iterate(rng, 0.1, 0.0)
    first = None
    for ci in rng.permutation(len(confs))[:2]:
        c = confs[ci]
        if c['qp_solver'].endswith('OSQP'):
            continue
        ocp = pr.make_ocp('q')
        so = ocp.solver_options
        so.nlp_solver_type = 'SQP'
        so.nlp_solver_max_iter = 80
        so.tol = 1e-7
        so.levenberg_marquardt = lm
        so.qp_solver_iter_max = 400
        for k, v in c.items():
            setattr(so, k, v)
        x = {}
        if 'HPIPM' in c['qp_solver']:
            x['nlp_qp_tol_strategy'] = str(rng.choice(['FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT']))
        x['nlp_solver_warm_start_first_qp'] = bool(rng.integers(2))
        x['nlp_solver_warm_start_first_qp_from_nlp'] = bool(rng.integers(2)) and pr.f_soft == 0 and c['qp_solver'] == 'PARTIAL_CONDENSING_HPIPM' and c['qp_solver_cond_N'] == pr.N
        for k, v in x.items():
            setattr(so, k, v)
        s = make_solver(ocp)
        pr.set_iterate(s, it)
        st = s.solve()
        ob.count('sqp_status_%d' % st)
        if st != 0:
            continue
        got = pr.get_iterate(s)
        r = pr.kkt(got)
        desc = ' '.join('%s=%s' % kv for kv in sorted(list(c.items()) + list(x.items())))
        ob.check(max(r.norms) <= 2e-7 * (1 + max(np.max(np.abs(l), initial=0) for l in got.lam)), 'sqp_kkt', lambda: 'KKT residuals %s at success of %s: %s' % (r.norms, pr.tag(), desc))
        if first is None:
            first = got
        else:
            d = max(np.max(np.abs(got.x[k] - first.x[k]), initial=0) for k in range(pr.N + 1))
            ob.count('sqp_pairs')
            ob.check(d < 1e-4, 'sqp_agree', lambda: 'SQP solutions differ by %.2e: %s: %s' % (d, pr.tag(), desc))
        ob.state('sqp', *sorted(x.items()))
        del s
