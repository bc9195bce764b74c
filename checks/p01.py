"""Random problems are solved with random solver options from random initial guesses, partly twice
with changed initial state/parameters in between. Whenever the solver reports success (status 0) the
primal-dual iterate is read back and the KKT residuals are recomputed with the independent model of
`lib/prob.py`; each must be within the requested tolerance and all inequality multipliers >= -tol.
Non-success outcomes are counted, not judged (P12 judges them). Finish-oracle: none of the
tolerance kinds may be ignored, so tolerances are drawn per kind over four decades."""
import numpy as np
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P01'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['1% slack plus 1e-9 (1+scale) on top of the requested tolerances covers rounding of the re-evaluation',
               'the HPIPM of the CasADi wheel (the only one here) derives condensed dimensions from nsbx/nsbu/nsg: shared slacks (idxs_rev) only without condensing']
RULE = 'distinct (solver type, QP solver, globalization, Hessian, formulation class) with a certified success'

FAM = [('sqp', 60), ('feas', 16), ('ddp', 14), ('z', 8), ('glob', 26), ('pg', 8), ('rev', 10), ('loose', 16), ('hot', 24), ('one', 24)]


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 12 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=7000003 * seed + i + 1000 * len(nm) + 17 * ord(nm[0]), fam=nm))
    return out


def configure(case, rng):
    fam = case['fam']
    fix = dict(x0='fixed' if rng.random() < 0.8 else 'partial')
    if rng.random() < 0.5:
        fix['soft'] = 2
    if fam == 'ddp':
        fix = dict(x0='fixed', bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, hess='GAUSS_NEWTON')
    if fam == 'feas':
        fix.update(soft=0, constr='BGH')
    if fam == 'glob':
        fix.update(nz=0)
    if fam == 'z':
        fix.update(integrator='IRK', nz=int(rng.integers(1, 3)))
    if fam == 'pg':
        fix.update(npg=2)
    if fam == 'rev':
        fix.update(idxs_rev=True, soft=2, slackbnd=bool(rng.integers(2)))
    return fix


def run(case, ob):
    rng = np.random.default_rng(case['seed'])
    fam = case['fam']
    fix = configure(case, rng)
    qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP', 'PARTIAL_CONDENSING_OSQP'], p=[.55, .3, .1, .05]))
    if fam == 'feas':
        qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM']))
    if fam in ('rev', 'ddp'):
        # the HPIPM available here cannot condense problems with idxs_rev (ASSUMPTIONS)
        qp = 'PARTIAL_CONDENSING_HPIPM'
    if qp.endswith('OSQP'):
        fix.update(soft=0, constr='BGH', onesided=False)
    pr = Prob(case['seed'], **fix)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.qp_solver = qp
    so.nlp_solver_type = dict(feas='SQP_WITH_FEASIBLE_QP', ddp='DDP').get(fam, 'SQP')
    so.nlp_solver_max_iter = 60
    if fam == 'loose':
        tol = 10.0 ** rng.uniform(-6, -1.5, 4)
    elif fam == 'one':   # a single tolerance binds
        tol = 10.0 ** rng.uniform(-2, 0.5, 4)
        tol[rng.integers(4)] = 10.0 ** rng.uniform(-7, -5)
    else:
        tol = 10.0 ** rng.uniform(-7, -4, 4)
    so.nlp_solver_tol_stat, so.nlp_solver_tol_eq, so.nlp_solver_tol_ineq, so.nlp_solver_tol_comp = [float(t) for t in tol]
    if 'HPIPM' in qp and (rng.random() < 0.4 or fam == 'one'):   # loose QP solutions: the NLP test alone has to ensure the tolerances
        for nm in ('stat', 'eq', 'ineq', 'comp'):
            if rng.random() < 0.7:
                setattr(so, 'qp_solver_tol_' + nm, float(10.0 ** rng.uniform(-8, -1.5)))
    if pr.f_hess == 'EXACT':
        so.regularize_method = str(rng.choice(['MIRROR', 'PROJECT', 'NO_REGULARIZE']))
    glob = 'FIXED_STEP'
    if fam == 'glob':
        glob = str(rng.choice(['MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
    if fam == 'feas':
        glob = 'FUNNEL_L1PEN_LINESEARCH'
    if fam == 'ddp':
        glob = str(rng.choice(['MERIT_BACKTRACKING', 'FIXED_STEP']))
        so.with_adaptive_levenberg_marquardt = bool(rng.integers(2))
    so.globalization = glob
    if fam == 'hot':
        so.qp_solver_warm_start = int(rng.integers(0, 3))
        so.nlp_solver_warm_start_first_qp = bool(rng.integers(2))
    s = make_solver(ocp)
    it = pr.random_iterate(rng, 0.3, 0.1)
    pr.set_iterate(s, it)
    for rep in range(2):
        if rep:
            if pr.f_x0 == 'fixed':
                x0 = rng.uniform(-.6, .6, pr.nx)
                pr.st[0].lbx[:] = x0
                pr.st[0].ubx[:] = x0
                s.constraints_set(0, 'lbx', x0)
                s.constraints_set(0, 'ubx', x0)
            if pr.np:
                for k in range(pr.N + 1):
                    v = rng.uniform(-.5, .5, pr.np)
                    pr.st[k].p = v
                    s.set(k, 'p', v)
        st = s.solve()
        ob.count('solves')
        ob.count('status_%d' % st)
        got = pr.get_iterate(s)
        if st == 0:
            # tolerances as used by the solver (they can be read back)
            r = pr.kkt(got)
            mx = max([1.0] + [float(np.max(np.abs(v))) for k in range(pr.N + 1) for v in (got.lam[k], got.x[k]) if v.size])
            for nm, v, t in zip(('stat', 'eq', 'ineq', 'comp'), r.norms, tol):
                ob.check(v <= 1.01 * t + 1e-9 * mx, 'kkt_' + nm,
                         lambda: '%s %s/%s/%s: status 0 but res_%s = %.3e > tol %.3e' % (pr.tag(), so.nlp_solver_type, qp, glob, nm, v, t))
            lm = min([0.0] + [float(np.min(l)) for l in got.lam if l.size])
            ob.check(lm >= -1.01 * max(tol) - 1e-9, 'dual_feasibility', lambda: '%s: negative inequality multiplier %.3e at success' % (pr.tag(), lm))
            ob.worst('res_over_tol', max(r.norms / tol))
            ob.state(so.nlp_solver_type, qp, glob, pr.f_hess, pr.f_integrator, pr.f_cost, pr.f_constr, pr.f_soft)
        else:
            it = pr.random_iterate(rng, 0.3, 0.1)
            s.reset()
            pr.set_iterate(s, it)
    if ob.counts.get('status_0', 0) == 0:
        raise Inconclusive('no success to certify (%s)' % sorted(k for k in ob.counts if k.startswith('status')))
