"""Replays of the same problem are compared bit by bit (all iterate fields, status, cost, residuals,
per-iteration statistics). The reference run uses a fresh instance. The other runs use (a) a second
instance of the same library with a hostile past -- failed solves, NaN and huge iterates, infeasible
bounds, other parameters and options, real-time phases stopped half way, stored iterates -- that was
then reset, (b) the same instance again after a reset, (c) several instances whose calls interleave.
After a complete reset all readable data must equal those of a fresh instance. The oracle is bitwise
equality of recorded executions, so any state that survives where it must not is visible."""
import numpy as np
import warnings
from prob import Prob, make_solver
from p08 import Store, OUT

PROPERTY = 'P09'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['NaN and huge data are not put into real-time iterations with full condensing: the condensing of the left-hand side alone in HPIPM (not part of acados) keeps NaN',
               'with qp_solver_warm_start > 0 or first-QP warm starts only QP solvers whose memory the documented reset covers are judged after a hostile past']
RULE = 'distinct (solver type, QP solver, globalization, Hessian, integrator, cost, constraint class, kind of replay)'

FAM = [('sqp', {}, 26), ('rti', {}, 18), ('glob', dict(nz=0), 24), ('feas', dict(soft=0, constr='BGH'), 6),
       ('ddp', dict(x0='fixed', bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, hess='GAUSS_NEWTON'), 8),
       ('pg', dict(npg=2), 6), ('z', dict(integrator='IRK', nz=1), 6), ('warm', {}, 14), ('asrti', dict(hess='GAUSS_NEWTON'), 7), ('asrtic', dict(hess='GAUSS_NEWTON', cost='EXTERNAL', nh=0, nh_0=0, nh_e=0), 3)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 12 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=9000011 * seed + 31 * i + 5 * ord(nm[0]) + len(nm), fix=fix, fam=nm))
    return out


def configure(ocp, pr, fam, rng):
    so = ocp.solver_options
    so.nlp_solver_type = dict(rti='SQP_RTI', asrti='SQP_RTI', asrtic='SQP_RTI', feas='SQP_WITH_FEASIBLE_QP', ddp='DDP').get(fam, 'SQP')
    so.nlp_solver_max_iter = 12
    qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP'], p=[.55, .3, .15]))
    if fam in ('ddp', 'warm', 'feas', 'asrti', 'asrtic') or pr.f['idxs_rev']:
        qp = 'PARTIAL_CONDENSING_HPIPM'
    so.qp_solver = qp
    if pr.f_hess == 'EXACT':
        so.regularize_method = str(rng.choice(['MIRROR', 'PROJECT', 'NO_REGULARIZE']))
    glob = 'FIXED_STEP'
    if fam == 'glob':
        glob = str(rng.choice(['MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
    if fam == 'feas':
        glob = 'FUNNEL_L1PEN_LINESEARCH'
    if fam == 'ddp':
        glob = str(rng.choice(['MERIT_BACKTRACKING', 'FIXED_STEP']))
        so.with_adaptive_levenberg_marquardt = bool(rng.integers(2))
    so.globalization = glob
    if fam == 'warm':
        so.qp_solver_warm_start = int(rng.integers(0, 4))
        so.nlp_solver_warm_start_first_qp = bool(rng.integers(2))
    if fam == 'sqp' and rng.random() < 0.3 and 'HPIPM' in qp:
        so.nlp_qp_tol_strategy = str(rng.choice(['ADAPTIVE_CURRENT_RES_JOINT', 'FIXED_QP_TOL']))
    if fam == 'sqp' and rng.random() < 0.3:
        so.with_anderson_acceleration = True
        so.anderson_activation_threshold = 1e3
    if fam.startswith('asrti'):
        lv = [0, 3]
        if not {'LINEAR_LS', 'NONLINEAR_LS'} & {ocp.cost.cost_type_0, ocp.cost.cost_type, ocp.cost.cost_type_e}:
            lv += [] if pr.f['soft'] else [1]
            lv += [] if pr.f['nh'] or pr.f['nh_0'] or pr.f['nh_e'] else [2]
        so.as_rti_level = int(rng.choice(lv))
        so.as_rti_iter = 2
    return qp, glob


def snapshot(pr, s, st):
    d = {'status': st}
    for f in OUT + ('p',):
        d[f] = s.get_flat(f)
    d['cost'] = s.get_cost()
    for f in ('nlp_iter', 'qp_iter', 'statistics', 'residuals', 'alpha'):
        try:
            v = s.get_stats(f)
        except Exception:
            continue
        d[f] = np.array(v, float)
    return d


def same(a, b):
    bad = []
    for k in a:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            n = '' if x.shape != y.shape else ' (max difference %.3e)' % np.nanmax(np.abs(x - y)) if np.isfinite(x - y).any() else ''
            bad.append(k + n)
    return bad


def act(pr, s, data, fam):
    """load the data and solve; returns the snapshots"""
    out = []
    for k in range(pr.N + 1):
        if pr.np:
            s.set(k, 'p', data['p'][k])
    if pr.f_x0 == 'fixed':
        s.set(0, 'lbx', data['x0'])
        s.set(0, 'ubx', data['x0'])
    if pr.npg:
        s.set_p_global_and_precompute_dependencies(data['pg'])
    pr.set_iterate(s, data['it'])
    if fam in ('rti', 'asrti', 'asrtic'):
        for x0 in data['x0s']:
            s.options_set('rti_phase', 1)
            s.solve()
            out.append(snapshot(pr, s, 0))
            if pr.f_x0 == 'fixed':
                s.set(0, 'lbx', x0)
                s.set(0, 'ubx', x0)
            s.options_set('rti_phase', 2)
            st = s.solve()
            out.append(snapshot(pr, s, st))
    else:
        out.append(snapshot(pr, s, s.solve()))
        if pr.f_x0 == 'fixed':
            s.set(0, 'lbx', data['x0s'][0])
            s.set(0, 'ubx', data['x0s'][0])
        out.append(snapshot(pr, s, s.solve()))
    return out


def data_for(pr, rng):
    return dict(it=pr.random_iterate(rng, 0.3, 0.2), p=[rng.uniform(-.5, .5, pr.np) for _ in range(pr.N + 1)], pg=rng.uniform(-.4, .4, pr.npg),
                x0=rng.uniform(-.5, .5, pr.nx), x0s=[rng.uniform(-.5, .5, pr.nx) for _ in range(2)])


def hostile(pr, s, rng, fam, ob):
    if fam in ('rti', 'asrti', 'asrtic'):
        s.options_set('rti_phase', 1)       # a feedback phase needs some preparation before it
        s.solve()
    for _ in range(int(rng.integers(2, 6))):
        c = int(rng.integers(8))
        it = pr.random_iterate(rng, 1.0, 2.0)
        if c in (0, 1) and fam in ('rti', 'asrti', 'asrtic') and 'FULL' in s.ocp.solver_options.qp_solver:
            continue        # HPIPM (external) keeps NaN in its workspace for separate condensing of the left-hand side
        elif c == 0:
            it.x[int(rng.integers(pr.N + 1))][:] = np.nan
        elif c == 1:
            it.x[int(rng.integers(pr.N + 1))][:] = 1e12
        elif c == 2 and pr.f_x0 == 'fixed':
            s.set(0, 'lbx', np.full(pr.nx, 50.0))
            s.set(0, 'ubx', np.full(pr.nx, 50.0))
        elif c == 3 and pr.st[0].nbu:
            for k in range(pr.N):
                if pr.st[k].nbu:
                    s.constraints_set(k, 'lbu', np.full(pr.st[k].nbu, 3.0))
                    s.constraints_set(k, 'ubu', np.full(pr.st[k].nbu, -3.0))
        elif c == 4 and pr.np:
            for k in range(pr.N + 1):
                s.set(k, 'p', rng.normal(size=pr.np) * 3)
        elif c == 5:
            for k in range(pr.N + 1):
                s.cost_set(k, 'scaling', float(rng.uniform(0.1, 10)))
        elif c == 6:
            o = str(rng.choice(['tol_stat', 'tol_eq', 'tol_ineq', 'tol_comp', 'levenberg_marquardt', 'qp_tol_stat', 'nlp_solver_max_iter', 'qp_warm_start', 'tau_min']))
            if o in ('qp_tol_stat', 'tau_min', 'qp_warm_start') and 'HPIPM' not in s.ocp.solver_options.qp_solver:
                o = 'tol_eq'
            if o == 'levenberg_marquardt' and fam == 'ddp':
                o = 'tol_eq'
            s.options_set(o, int(rng.integers(1, 3)) if o in ('nlp_solver_max_iter', 'qp_warm_start') else 1e-2)
        elif c == 7 and pr.npg:
            s.set_p_global_and_precompute_dependencies(rng.normal(size=pr.npg) * 2)
        pr.set_iterate(s, it)
        if fam in ('rti', 'asrti', 'asrtic'):
            s.options_set('rti_phase', int(rng.integers(1, 3)) if fam.startswith('asrti') else int(rng.choice([1, 2])))
        st = s.solve()
        ob.count('hostile_status_%d' % st)
        if rng.random() < 0.2:
            s.reset(reset_qp_solver_mem=bool(rng.integers(2)))


def run(case, ob):
    warnings.simplefilter('ignore')
    from acados_template import AcadosOcpSolver
    rng = np.random.default_rng(case['seed'] + 3)
    fam = case['fam']
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    qp, glob = configure(ocp, pr, fam, rng)
    A = make_solver(ocp)
    D1, D2 = data_for(pr, rng), data_for(pr, rng)
    mk = lambda: AcadosOcpSolver(ocp, generate=False, build=False, verbose=False)
    tag = '%s %s/%s/%s/%s' % (pr.tag(), so.nlp_solver_type, qp, glob, fam)
    fresh = Store(pr, A).d
    refs = act(pr, A, D1, fam)

    def judge(got, ref, key, what):
        for i, (a, b) in enumerate(zip(got, ref)):
            bad = same(b, a)
            ob.check(not bad, key, lambda: '%s (%s), solve %d: %s differ' % (what, tag, i, ', '.join(bad)))
    # another fresh instance
    B = mk()
    judge(act(pr, B, D1, fam), refs, 'determinism', 'fresh second instance')
    ob.state(fam, qp, glob, pr.f_hess, pr.f_integrator, 'fresh')
    # hostile past and reset
    for rep in range(2):
        X = B if rep == 0 else A
        hostile(pr, X, rng, fam, ob)
        X.reset(reset_numerical_values=True, reset_solver_options=True)
        if pr.npg:
            X.set_p_global_and_precompute_dependencies(pr.pgval)
        now = Store(pr, X).d
        bad = ['%s of stage %d: %s instead of %s' % (e[1], e[0], now[e].ravel()[:4], fresh[e].ravel()[:4]) for e in fresh if not np.array_equal(now[e], 0 * fresh[e] if e[1] in OUT else fresh[e])]
        bad = [b for b in bad if not b.startswith('sens_')]
        ob.check(not bad, 'reset_values', lambda: 'after reset (%s): %s' % (tag, '; '.join(bad[:3])))
        judge(act(pr, X, D1, fam), refs, 'reset', 'after a hostile past and reset')
    ob.state(fam, qp, glob, pr.f_hess, pr.f_integrator, 'hostile')
    # interleaving of instances with different data
    C, E = mk(), mk()
    ref2 = act(pr, C, D2, fam)
    C.reset(reset_numerical_values=True, reset_solver_options=True)
    gens = [steps(pr, C, D1, fam), steps(pr, E, D2, fam)]
    outs = [[], []]
    alive = [0, 1]
    while alive:
        i = alive[int(rng.integers(len(alive)))]
        try:
            v = next(gens[i])
            if v is not None:
                outs[i].append(v)
        except StopIteration:
            alive.remove(i)
    judge(outs[0], refs, 'interleave', 'interleaved with another instance')
    judge(outs[1], ref2, 'interleave', 'interleaved with another instance')
    ob.count('solves', 5 * len(refs))
    ob.state(fam, qp, glob, pr.f_hess, pr.f_integrator, 'interleave')


def steps(pr, s, data, fam):
    for k in range(pr.N + 1):
        if pr.np:
            s.set(k, 'p', data['p'][k])
            yield None
    if pr.f_x0 == 'fixed':
        s.set(0, 'lbx', data['x0'])
        yield None
        s.set(0, 'ubx', data['x0'])
    if pr.npg:
        s.set_p_global_and_precompute_dependencies(data['pg'])
    yield None
    pr.set_iterate(s, data['it'])
    yield None
    if fam in ('rti', 'asrti', 'asrtic'):
        for x0 in data['x0s']:
            s.options_set('rti_phase', 1)
            yield None
            s.solve()
            yield snapshot(pr, s, 0)
            if pr.f_x0 == 'fixed':
                s.set(0, 'lbx', x0)
                s.set(0, 'ubx', x0)
            s.options_set('rti_phase', 2)
            yield None
            st = s.solve()
            yield snapshot(pr, s, st)
    else:
        st = s.solve()
        yield None
        yield snapshot(pr, s, st)
        if pr.f_x0 == 'fixed':
            s.set(0, 'lbx', data['x0s'][0])
            s.set(0, 'ubx', data['x0s'][0])
        st = s.solve()
        yield None
        yield snapshot(pr, s, st)
