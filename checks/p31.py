"""Random histories of online changes of the time grid, the number of shooting intervals and the partial condensing horizon,
mixed with solves, resets and stored data, are run on one compiled solver; a second solver is generated
from the formulation with the final setting.  Both are loaded with the same data and replayed: every iterate block, status, cost,
residual, statistic and QP matrix (also of the condensed QP) has to be equal bit by bit.  Setters are fed with arrays in
different memory layouts, with the same array object modified in place, and with values set before."""
import warnings
import copy
from types import SimpleNamespace
import numpy as np
from prob import Prob, make_solver
import p09

PROPERTY = 'P31'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['after new time steps the path cost scalings equal the time steps (documented); the terminal scaling is kept',
               'per-stage integrator options beyond the generated horizon are not judged']
RULE = 'distinct (kind of history step, solver type, QP solver, integrator) before a bitwise comparison with a newly created solver'

FAM = [('steps', {}, 22), ('horizon', {}, 26), ('cond', dict(idxs_rev=False), 18), ('gnsf', dict(integrator='GNSF', nz=0), 6),
       ('scal', dict(scaling='random'), 8), ('block', dict(idxs_rev=False), 8), ('stagewise', {}, 8), ('rti', dict(idxs_rev=False), 10), ('pg', dict(npg=2), 5)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=3100019 * seed + 101 * i + sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def layout(rng, v):
    """the same values in another memory layout"""
    c = int(rng.integers(4))
    if c == 0:
        w = np.zeros(2 * v.size)
        w[::2] = v
        return w[::2], 'strided'
    if c == 1:
        return v[::-1].copy()[::-1], 'reversed'
    if c == 2:
        return np.asfortranarray(v), 'plain'
    return v.copy(), 'plain'


def qpdata(pr, s):
    d = {}
    for k in range(pr.N + 1):
        for f in ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'b', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu'):
            if k == pr.N and f in ('A', 'B', 'b', 'R', 'S', 'r', 'D', 'lbu', 'ubu'):
                continue
            d['%s@%d' % (f, k)] = s.get_from_qp_in(k, f)
    return d


def pcond(s, n):
    d = {}
    for k in range(n + 1):
        for f in ('pcond_Q', 'pcond_R', 'pcond_A', 'pcond_b'):
            if k == n and f in ('pcond_A', 'pcond_b', 'pcond_R'):
                continue
            d['%s@%d' % (f, k)] = s.get_from_qp_in(k, f)
    return d


def load(pr, s, data):
    for k in range(pr.N + 1):
        if pr.np:
            s.set(k, 'p', data['p'][k])
    if pr.f_x0 == 'fixed':
        s.set(0, 'lbx', data['x0'])
        s.set(0, 'ubx', data['x0'])
    if pr.npg:
        s.set_p_global_and_precompute_dependencies(data['pg'])
    for f in p09.OUT:
        n = s.get_flat(f).size
        s.set_flat(f, data['rng_' + f][:n])


def data_for(pr, rng):
    d = dict(p=[rng.uniform(-.5, .5, pr.np) for _ in range(pr.N + 1)], pg=rng.uniform(-.4, .4, pr.npg),
             x0=rng.uniform(-.5, .5, pr.nx), x1=rng.uniform(-.5, .5, pr.nx))
    for f in p09.OUT:
        d['rng_' + f] = rng.uniform(0, .2, 4000) if f in ('lam', 'sl', 'su') else rng.uniform(-.4, .4, 4000)
    return d


def act(pr, s, data, rti, hp):
    out = []
    load(pr, s, data)
    if rti:
        s.options_set('rti_phase', 1)
        s.solve()
        # the vectors of the QP are set in the feedback phase
        out.append(dict(p09.snapshot(pr, s, 0), **{k: v for k, v in qpdata(pr, s).items() if k[0] in 'QRSABCD'}))
        if pr.f_x0 == 'fixed':
            s.set(0, 'lbx', data['x1'])
            s.set(0, 'ubx', data['x1'])
        s.options_set('rti_phase', 2)
        out.append(dict(p09.snapshot(pr, s, s.solve()), **qpdata(pr, s)))
        s.options_set('rti_phase', 0)
    else:
        out.append(dict(p09.snapshot(pr, s, s.solve()), **qpdata(pr, s)))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 5)
    fam = case['fam']
    pr = Prob(case['seed'], **case['fix'])
    rti = fam == 'rti'
    qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP'], p=[.7, .2, .1]))
    if pr.f['idxs_rev'] or fam in ('cond', 'block', 'rti'):
        qp = 'PARTIAL_CONDENSING_HPIPM'
    part = qp.startswith('PARTIAL') and not pr.f['idxs_rev']
    N0 = pr.N
    cond0 = int(rng.integers(1, N0 + 1)) if part and rng.random() < .7 else None
    cont = pr.f_integrator != 'DISCRETE'
    stagewise = fam == 'stagewise' and cont

    def gen(name, N=None, dt=None, cond=None):
        ocp = pr.make_ocp(name)
        so = ocp.solver_options
        so.nlp_solver_type = 'SQP_RTI' if rti else 'SQP'
        so.nlp_solver_max_iter = 6
        so.qp_solver = qp
        if pr.f_hess == 'EXACT':
            so.regularize_method = 'MIRROR'
        if part and (cond or cond0):
            so.qp_solver_cond_N = cond or cond0
        if N is None:
            if fam == 'block':
                nb = so.qp_solver_cond_N or N0
                cuts = np.sort(rng.permutation(N0)[:nb] + 1)      # blocks before the last one are not empty
                so.qp_solver_cond_N = nb
                so.qp_solver_cond_block_size = [int(v) for v in np.diff(np.concatenate([[0], cuts, [N0]]))]
            if stagewise:
                so.sim_method_num_steps = nsteps
                so.sim_method_num_stages = nstages
        else:
            so.N_horizon, so.time_steps, so.tf = N, dt.copy(), float(dt.sum())
            if cur.block is not None:
                so.qp_solver_cond_block_size = list(cur.block)
            so.cost_scaling = np.concatenate([dt, [scal0[-1]]])
            if stagewise:
                so.sim_method_num_steps = np.concatenate([nsteps, np.full(9, nsteps[-1])])[:N]
                so.sim_method_num_stages = np.concatenate([nstages, np.full(9, nstages[-1])])[:N]
        return ocp
    if stagewise:
        nsteps = rng.integers(1, 4, N0)
        nstages = rng.choice([1, 2, 4] if pr.f_integrator == 'ERK' else [1, 2, 3], N0)
    ocp1 = gen(None)
    block = copy.deepcopy(ocp1.solver_options.qp_solver_cond_block_size)
    s = make_solver(ocp1)
    dt0, scal0 = np.array(ocp1.solver_options.time_steps, float), np.array(ocp1.solver_options.cost_scaling, float)
    cur = SimpleNamespace(N=N0, dt=dt0.copy(), cond=ocp1.solver_options.qp_solver_cond_N or N0 if part else None, block=block, changed=False)
    ref = SimpleNamespace(N=N0, np=pr.np, npg=pr.npg, nx=pr.nx, f_x0=pr.f_x0)
    last = None
    hist = []
    maxN = N0 if stagewise else N0 + 3
    # the time step size is bounded, implicit integrators have to converge
    top = float(max(pr.dt.max(), .05))
    nops = int(rng.integers(3, 8))
    for j in range(nops):
        pool = ['solve', 'reset', 'steps', 'same']
        if fam not in ('steps', 'gnsf'):
            pool += ['N', 'N']
        if fam == 'gnsf' and rng.random() < .3:
            pool += ['N']
        if part and fam != 'steps':
            pool += ['cond'] * (3 if fam in ('cond', 'block') else 1)
        pool += ['inplace', 'back', 'resetnum'] + ['resetnum'] * (fam == 'cond')
        op = str(rng.choice(pool))
        if j == nops - 1 and op in ('solve', 'reset', 'resetnum'):
            op = 'steps'
        if j == nops - 1 and fam in ('cond', 'block') and rng.random() < .6:
            op = 'cond'
        if op == 'solve':
            ref.N = cur.N
            load(ref, s, data_for(ref, rng))
            s.solve()
        elif op == 'reset':
            s.reset(reset_qp_solver_mem=int(rng.integers(2)))
        elif op == 'resetnum':
            s.reset(reset_qp_solver_mem=1, reset_numerical_values=1, reset_solver_options=int(rng.integers(2)))
            if cur.N == N0:
                cur.dt, cur.changed = dt0.copy(), False
        elif op in ('steps', 'N', 'same', 'inplace', 'back'):
            kind = 'plain'
            N = cur.N
            if op == 'N':
                N = int(rng.integers(1, maxN + 1))
            dt = rng.uniform(.3, 1, N) * top
            if op == 'same':
                dt = cur.dt.copy()
            if op == 'back':
                N, dt = N0, dt0.copy()
            if op == 'inplace' and last is not None and last.size == N:
                last[:] = dt
                dt2 = last
                kind = 'inplace'
            else:
                dt2, kind = layout(rng, dt)
                if rng.random() < .3 and op == 'N':
                    dt2 = np.round(dt2, 2).astype(np.float32)
                    kind = 'float32'
            dt = np.array(dt2, float)
            if op != 'same':
                ob.state('layout', kind, N < cur.N, N > cur.N)
            s.set_new_time_steps(dt2)
            last = dt2
            if N != cur.N:
                cur.block = block if N == N0 else None
                cur.cond = min(len(block) - 1 if block else cond0 or N0, N) if part else None      # the generated value, limited by N
            cur.N, cur.dt, cur.changed = N, dt, True
        elif op == 'cond':
            c = int(rng.integers(1, cur.N + 1))
            s.update_qp_solver_cond_N(c)
            if c != cur.cond:
                cur.block = None
            cur.cond = c
            hist.append('cond%d' % c)
        hist.append(op)
        ob.count('history steps')
        ob.state(op, 'rti' if rti else 'sqp', qp, pr.f_integrator, fam)
    if part and rng.random() < .5:
        # last, the condensing horizon is set again to a definite value
        c = int(rng.integers(1, cur.N + 1))
        s.update_qp_solver_cond_N(c)
        if c != cur.cond:
            cur.block = None
        cur.cond = c
        hist.append('cond')
    elif part:
        hist.append('keep')
    ref.N = cur.N
    ob.count('histories')
    # a newly created solver
    ocp2 = gen('fresh', cur.N, cur.dt, cur.cond)
    f = make_solver(ocp2)
    if not cur.changed:
        for k in range(cur.N + 1):
            f.cost_set(k, 'scaling', scal0[k])
    s.reset(reset_qp_solver_mem=1)
    data = data_for(ref, rng)
    key = hist[-1] + ('' if hist[-1] != 'keep' else '/' + hist[-2])
    ob.check(s.N == cur.N, 'N', 'N is %d after changing to %d' % (s.N, cur.N))
    for r in range(2):
        a, b = act(ref, s, data, rti, 'HPIPM' in qp), act(ref, f, data, rti, 'HPIPM' in qp)
        for x, y in zip(a, b):
            bad = p09.same(x, y)
            ob.count('values compared', len(x))
            ob.check(set(x) == set(y) and not bad, 'replay/' + fam, 'solver differs from a newly created one (N=%d, cond_N=%s) after %s: %s'
                     % (cur.N, cur.cond, ' '.join(hist), ', '.join(bad)[:250]))
        data = data_for(ref, rng)
    if part:
        x, y = pcond(s, cur.cond), pcond(f, cur.cond)
        bad = p09.same(x, y)
        ob.check(not bad, 'pcond/' + fam, 'condensed QP differs from that of a newly created solver with cond_N=%d after %s: %s' % (cur.cond, ' '.join(hist), ', '.join(bad)[:200]))
    ob.state('final', cur.N - N0, cur.cond == N0, pr.tag() if hasattr(pr, 'tag') else '')
