"""Random problems (integrators, costs, constraints, QP solvers and
solver types) are given to a batch solver with 1..6 elements and 1..5 threads and, element by element, to independent
solvers that run one after another.  A random history of batch calls (setters of
iterates, parameters, global parameters, bounds and matrices, flat setters, whole
iterates, solves of partial batches, growing batches, resets, changed thread counts,
sensitivities) is applied to both; after every call the complete state (flat fields,
status, cost, statistics) of all elements - also those outside of the active subset - has
to be bitwise the same.  A second family runs the same histories in a library
built with ThreadSanitizer on an instrumentation-friendly OpenMP runtime (threads start in random order with random delays):
no data race may be reported, and the results still have to be those of the sequential solvers."""
import glob
import json
import os
import subprocess
import sys
import warnings

import numpy as np

from prob import Prob
from vp import Inconclusive, Observer

PROPERTY = 'P10'
VARIANT = 'plain'
LEVEL = 'monitored'
ASSUMPTIONS = ['ThreadSanitizer sees the accesses of acados and of the generated code, not those of the '
               'installed BLASFEO, HPIPM and OSQP libraries',
               'the OpenMP runtime is replaced by compat/gomp_shim.c in the race runs']
RULE = 'distinct (operation, batch size, threads, solver type, integrator, QP solver)'
CASE_TIMEOUT = 200
FLAT = ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su', 'p')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    out = []
    q = tier == 'quick'
    for fam, n, fix in (('nlp', 34 if q else 300, {}),
                        ('sens', 12 if q else 80, dict(integrator='DISCRETE', hess='EXACT', constr='BGH', nonlin=.5)),
                        ('x0', 5 if q else 40, dict(hess='EXACT', constr='BGH', x0='fixed', nonlin=.5)),
                        ('zg', 6 if q else 50, dict(integrator='IRK', nz=1)),
                        ('sim', 10 if q else 60, {})):
        for i in range(n):
            out.append(dict(id='%s%d_%d' % (fam, seed, i), fam=fam, fix=fix, seed=1500007*seed+613*i+sum(map(ord, fam))))
    for i in range(12 if q else 80):
        sub = ('nlp', 'nlp', 'sens', 'nlp', 'sim', 'x0')[i % 6]
        fix = [c['fix'] for c in out if c['fam'] == sub][0]
        out.append(dict(id='race%d_%d' % (seed, i), fam='race', sub=sub, fix=fix, seed=1500007*seed+77*i+5))
    return out


def prepare(tier):
    import acbuild
    acbuild.build('tsan')


# ---------------------------------------------------------------- sequential counterpart
def state(s, N):
    d = {f: s.get_flat(f) for f in FLAT}
    d['cost'] = np.array([s.get_cost()])
    for k in range(N+1):
        for f in ('lbx', 'ubx'):
            d['%s%d' % (f, k)] = np.array(s.constraints_get(k, f))
    return d


class Pair:
    def __init__(self, pr, ocp, n, threads, ob, solved):
        from acados_template import AcadosOcpBatchSolver, AcadosOcpSolver
        ocp.solver_options.with_batch_functionality = True
        self.cls = AcadosOcpSolver
        self.pr, self.ocp, self.ob = pr, ocp, ob
        self.b = AcadosOcpBatchSolver(ocp, n, num_threads_in_batch_solve=threads, verbose=False)
        self.r = []
        self.grow(n)
        self.n = n
        self.threads = threads

    def grow(self, n):
        while len(self.r) < n:
            self.r.append(self.cls(self.ocp, build=False, generate=False, verbose=False, check_reuse_possible=False))

    def compare(self, what):
        self.ob.check(len(self.b.ocp_solvers) == len(self.r), 'size', 'number of solvers after %s' % what)
        for i, r in enumerate(self.r):
            a, b = state(self.b.ocp_solvers[i], self.pr.N), state(r, self.pr.N)
            bad = [f for f in b if a[f].shape != b[f].shape or not np.array_equal(a[f], b[f], equal_nan=True)]
            self.ob.check(not bad, 'equal/'+what.split()[0], lambda: 'after %s: element %d differs in %s (batch of %d, %d threads): %s' % (what, i, bad[:4], self.n, self.threads, self.pr.tag()))
            self.ob.count('fields_compared', len(b))
            if bad:
                raise Inconclusive('diverged')


def nlp(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed']+9)
    fam = case['fam']
    fix = dict(case['fix'])
    if fam == 'sens':
        fix['npg'] = int(rng.integers(1, 4))
        fix['cost'], fix['cost_e'] = rng.choice(['LINEAR_LS', 'EXTERNAL'], 2)
        fix['cost_0'] = 'same'
        fix['soft'] = int(rng.integers(0, 3))
    pr = Prob(case['seed'], **fix)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    qp = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP'], p=[.6, .2, .2]))
    if pr.f['idxs_rev'] or fam not in ('nlp', 'zg'):
        qp = 'PARTIAL_CONDENSING_HPIPM'
    so.qp_solver = qp
    so.nlp_solver_max_iter = 4
    if fam not in ('nlp', 'zg'):
        so.qp_solver_cond_N = pr.N
        so.qp_solver_ric_alg = so.qp_solver_cond_ric_alg = 0
        so.nlp_solver_max_iter = 30
        so.qp_tol = 1e-10
        so.hessian_approx = 'EXACT'
        so.regularize_method = 'NO_REGULARIZE'
        so.levenberg_marquardt = 0.0
        so.exact_hess_constr = so.exact_hess_cost = so.exact_hess_dyn = 1
        so.fixed_hess = 0
        so.with_solution_sens_wrt_params = fam == 'sens'
    else:
        so.nlp_solver_type = str(rng.choice(['SQP', 'SQP_RTI']))
        if pr.f_hess == 'EXACT':
            so.regularize_method = 'MIRROR'
        if so.nlp_solver_type == 'SQP' and rng.random() < .4 and fam == 'nlp':
            so.globalization = 'MERIT_BACKTRACKING'
    if fam == 'zg':
        # an integrator that does not converge: its result shows the guess it started from
        so.sim_method_newton_iter = 1
    n0, th = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    if fam == 'zg':
        n0 = max(n0, 2)
    if 'sub' in case:
        n0, th = n0+1, max(th, 2)
    P = Pair(pr, ocp, n0, th, ob, None)
    b = P.b
    N = pr.N
    x0 = pr.f_x0 == 'fixed'
    P.compare('creation')
    ops = ['set', 'set', 'set', 'cset', 'cset', 'flat', 'iterate', 'solve', 'solve', 'solve', 'reset', 'threads', 'get', 'getflat', 'solve', 'p', 'direct']
    if pr.npg:
        ops += ['pg', 'pg']
    if fam == 'zg':
        ops += ['zset']*8+['solve']*4
    elif fam != 'nlp':
        ops += ['sens']*5
    hist = []
    done = 0
    for _ in range(case.get('steps', 22)):
        op = str(rng.choice(ops))
        # any size up to one more than there are; growing only through setters
        m = int(rng.integers(1, min(len(P.r)+2, 7))) if rng.random() < .5 else len(P.r)
        kmax = len(P.r)
        if op in ('set', 'p', 'zset'):
            k = int(rng.integers(N if op == 'zset' else N+1))
            fs = ['z'] if op == 'zset' else [f for f in (['x', 'u', 'pi', 'lam', 'z', 'sl', 'su'] if op == 'set' else ['p'])
                  if not (k == N and f in ('u', 'pi', 'z'))]
            f = str(rng.choice(fs))
            d = P.r[0].get(k, f).size
            if not d:
                continue
            v = rng.uniform(-.4, .4, (m, d))
            if f in ('lam', 'sl', 'su'):
                v = np.abs(v)
            if f == 'p':
                v = P.r[0].get(k, f)+.1*v
            if rng.random() < .3:
                v = np.asfortranarray(v)
            P.grow(m)
            b.set(k, f, v)
            for i in range(m):
                P.r[i].set(k, f, np.array(v[i]))
            what = 'set %s at stage %d' % (f, k)
        elif op == 'cset':
            k = int(rng.integers(N+1))
            fs = [f for f in ('lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'lh', 'uh', 'C', 'D')
                  if not (k == N and f in ('lbu', 'ubu', 'D'))]
            if pr.hk[pr.kind(k)].phi:
                fs = [f for f in fs if f not in ('lh', 'uh')]
            f = str(rng.choice(fs))
            if f in ('C', 'D') and not pr.st[k].ng:
                continue
            cur = np.array(P.r[0].constraints_get(k, f))
            if cur.size == 0:
                continue
            P.grow(m)
            # moved downwards for lower, upwards for upper bounds; fixed states move together
            v = cur[None]+rng.uniform(0, .1, (m,)+cur.shape)*(1 if f[0] == 'u' else -1)
            if k == 0 and x0 and f in ('lbx', 'ubx'):
                v = np.repeat(pr.x0bar[None], m, 0)+rng.uniform(-.2, .2, (m, pr.nx))
                for q in ('lbx', 'ubx'):
                    b.constraints_set(0, q, v)
            else:
                b.constraints_set(k, f, v)
            for i in range(m):
                kw = dict(api='new') if f in ('C', 'D') else {}
                for q in (('lbx', 'ubx') if k == 0 and x0 and f in ('lbx', 'ubx') else (f,)):
                    P.r[i].constraints_set(k, q, np.array(v[i]), **kw)
            what = 'constraints_set %s at stage %d' % (f, k)
            for i in range(m):
                a, c = b.ocp_solvers[i].constraints_get(k, f), P.r[i].constraints_get(k, f)
                ob.check(np.array_equal(a, c), 'constraints', 'element %d after %s: %s, expected %s' % (i, what, a, c))
        elif op == 'flat':
            f = str(rng.choice(FLAT[:7]))
            cur = P.r[0].get_flat(f)
            P.grow(m)
            v = rng.uniform(0, .4, (m, cur.size))
            b.set_flat(f, v)
            for i in range(m):
                P.r[i].set_flat(f, v[i])
            what = 'set_flat %s' % f
        elif op == 'iterate':
            m = min(m, kmax)
            if m > b.n_batch_current:
                m = b.n_batch_current
            it = b.get_flat_iterate(m)
            for f in ('x', 'u', 'sl', 'su'):
                a = getattr(it, f)
                ob.check(np.array_equal(a, np.array([P.r[i].get_flat(f) for i in range(m)])), 'get_flat', 'iterate field %s' % f)
                setattr(it, f, a+rng.uniform(0, .1, a.shape))
            b.set_iterate(it)
            for i in range(m):
                fi = P.r[i].get_flat_iterate()
                for f in ('x', 'u', 'sl', 'su'):
                    setattr(fi, f, getattr(it, f)[i])
                P.r[i].set_iterate(fi)
            what = 'set_iterate'
        elif op == 'pg':
            P.grow(m)
            v = pr.pgval+rng.uniform(-.1, .1, (m, pr.npg))
            b.set_p_global_and_precompute_dependencies(v)
            for i in range(m):
                P.r[i].set_p_global_and_precompute_dependencies(v[i])
            what = 'p_global'
        elif op == 'reset':
            kw = dict(reset_qp_solver_mem='HPIPM' in qp)
            if rng.random() < .5:
                kw['reset_numerical_values'] = True
            P.grow(m)
            b.reset(n_batch=m, **kw)
            for i in range(m):
                P.r[i].reset(**kw)
            what = 'reset'
        elif op == 'threads':
            P.threads = int(rng.integers(2 if 'sub' in case else 1, 6))
            b.num_threads_in_batch_solve = P.threads
            ob.check(b.num_threads_in_batch_solve == P.threads, 'threads', 'number of threads')
            what = 'threads'
        elif op in ('get', 'getflat'):
            m = min(m, b.n_batch_current)
            if op == 'getflat':
                f = str(rng.choice(FLAT))
                a = b.get_flat(f, m)
                c = np.array([P.r[i].get_flat(f) for i in range(m)])
                what = 'get_flat %s' % f
            else:
                k = int(rng.integers(N+1))
                f = str(rng.choice([f for f in ('x', 'u', 'pi', 'lam', 'z', 'sl', 'su', 'p') if not (k == N and f in ('u', 'pi', 'z'))]))
                a = b.get(k, f, m)
                c = np.array([P.r[i].get(k, f) for i in range(m)])
                what = 'get %s at stage %d' % (f, k)
            ob.check(a.shape == c.shape and np.array_equal(a, c), op, '%s of %d: %s, expected %s: %s' % (what, m, a.ravel()[:4], c.ravel()[:4], pr.tag()))
        elif op == 'direct':
            i = int(rng.integers(len(P.r)))
            v = rng.uniform(-.3, .3, pr.nx)
            k = int(rng.integers(N+1))
            b.ocp_solvers[i].set(k, 'x', v)
            P.r[i].set(k, 'x', v)
            what = 'set of one solver'
        elif op == 'solve':
            m = min(m, b.n_batch_current)
            if rng.random() < .5:
                m = b.n_batch_current
                b.solve()
            else:
                b.solve(m)
            ob.check(b.n_batch_current == m, 'current', 'batch size %d after solving %d' % (b.n_batch_current, m))
            st = np.array([P.r[i].solve() for i in range(m)])
            ob.check(np.array_equal(np.array(b.status)[:m], st), 'status', 'status %s, expected %s: %s' % (b.status, st, pr.tag()))
            for i in range(m):
                ob.check(b.ocp_solvers[i].status == st[i], 'status', 'status of solver %d' % i)
                for q in ('nlp_iter', 'qp_iter', 'qp_stat', 'residuals'):
                    a, c = b.ocp_solvers[i].get_stats(q), P.r[i].get_stats(q)
                    ob.check(np.array_equal(a, c, equal_nan=True), 'stats/'+q, 'element %d: %s, expected %s' % (i, a, c))
            done += m
            what = 'solve of %d' % m
        elif op == 'sens':
            what = sens(P, pr, rng, fam, ob)
            if what is None:
                continue
        P.n = m
        hist.append(what)
        P.compare(what)
        ob.count('batch_calls')
        ob.state(what.split(' at')[0].split(' of')[0], m, P.threads, so.nlp_solver_type, pr.f_integrator, qp)
    ob.count('elements_solved', done)


def same(a, c, tol=0):
    a, c = np.asarray(a), np.asarray(c)
    return a.shape == c.shape and np.array_equal(a, c, equal_nan=True)


def sens(P, pr, rng, fam, ob):
    b, N = P.b, pr.N
    m = b.n_batch_current
    # from a solution only
    for _ in range(2):
        b.solve()
        for i in range(m):
            P.r[i].solve()
    if any(max(P.r[i].get_residuals()) > 1e-4 for i in range(m)):
        ob.count('sensitivities_skipped')
        return None
    b.setup_qp_matrices_and_factorize(m)
    st = [P.r[i].setup_qp_matrices_and_factorize() for i in range(m)]
    ob.check(np.array_equal(np.array(b.status)[:m], st), 'status', 'status after factorization %s, expected %s' % (b.status, st))
    wrt = 'initial_state' if fam == 'x0' else 'p_global'
    kw = {'return_sens_'+f: bool(rng.integers(2)) for f in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
    stages = [int(k) for k in rng.permutation(N+1)[:int(rng.integers(1, N+2))]]
    if rng.random() < .3:
        stages = stages[0]
        if stages == N:
            kw['return_sens_u'] = kw['return_sens_pi'] = False
    A = b.eval_solution_sensitivity(stages, wrt, **kw)
    for i in range(m):
        C = P.r[i].eval_solution_sensitivity(stages, wrt, **kw)
        for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
            q = 'sens_'+f
            if not kw['return_'+q]:
                continue
            if isinstance(stages, list):
                ok = len(A[q]) == len(C[q]) and all(same(x[i], y) for x, y in zip(A[q], C[q]))
            else:
                ok = same(A[q][i], C[q])
            ob.check(ok, 'sens/'+f, lambda: 'sensitivity of %s of element %d: %s, expected %s: %s' % (f, i, [np.shape(x) for x in A[q]], [np.shape(x) for x in C[q]], pr.tag()))
    if wrt == 'p_global':
        ns = int(rng.integers(1, 4))
        sx = [(k, rng.normal(size=(m, pr.nx, ns))) for k in range(N+1) if rng.random() < .5]
        su = [(k, rng.normal(size=(m, pr.nu, ns))) for k in range(N) if rng.random() < .5]
        if sx or su:
            A = b.eval_adjoint_solution_sensitivity(sx, su)
            C = np.array([P.r[i].eval_adjoint_solution_sensitivity([(k, v[i]) for k, v in sx], [(k, v[i]) for k, v in su]) for i in range(m)])
            sc = 1+np.abs(C).max()
            ob.check(A.shape == C.shape and np.allclose(A/sc, C/sc, rtol=0, atol=1e-12, equal_nan=True), 'adjoint',
                     lambda: 'adjoint sensitivities %s, expected %s: %s' % (A.ravel()[:4], C.ravel()[:4], pr.tag()))
    ob.count('sensitivity_calls')
    return 'sensitivities'


def sim(case, ob):
    from acados_template import AcadosSimBatchSolver, AcadosSimSolver
    import simref
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    it = str(rng.choice(['ERK', 'IRK', 'GNSF'], p=[.4, .4, .2]))
    pr = simref.draw(case['seed'], rng, it, steps=int(rng.integers(1, 3)))
    sm = simref.make_sim(pr, .1)
    n, th = int(rng.integers(2, 6)), int(rng.integers(1, 6))
    if 'sub' in case:
        th = max(th, 2)
    sm.solver_options.with_batch_functionality = True
    b = AcadosSimBatchSolver(sm, n, num_threads_in_batch_solve=th, verbose=False)
    r = [AcadosSimSolver(sm, build=False, generate=False, verbose=False) for _ in range(n)]
    outs = ['x', 'S_forw', 'Sx', 'Su', 'S_adj', 'S_hess', 'z', 'S_algebraic', 'CPUtime']
    for step in range(6):
        for i in range(n):
            for f, d in (('x', sm.dims.nx), ('u', sm.dims.nu), ('p', sm.dims.np)):
                if d and rng.random() < .7:
                    v = rng.uniform(-.4, .4, d)
                    if f == 'p':
                        v = np.asarray(sm.parameter_values)+.1*v
                    b.sim_solvers[i].set(f, v)
                    r[i].set(f, v)
            if it != 'GNSF' and rng.random() < .3:
                v = float(rng.uniform(.05, .2))
                b.sim_solvers[i].set('T', v)
                r[i].set('T', v)
        m = b.n_batch_current if rng.random() < .7 else int(rng.integers(1, b.n_batch_current+1))
        if m == b.n_batch_current and rng.random() < .5:
            b.solve()
        else:
            b.solve(m)
        for i in range(m):
            r[i].solve()
        for i in range(n):
            for f in outs[:-1]:
                try:
                    c = r[i].get(f)
                except Exception:
                    continue
                a = b.sim_solvers[i].get(f)
                ob.check(np.array_equal(a, c, equal_nan=True), 'sim/'+f, lambda: 'integrator %d of %d (%d solved): %s is %s, expected %s' % (i, n, m, f, np.ravel(a)[:3], np.ravel(c)[:3]))
                ob.count('fields_compared')
        th = int(rng.integers(1, 6))
        b.num_threads_in_batch_solve = th
        ob.state('sim', m, th, sm.solver_options.integrator_type)


def workload(case, ob):
    if case['fam'] == 'sim':
        sim(case, ob)
    else:
        nlp(case, ob)


def run(case, ob):
    if case['fam'] != 'race':
        return workload(case, ob)
    import acbuild
    sub = dict(case, fam=case['sub'], steps=14)
    prefix = acbuild.build('tsan')
    env = acbuild.env_for(prefix)
    log = os.path.join(os.getcwd(), 'tsan')
    pre = subprocess.run(['gcc', '-print-file-name=libtsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env.update(VP_PREFIX=prefix, LD_PRELOAD=acbuild.deepbind_shim()+' '+os.path.realpath(pre), VP_GOMP_SEED=str(case['seed'] % 99991),
               TSAN_OPTIONS='halt_on_error=0:exitcode=0:report_signal_unsafe=0:report_thread_leaks=0:log_path='+log)
    out = os.path.join(os.getcwd(), 'result.json')
    with open('worker.log', 'w') as f:
        rc = subprocess.call([sys.executable, os.path.abspath(__file__), json.dumps(sub), out], env=env, stdout=f, stderr=subprocess.STDOUT)
    if rc != 0 or not os.path.exists(out):
        tail = open('worker.log', errors='replace').read()[-800:]
        raise RuntimeError('race workload ended with %d: %s' % (rc, tail))
    res = json.load(open(out))
    for v in res['violations']:
        ob.violation(v['key'], v['msg'])
    for k, v in res['counters'].items():
        ob.count('race_'+k, v)
    if res['inconclusive']:
        raise Inconclusive(res['inconclusive'])
    races = []
    for p in glob.glob(log+'*'):
        for t in open(p, errors='replace').read().split('==================')[1::2]:
            if 'data race' in t and ('libacados' in t or 'codegen' in t or 'acados' in t):
                fr = [l.split()[1] for l in t.splitlines() if l.strip().startswith('#') and '/acados' in l][:1]
                races.append((fr[0] if fr else '?', t[:1500]))
    ob.count('parallel_regions', res['regions'])
    ob.count('threads_started', res['threads'])
    ob.check(not races, 'race/%s' % (races[0][0] if races else ''), lambda: 'data race: %s' % races[0][1])
    ob.state('race', res['regions'], res['threads'])


def worker(argv):
    import vpfast
    vpfast.install()
    case = json.loads(argv[1])
    ob = Observer()
    inc = None
    try:
        workload(case, ob)
    except Inconclusive as e:
        inc = str(e)
    import ctypes
    L = ctypes.CDLL(os.path.join(os.environ['VP_PREFIX'], 'lib', 'libacados.so'))
    L.vp_gomp_regions.restype = L.vp_gomp_threads.restype = ctypes.c_ulong
    with open(argv[2], 'w') as f:
        json.dump(dict(violations=[dict(key=v['key'], msg=v['msg']) for v in ob.violations], inconclusive=inc,
                       counters=ob.counts, regions=L.vp_gomp_regions(), threads=L.vp_gomp_threads()), f)


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    worker(sys.argv)
