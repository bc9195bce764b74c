"""mixed: random multi-phase problems (phases with different models, integrators, costs, constraints, slacks, parameters, numbers of
integration steps, and discrete transitions that change the number of states) are put at random primal-dual iterates; every block of
the QP of a real-time iteration and the step have to agree with the reference linearization of the phase each stage belongs to, at
the start and after stage-wise changes of parameters, references, weights and bounds; full SQP solutions have to satisfy the optimality
conditions of the concatenated problem.  same: a problem split into random phases has to give the iterates, QP data and costs of the
unsplit problem.  horizon: solutions of problems with a control horizon satisfy the optimality conditions of the original problem with
the tied controls.  misuse: inconsistent phases are refused."""
import contextlib
import copy
import io
import warnings
import numpy as np
import casadi as ca
import p03
import p19
from prob import Prob, Obj, make_solver, INF
from vp import Inconclusive

PROPERTY = 'P26'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['the step oracle applies only when the QP solver reports success', 'phases with the cost discretized by the integrator are not generated']
RULE = 'distinct (phase formulations, numbers of stages, transition kinds) with all QP blocks compared'
FAM = [('mixed', 60), ('same', 30), ('horizon', 24), ('misuse', 6)]


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=2600011 * seed + 113 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    globals()[case['fam']](case, ob, np.random.default_rng(case['seed']))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Transition(Prob):
    """one stage mapping the state to a state of another size"""
    nxn = None

    def _dynamics(self):
        Prob._dynamics(self)
        rng, nx, nu = self.rng, self.nx, self.nu
        npp = self.np + self.npg
        rows = []
        for i in range(self.nxn):
            e = ca.dot(ca.DM(rng.normal(size=nx) * .5), self.x) + ca.dot(ca.DM(rng.normal(size=nu) * .6), self.u) + .3 * ca.sin(self.x[int(rng.integers(nx))] + self.u[int(rng.integers(nu))])
            rows.append(e + self.pterm(.4))
        self.disc = ca.vertcat(*rows)
        f0 = ca.Function('f', [self.x, self.u, self.p, self.pg], [self.disc])
        V, Pp, T, T0, pi = ca.MX.sym('v', nu + nx), ca.MX.sym('p', npp), ca.MX.sym('T'), ca.MX.sym('t0'), ca.MX.sym('pi', self.nxn)
        xn = f0(V[nu:], V[:nu], Pp[:self.np], Pp[self.np:])
        J = ca.jacobian(xn, V)
        H = ca.jacobian(ca.gradient(ca.dot(pi, xn), V), V)
        self.dyn_jac = ca.Function('dj', [V, Pp, T, T0], [xn, ca.MX(0, 1), J, ca.MX(0, nu + nx)])
        self.dyn_hess = ca.Function('dh', [V, Pp, T, T0, pi], [H])


class Chain(Prob):
    """reference of the concatenated problem"""
    def __init__(self, prs, Ns, dt, scal):
        self.prs, self.Ns, self.N = prs, Ns, sum(Ns)
        self.phase = [i for i, n in enumerate(Ns) for _ in range(n)] + [len(Ns) - 1]
        self.st = []
        for k in range(self.N + 1):
            pr = self.of(k)
            s = pr.st[k]
            s.dt, s.scal = (dt[k] if k < self.N else 0.), scal[k]
            self.st.append(s)
        self.dt, self.scal = dt, scal

    def of(self, k):
        return self.prs[self.phase[k]]

    def stage(self, k, *a, **kw):
        return self.of(k).stage(k, *a, **kw)

    def kind(self, k):
        return self.of(k).kind(k)

    def tag(self):
        return ' | '.join('%d %s' % (n, p.tag()) for p, n in zip(self.prs, self.Ns))

    def random_iterate(self, rng, scale=.7, lam_scale=1.):
        it = Prob.random_iterate(self, rng, scale, lam_scale)
        it.pi = [rng.uniform(-1, 1, self.st[k + 1].nx) for k in range(self.N)]
        return it


def build(rng, seed, hess, transitions=True):
    """(Chain, AcadosMultiphaseOcp)"""
    from acados_template import AcadosMultiphaseOcp
    n = int(rng.integers(2, 5))
    npg = int(rng.choice([0, 0, 1, 2]))
    Ns = [int(q) for q in rng.integers(1, 4, n)]
    nx = int(rng.integers(1, 4))
    kinds, nxs = [], []
    for i in range(n):
        nxs.append(nx)
        tr = transitions and i < n - 1 and rng.random() < .4
        kinds.append(tr)
        if tr:
            Ns[i] = 1
            nx = int(rng.integers(1, 5))
    N = sum(Ns)
    prs, ocps = [], []
    for i in range(n):
        fix = dict(nx=nxs[i], npg=npg, N=N, hess=hess, sym='SX', uniform=True, T=.25 * N, scaling=None)
        if kinds[i]:
            cls = type('T%d' % i, (Transition,), dict(nxn=nxs[i + 1] if i + 1 < n and len(nxs) > i + 1 else nx))
            fix['integrator'] = 'DISCRETE'
        else:
            cls = Prob
            fix['integrator'] = str(rng.choice(['ERK', 'IRK', 'DISCRETE'] + (['GNSF'] if npg == 0 and hess != 'EXACT' else [])))
            if fix['integrator'] == 'IRK':
                fix['nz'] = int(rng.integers(0, 2))
        prs.append(cls(seed * 37 + i, **fix))
    # one grid for all phases
    dt = rng.uniform(.1, .4, N)
    tcap = np.array([prs[[j for j, m in enumerate(Ns) for _ in range(m)][k]].tcap for k in range(N)])
    dt = np.minimum(dt, tcap)
    if rng.random() < .3 and tcap.min() > .2:
        dt[:] = .2
    scal = np.concatenate([dt, [1.]])
    own = rng.random() < .3
    if own:
        scal = rng.uniform(.3, 2, N + 1)
    mo = AcadosMultiphaseOcp(N_list=list(Ns))
    for i, pr in enumerate(prs):
        pr.pgval = prs[0].pgval
        o = quiet(pr.make_ocp, 'phase%d' % i)
        if i and npg:
            o.model.substitute(o.model.p_global, prs[0].pg)
            o.model.p_global = prs[0].pg
        o.model.name = 'phase%d' % i
        mo.set_phase(o, i)
    mo.mocp_opts.integrator_type = [p.f['integrator'] for p in prs]
    mo.mocp_opts.collocation_type = [p.f['colloc'] for p in prs]
    if npg:
        mo.p_global_values = prs[0].pgval.copy()
    mo.name = 'mp'
    so = mo.solver_options
    so.tf = float(np.sum(dt))
    so.time_steps = dt.copy()
    if own:
        so.cost_scaling = scal.copy()
    ph = [i for i, m in enumerate(Ns) for _ in range(m)]
    so.sim_method_num_stages = np.array([prs[i].f['stages'] for i in ph])
    so.sim_method_num_steps = np.array([prs[i].f['steps'] for i in ph])
    so.sim_method_newton_iter, so.sim_method_newton_tol = 20, 1e-13
    so.hessian_approx = hess
    so.print_level = 0
    so.nlp_solver_max_iter = 100
    if hess == 'EXACT' and any(h.phi and h.n for p in prs for h in p.hk.values()):
        so.exact_hess_constr = 0
    return Chain(prs, Ns, dt, scal), mo


def solver_of(mo):
    from acados_template import AcadosOcpSolver
    return AcadosOcpSolver(mo, verbose=False)


def mutate(rng, ch, s, ob):
    """stage-wise changes of the numerical data"""
    what = []
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(ch.N + 1))
        st, pr = ch.st[k], ch.of(k)
        ops = ['p'] * (len(st.p) > 0) + ['yref', 'W'] * (pr.ck[pr.kind(k)].type in ('LINEAR_LS', 'NONLINEAR_LS')) + ['yref'] * (pr.ck[pr.kind(k)].type == 'CONVEX_OVER_NONLINEAR') \
            + ['bu'] * (st.nbu > 0) + ['g'] * (st.ng > 0) + ['h'] * (st.nh > 0 and not pr.hk[pr.kind(k)].phi) + ['z'] * (st.ns > 0) + ['scal']
        op = str(rng.choice(ops))
        what.append((k, op))
        if op == 'p':
            st.p = rng.uniform(-.5, .5, len(st.p))
            s.set(k, 'p', st.p)
        elif op == 'yref':
            st.yref = rng.uniform(-.6, .6, len(st.yref))
            s.cost_set(k, 'yref', st.yref)
        elif op == 'W':
            from prob import spd
            st.W = spd(rng, len(st.yref), rng.random() < .4)
            s.cost_set(k, 'W', st.W, api='new')
        elif op == 'scal':
            st.scal = float(rng.uniform(.3, 2))
            s.cost_set(k, 'scaling', st.scal)
        elif op == 'z':
            f = str(rng.choice(['zl', 'zu', 'Zl', 'Zu']))
            setattr(st, f, rng.uniform(1, 15, st.ns))
            s.cost_set(k, f, getattr(st, f))
        else:
            side = str(rng.choice(['l', 'u']))
            f = side + op
            v = getattr(st, f).copy()
            v = np.where(np.abs(v) < INF, v + rng.uniform(.0, .2, len(v)) * (-1 if side == 'l' else 1), v)
            setattr(st, f, v)
            s.constraints_set(k, f, v)
    if ch.prs[0].npg and rng.random() < .5:
        pg = rng.uniform(-.5, .5, ch.prs[0].npg)
        s.set_p_global_and_precompute_dependencies(pg)
        for p in ch.prs:
            p.pgval = pg
        what.append('p_global')
    ob.count('changes', len(what))
    return what


def mixed(case, ob, rng):
    hess = str(rng.choice(['GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT']))
    ch, mo = build(rng, case['seed'], hess)
    sqp = rng.random() < .4
    so = mo.solver_options
    so.nlp_solver_type = 'SQP' if sqp and hess != 'EXACT' else 'SQP_RTI'
    sqp = so.nlp_solver_type == 'SQP'
    if sqp:
        so.nlp_solver_max_iter = 60
        so.globalization = 'MERIT_BACKTRACKING' if all(not p.nz for p in ch.prs) and rng.random() < .4 else 'FIXED_STEP'
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    so.qp_solver_cond_N = ch.N
    opt = dict(exact=hess == 'EXACT', cost=1, dyn=1, constr=so.exact_hess_constr)
    lm = 0.
    if rng.random() < .4:
        lm = so.levenberg_marquardt = float(rng.uniform(.01, 2.))
    s = solver_of(mo)
    for rep in range(3):
        if rep:
            mutate(rng, ch, s, ob)
        it = ch.random_iterate(rng, .6)
        s.reset()
        ch.set_iterate(s, it)
        if sqp:
            st = s.solve()
            ob.count('sqp_status_%d' % st)
            if st == 0:
                r = ch.kkt(ch.get_iterate(s))
                tol = [so.nlp_solver_tol_stat, so.nlp_solver_tol_eq, so.nlp_solver_tol_ineq, so.nlp_solver_tol_comp]
                for nm, v, t in zip(('stat', 'eq', 'ineq', 'comp'), r.norms, tol):
                    ob.check(v <= 1.01 * t + 1e-9, 'kkt/' + nm, 'solution has %s residual %.2e > %.1e: %s' % (nm, v, t, ch.tag()))
                ob.close(s.get_cost(), r.cost, 1e-9, 'cost', 'cost at solution: %s' % ch.tag())
                ob.count('solutions judged')
            continue
        if all(not p.nz for p in ch.prs):        # the cost of algebraic variables needs their values
            ob.close(s.get_cost(), ch.cost(it), 1e-9, 'cost', 'cost: %s' % ch.tag())
        st = s.solve()
        ob.count('status_%d' % st)
        ref = [ch.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < ch.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(ch.N + 1)]
        Hs = [p03.hessian(ch.of(k), ref[k], k, opt, lm) for k in range(ch.N + 1)]
        for k in range(ch.N + 1):
            p03.compare(ch.of(k), ob, s, k, ref[k], Hs[k], it)
        new = ch.get_iterate(s)
        if st == 0 and not np.any(s.get_stats('qp_stat')):
            ob.count('steps judged')
            p03.step_kkt(ch, ob, ref, Hs, it, new)
        ob.count('iterates')
    ob.state(tuple(p.tag() for p in ch.prs), tuple(ch.Ns), tuple(s_.nx for s_ in ch.st))


# ------------------------------------------------------------------------------------------------- split problems
def same(case, ob, rng):
    from acados_template import AcadosMultiphaseOcp
    N = int(rng.integers(2, 8))
    it = str(rng.choice(['ERK', 'IRK', 'DISCRETE', 'GNSF'], p=[.35, .35, .2, .1]))
    pr = Prob(case['seed'], N=N, integrator=it, npg=int(rng.choice([0, 0, 1])), nz=int(rng.choice([0, 0, 1])) if it == 'IRK' else 0,
              **(dict(idxs_rev=True, soft=2) if case['i'] % 4 == 2 else {}))
    cuts = np.sort(rng.choice(np.arange(1, N), int(rng.integers(1, min(4, N))), replace=False))
    Ns = [int(q) for q in np.diff(np.concatenate([[0], cuts, [N]]))]
    o = quiet(pr.make_ocp, 'single')
    so = o.solver_options
    exact = pr.f['hess'] == 'EXACT'
    so.nlp_solver_type = 'SQP_RTI' if exact else str(rng.choice(['SQP', 'SQP_RTI']))
    so.nlp_solver_max_iter = 6
    so.qp_solver = str(rng.choice(['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM'])) if not exact else 'PARTIAL_CONDENSING_HPIPM'
    so.qp_solver_cond_N = N if exact else int(rng.integers(1, N + 1))
    if pr.f['idxs_rev']:       # the HPIPM available here cannot condense problems with idxs_rev
        so.qp_solver, so.qp_solver_cond_N = 'PARTIAL_CONDENSING_HPIPM', N
    so.qp_solver_iter_max = 100
    if exact or rng.random() < .5:
        so.regularize_method = str(rng.choice(['MIRROR', 'PROJECT']))
    mo = AcadosMultiphaseOcp(N_list=list(Ns))
    for i in range(len(Ns)):
        q = quiet(pr.make_ocp, 'ph%d' % i)
        mo.set_phase(q, i)
    mo.name = 'multi'
    keep = mo.solver_options
    mo.solver_options = copy.deepcopy(so)
    if pr.npg:
        mo.p_global_values = pr.pgval.copy()
    mo.code_gen_options.code_export_directory, mo.code_gen_options.json_file = 'multi', 'm.json'
    who = '%s split %s %s %s' % (pr.tag(), Ns, so.nlp_solver_type, so.qp_solver)
    A, B = make_solver(o), solver_of(mo)
    ob.count('solver pairs')
    ob.state(pr.tag(), tuple(Ns), so.nlp_solver_type)
    tol = 1e-9
    for rep in range(3):
        it = pr.random_iterate(rng, .5)
        if rep:
            for k in range(N + 1):
                if pr.np and rng.random() < .5:
                    v = rng.uniform(-.5, .5, pr.np)
                    A.set(k, 'p', v)
                    B.set(k, 'p', v)
            if pr.npg and rng.random() < .5:
                v = rng.uniform(-.5, .5, pr.npg)
                A.set_p_global_and_precompute_dependencies(v)
                B.set_p_global_and_precompute_dependencies(v)
        for s in (A, B):
            s.reset()
            pr.set_iterate(s, it)
        ob.close(B.get_cost(), A.get_cost(), 1e-12, 'same/cost', 'cost: ' + who)
        a, b = A.solve(), B.solve()
        ob.check(a == b, 'same/status', 'status %d with one phase, %d with phases: %s' % (a, b, who))
        ob.count('status %d' % a)
        for f in ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su'):
            va, vb = A.get_flat(f), B.get_flat(f)
            ob.check(len(va) == len(vb), 'same/size', 'sizes of %s: %s' % (f, who))
            if np.all(np.isfinite(va)):
                ob.close(vb, va, tol, 'same/' + f, '%s: %s' % (f, who))
        for f in ('q', 'r', 'b', 'Q', 'R', 'S', 'A', 'B', 'C', 'D', 'lg', 'ug', 'zl', 'Zl'):
            for k in range(N + 1 if f not in 'bABRSr' else N):
                va, vb = A.get_from_qp_in(k, f), B.get_from_qp_in(k, f)
                if np.all(np.isfinite(va)):
                    ob.close(vb, va, 1e-9, 'same/qp', 'QP field %s at stage %d: %s' % (f, k, who))
        ra, rb = A.get_residuals(), B.get_residuals()
        if np.all(np.isfinite(ra)):
            ob.close(rb, ra, 1e-7, 'same/residuals', 'residuals: ' + who)
        ob.count('solves compared')


# ------------------------------------------------------------------------------------------------- control horizon
def horizon(case, ob, rng):
    from acados_template.mpc_utils import create_ocp_with_control_horizon
    N = int(rng.integers(3, 9))
    Nc = int(rng.integers(1, N))
    first = Nc == 1
    fix = dict(N=N, npg=0, nz=0, ng=0 if first else None, nh=0 if first else None, nh_0=0, soft=0, uniform=True, scaling='steps', x0='fixed', cost_0='same', hess='GAUSS_NEWTON', bx=False if first else None,
               integrator=str(rng.choice(['ERK', 'IRK', 'DISCRETE'])), T=.2 * N)
    fix.update(case.get('fix', {}))
    pr = Prob(case['seed'], **fix)
    if fix['integrator'] == 'IRK' and pr.dt.max() > pr.tcap:
        pr = Prob(case['seed'], **dict(fix, integrator='ERK'))
    o = quiet(pr.make_ocp, 'ch')
    o.solver_options.nlp_solver_type = 'SQP'
    o.solver_options.globalization = str(rng.choice(['FIXED_STEP', 'MERIT_BACKTRACKING']))
    o.solver_options.qp_tol = 1e-9
    o.solver_options.tol = 1e-6
    o.solver_options.nlp_solver_max_iter = 200
    o.solver_options.qp_solver_iter_max = 100
    who = 'Nc=%d of %d %s' % (Nc, N, pr.tag())
    mo = quiet(create_ocp_with_control_horizon, o, Nc)
    mo.name = 'chm'
    s = solver_of(mo)
    ob.count('problems')
    ob.state(pr.tag(), N, Nc)
    M = N + 1
    ob.check(s.N == M, 'horizon/N', '%s: horizon of %d intervals' % (who, s.N))
    for rep in range(3):
        s.reset()
        for k in range(M + 1):
            if rep:
                x = s.get(k, 'x')
                s.set(k, 'x', rng.uniform(-.5, .5, len(x)))
        if rep:
            pr.st[0].lbx = pr.st[0].ubx = x0 = rng.uniform(-.6, .6, pr.nx)
            s.set(0, 'lbx', x0)
            s.set(0, 'ubx', x0)
        if pr.np:
            for k in range(M + 1):
                if k != Nc - 1:
                    p = rng.uniform(-.5, .5, pr.np)
                    s.set(k, 'p', p)
                    pr.st[k if k < Nc - 1 else k - 1].p = p
        st = s.solve()
        ob.count('status %d' % st)
        if st != 0:
            continue
        # iterate of the original problem
        ubar = s.get(Nc - 1, 'u')
        it = Obj(x=[], u=[], z=[], sl=[], su=[], pi=[], lam=[])
        for k in range(N + 1):
            q = pr.st[k]
            j = k if k < Nc - 1 else k + 1
            x = s.get(j, 'x')
            it.x.append(x[:pr.nx])
            if k >= Nc - 1:
                ob.close(x[pr.nx:], ubar, 1e-7, 'horizon/held', '%s: control of interval %d' % (who, k))
            it.u.append((s.get(k, 'u') if k < Nc - 1 else ubar) if k < N else np.zeros(0))
            for f in ('z', 'sl', 'su'):
                getattr(it, f).append(np.zeros(0))
            if k < N:
                it.pi.append(s.get(j, 'pi')[:pr.nx])
            lam = s.get(j, 'lam') if 2 * (q.ni - q.nbu * (k >= Nc - 1)) or True else np.zeros(0)
            if k >= Nc - 1:
                nb = q.nbu
                n = len(lam) // 2
                tb = np.zeros(2 * nb)
                if k == Nc - 1:
                    t = s.get(Nc - 1, 'lam')
                    h = len(t) // 2
                    tb = np.concatenate([t[:nb], t[h:h + nb]])
                low, up = lam[:n], lam[n:]
                if k == 0:      # initial state bounds are multipliers of the transition stage
                    low, up = t[nb:h], t[h + nb:]
                lam = np.concatenate([tb[:nb], low, tb[nb:], up])
            it.lam.append(lam)
        ok = all(len(it.lam[k]) == 2 * pr.st[k].ni for k in range(N + 1))
        ob.check(ok, 'horizon/constraints', lambda: '%s: numbers of multipliers %s, constraints %s' % (who, [len(v) for v in it.lam], [2 * q.ni for q in pr.st]))
        if not ok:
            return
        r = pr.kkt(it)
        nu = pr.nu
        g = [np.array(v) for v in r.stat]
        tied = sum(v[:nu] for v in g[Nc - 1:N])
        for k in range(Nc - 1, N):
            g[k][:nu] = 0
        sc = 1 + max(np.max(np.abs(v), initial=0) for v in it.pi)
        tol = 1e-5 * sc
        ob.check(np.max(np.abs(np.concatenate(g))) <= tol, 'horizon/stat', lambda: '%s: stationarity %.2e' % (who, np.max(np.abs(np.concatenate(g)))))
        ob.check(np.max(np.abs(tied)) <= tol, 'horizon/stat_tied', lambda: '%s: stationarity with respect to the last control %.2e' % (who, np.max(np.abs(tied))))
        ob.check(r.n_eq <= 1e-5, 'horizon/eq', '%s: dynamics violated by %.2e' % (who, r.n_eq))
        ob.check(r.n_ineq <= 1e-5, 'horizon/ineq', '%s: constraints violated by %.2e' % (who, r.n_ineq))
        # the bounds of the last control are imposed once
        comp = max(np.max(np.abs(v), initial=0) for v in r.comp)
        ob.check(comp <= 1e-4 * sc, 'horizon/comp', '%s: complementarity %.2e' % (who, comp))
        ob.close(s.get_cost(), r.cost, 1e-6, 'horizon/cost', '%s: cost' % who)
        ob.count('solutions judged')


# ------------------------------------------------------------------------------------------------- wrong uses
def misuse(case, ob, rng):
    from acados_template import AcadosMultiphaseOcp
    def expect(key, f, *exc):
        try:
            quiet(f)
        except Exception as e:
            ob.count('refused')
            ob.check(not exc or isinstance(e, exc), 'misuse/' + key, '%s: %r' % (key, e))
            return
        ob.check(False, 'misuse/' + key, key + ' accepted')
    fresh = lambda **k: build(np.random.default_rng(case['seed']), case['seed'], 'GAUSS_NEWTON', **k)
    ch, mo = fresh()
    n = len(ch.Ns)
    expect('phase index', lambda: mo.set_phase(mo.dummy_ocp_list[0] if mo.dummy_ocp_list else ch.prs[0].make_ocp('a'), n), IndexError)
    expect('N_list', lambda: AcadosMultiphaseOcp(N_list=3), TypeError)
    expect('N_list entries', lambda: AcadosMultiphaseOcp(N_list=[2, 1.5]), TypeError)
    for f in ('integrator_type', 'collocation_type', 'cost_discretization'):
        expect(f + ' value', lambda: setattr(fresh()[1].mocp_opts, f, ['ERKK'] * n), ValueError)
        expect(f + ' type', lambda: setattr(fresh()[1].mocp_opts, f, 'ERK'), TypeError)

        def short():
            m = fresh()[1]
            v = dict(integrator_type='ERK', collocation_type='GAUSS_LEGENDRE', cost_discretization='EULER')[f]
            setattr(m.mocp_opts, f, [v] * (n + 1))
            m.make_consistent()
        expect(f + ' length', short, ValueError)

    def twice():
        m = fresh(transitions=False)[1]
        o = ch.prs[0].make_ocp('a')
        m.set_phase(o, 0)
        m.set_phase(o, 1)
        m.make_consistent()
    expect('same object twice', twice)

    def sizes():
        m = AcadosMultiphaseOcp(N_list=[2, 2])
        for i in range(2):
            m.set_phase(Prob(case['seed'] + i, nx=2 + i, npg=0, integrator='ERK', x0='fixed').make_ocp('s%d' % i), i)
        m.solver_options.tf = 1.
        m.mocp_opts.integrator_type = ['ERK', 'ERK']
        m.make_consistent()
    expect('different nx without transition', sizes)

    def glob():
        m = AcadosMultiphaseOcp(N_list=[2, 2])
        for i in range(2):
            m.set_phase(Prob(case['seed'] + i, nx=2, npg=1, integrator='ERK', x0='fixed').make_ocp('s%d' % i), i)
        m.p_global_values = np.zeros(1)
        m.solver_options.tf = 1.
        m.mocp_opts.integrator_type = ['ERK', 'ERK']
        m.make_consistent()
    expect('different p_global', glob)
    expect('parameter_values', lambda: setattr(fresh()[1], 'parameter_values', np.zeros(3)), TypeError)
    expect('number of parameter_values', lambda: setattr(fresh()[1], 'parameter_values', [np.zeros(1)] * (n + 1)), ValueError)
    ob.state(n)
