"""CasADi counterpart of a problem.

What is monitored.  Random problems (the generator of P02: all cost types, discrete and Runge-Kutta dynamics, grids, cost
scalings, bounds, linear, nonlinear, softened and convex-over-nonlinear constraints, parameters and global parameters)
are turned into `AcadosCasadiOcpSolver` objects.  `nlp`: the NLP solver is replaced by a recorder which returns its
arguments as solution.  Random primal-dual iterates, per-stage parameters, global parameters, references and bounds are
set through the stage-wise, flat and iterate interfaces; what reaches the NLP solver is judged with the CasADi functions
of the NLP: objective, constraint values against their bounds, gradient of the Lagrangian at the given multipliers and
Hessian must be those of the reference (`lib/prob.py`: built from the problem data, not from acados_template), and every
getter must return what was set.  `solve`: the problem is solved with IPOPT; the mapped back solution must satisfy the
KKT conditions of the reference, the cost agrees; handed to the compiled solver its residuals are as small and it stays.
`hess`: the custom Hessian equals the blocks of the compiled solver's documented Hessian approximation.
`refuse`: formulations the CasADi form cannot express are refused instead of being replaced by another problem.

Why beyond tests.  Index maps (variables, slack order, soft constraint splitting, multipliers of one-sided and fixed
variables) are checked for generated combinations of dimensions, at arbitrary points and parameter values instead of at
one solution.
"""
import numpy as np
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P24'
VARIANT = 'plain'
LEVEL = 3
ASSUMPTIONS = ['IPOPT of the CasADi wheel as NLP solver', 'casados integrators are not installed: discrete dynamics and the four stage Runge-Kutta method only (the only ones the class supports without them)',
               'soft constraints only for nonlinear constraints (others are refused)', 'NLP functions are compared at sampled points (agreement up to 1e-9)']
RULE = ('objective, constraints, bounds, Lagrangian gradient: relative deviation <= 1e-9; getters exact; KKT residuals of solutions <= 2e-5 (scaled); '
        'Hessian <= 1e-8')
CASE_TIMEOUT = 300
SOFT_S = {'quick': 200, 'thorough': 2400}


class Recorder:
    """Stands in for casadi.nlpsol: remembers the arguments and returns the initial guess as solution."""
    def __init__(self, nlp):
        import casadi as ca
        self.fg = ca.Function('fg', [nlp['x'], nlp['p']], [nlp['f'], nlp['g']])

    def __call__(self, **kw):
        import casadi as ca
        self.kw = {k: np.array(ca.DM(v)).ravel() for k, v in kw.items()}
        f, g = self.fg(self.kw['x0'], self.kw['p'])
        d = lambda v: ca.DM(v)
        return dict(x=d(self.kw['x0']), f=f, g=g, lam_x=d(self.kw['lam_x0']), lam_g=d(self.kw['lam_g0']), lam_p=ca.DM.zeros(len(self.kw['p'])))

    def stats(self):
        return dict(return_status='Solve_Succeeded', iter_count=0, t_wall_total=0.)


def problem(seed, **fix):
    rng = np.random.default_rng(seed)
    a = dict(integrator=('DISCRETE', 'ERK')[rng.integers(2)], soft_h=True, npg=int(rng.integers(0, 3)), np=int(rng.integers(0, 4)), nz=0)
    if a['integrator'] == 'ERK':
        a.update(stages=4, steps=int(rng.integers(1, 4)))
    if rng.random() < .3:
        a['soft'] = 0
    if rng.random() < .4:
        a['slackbnd'] = True
    a.update(fix)
    pr = Prob(seed, **a)
    return pr, pr.make_ocp()


def iterate(pr, rng):
    """Random iterate which the CasADi form can represent: one multiplier per two-sided hard constraint."""
    it = pr.random_iterate(rng)
    for k in range(pr.N + 1):
        s, lam = pr.st[k], it.lam[k]
        lb, ub = np.concatenate([s.lbu, s.lbx, s.lg, s.lh]), np.concatenate([s.ubu, s.ubx, s.ug, s.uh])
        for i in range(s.ni):
            if s.rev[i] < 0:
                lam[i if rng.random() < .5 else s.ni + i] = 0
            if lb[i] <= -1e10:
                lam[i] = 0
            if ub[i] >= 1e10:
                lam[s.ni + i] = 0
    return it


def obj(pr, it, flat):
    from acados_template.acados_ocp_iterate import AcadosOcpIterate, AcadosOcpFlattenedIterate
    t = dict(x=it.x, u=it.u[:pr.N], z=it.z[:pr.N], sl=it.sl, su=it.su, pi=it.pi, lam=it.lam)
    if flat:
        return AcadosOcpFlattenedIterate(**{k: np.concatenate([np.asarray(a, float) for a in v]) for k, v in t.items()})
    return AcadosOcpIterate(**{k + '_traj': [np.array(a) for a in v] for k, v in t.items()})


def change(pr, s, rng, ob):
    """New parameters, references and bounds through random interfaces, in the solver and in the reference."""
    for k in range(pr.N + 1):
        st = pr.st[k]
        if pr.np and rng.random() < .7:
            v = rng.uniform(-.5, .5, pr.np)
            if rng.random() < .5:
                s.set(k, 'p', v)
                st.p = v
            else:
                i = np.sort(rng.choice(pr.np, int(rng.integers(1, pr.np + 1)), replace=False))
                s.set_params_sparse(k, i, v[i])
                st.p = st.p.copy()
                st.p[i] = v[i]
            ob.check(np.array_equal(np.array(s.p[s.index_map['p_in_p_nlp'][k]]).ravel(), st.p), 'param', f'{pr.tag()} stage {k}')
        if pr.ck[pr.kind(k)].type in ('LINEAR_LS', 'NONLINEAR_LS') and rng.random() < .7:
            v = st.yref + rng.uniform(-.3, .3, len(st.yref))
            (s.set if rng.random() < .5 else s.cost_set)(k, 'yref', v)
            st.yref = v
            ob.check(np.array_equal(np.asarray(s.cost_get(k, 'yref')).ravel(), v), 'yref', f'{pr.tag()} stage {k}')
        for lo, up, n in (('lbx', 'ubx', st.nbx), ('lbu', 'ubu', st.nbu if k < pr.N else 0), ('lg', 'ug', st.ng),
                          ('lphi', 'uphi', st.nh) if pr.hk[pr.kind(k)].phi else ('lh', 'uh', st.nh)):
            if not n or rng.random() < .4:
                continue
            a, b = {'lphi': 'lh', 'lh': 'lh'}.get(lo, lo), {'uphi': 'uh', 'uh': 'uh'}.get(up, up)
            for nm, at in ((lo, a), (up, b)):
                v = getattr(st, at).copy()
                sh = rng.uniform(0, .3, n)
                v = np.where(np.abs(v) < 1e10, v + (sh if at[0] == 'u' else -sh), v)
                if k == 0 and lo == 'lbx' and st.nbxe:      # stays an equality
                    v = v if at[0] == 'l' else st.lbx.copy()
                if nm in ('lbx', 'ubx', 'lbu', 'ubu') and rng.random() < .5:
                    s.set(k, nm, v)
                else:
                    s.constraints_set(k, nm, v)
                setattr(st, at, v)
                got = np.array(s.constraints_get(k, nm)).ravel()
                ob.check(got.shape == v.shape and np.array_equal(got, v), 'bounds.' + nm, f'{pr.tag()} stage {k}: {got} vs {v}')
    if pr.npg and rng.random() < .7:
        pr.pgval = rng.uniform(-.5, .5, pr.npg)
        s.set_p_global_and_precompute_dependencies(pr.pgval)


def create(pr, ocp, ob, **kw):
    from acados_template import AcadosCasadiOcpSolver
    try:
        return AcadosCasadiOcpSolver(ocp, verbose=False, casadi_solver_opts={'ipopt.print_level': 0, 'print_time': False, 'ipopt.sb': 'yes', **kw.pop('opts', {})}, **kw)
    except NotImplementedError as e:
        ob.count('refused')
        raise Inconclusive(str(e)[:150])


def rows(pr, s, k):
    """(row of g, sign, offset index) description: for every stage constraint the entries of g for the lower and upper side."""
    m, st = s.index_map, pr.st[k]
    hard, lo, up = list(m['lam_gnl_in_lam_g'][k]), list(m['lam_gnl_sl_in_lam_g'][k]), list(m['lam_gnl_su_in_lam_g'][k])
    out = []
    nb = st.nbu + st.nbx
    for i in range(nb, st.ni):
        if st.rev[i] < 0:
            r = hard.pop(0)
            out.append((i, r, r))
        else:
            out.append((i, lo.pop(0), up.pop(0)))
    return out, not (hard or lo or up)


def judge(pr, s, ob, it, w, g, lbw, ubw, lbg, ubg, tag, shooting=True):
    """Constraint values and bounds of the NLP at w against the reference at the same iterate."""
    m = s.index_map
    used = 0
    for k in range(pr.N + 1):
        st = pr.st[k]
        o = pr.stage(k, it.x[k], it.u[k], sl=it.sl[k], su=it.su[k])
        if k < pr.N and shooting:
            r = m['pi_in_lam_g'][k]
            ob.close(g[r] - lbg[r], it.x[k + 1] - o.xn, 1e-9, 'dyn', f'{tag} stage {k}')
            ob.check(np.array_equal(lbg[r], ubg[r]), 'dyn.bounds', f'{tag} stage {k}')
            used += len(r)
        rr, complete = rows(pr, s, k)
        ob.check(complete, 'rows', f'{tag} stage {k}')
        low, upp = o.fun[:st.ni], o.fun[st.ni:2 * st.ni]
        for i, a, b in rr:
            if o.mask[i]:
                ob.close([lbg[a] - g[a]], [low[i]], 1e-9, 'con.lower', f'{tag} stage {k} row {i}')
            else:
                ob.check(lbg[a] <= -1e10, 'con.free', f'{tag} stage {k} row {i}')
            if o.mask[st.ni + i]:
                ob.close([g[b] - ubg[b]], [upp[i]], 1e-9, 'con.upper', f'{tag} stage {k} row {i}')
            else:
                ob.check(ubg[b] >= 1e10, 'con.free', f'{tag} stage {k} row {i}')
            if a != b:
                ob.check(ubg[a] >= 1e10 and lbg[b] <= -1e10, 'con.split', f'{tag} stage {k} row {i}')
            used += 1 + (a != b)
        L, U = np.full(st.nx, -1e10), np.full(st.nx, 1e10)
        if shooting:
            L[st.idxbx], U[st.idxbx] = st.lbx, st.ubx
            q = m['x_in_w'][k]
            ob.check(np.array_equal(np.clip(lbw[q], -1e10, None), L) and np.array_equal(np.clip(ubw[q], None, 1e10), U), 'bounds.x', f'{tag} stage {k}: {lbw[q]} {L}')
        if k < pr.N:
            L, U = np.full(st.nu, -1e10), np.full(st.nu, 1e10)
            L[st.idxbu], U[st.idxbu] = st.lbu, st.ubu
            q = m['u_in_w'][k]
            ob.check(np.array_equal(np.clip(lbw[q], -1e10, None), L) and np.array_equal(np.clip(ubw[q], None, 1e10), U), 'bounds.u', f'{tag} stage {k}: {lbw[q]} {L}')
        for nm, b in (('sl', st.lls), ('su', st.lus)):
            q = m[nm + '_h_in_w'][k]
            ob.check(len(q) == st.ns and np.array_equal(lbw[q], b) and np.all(ubw[q] >= 1e10), 'bounds.' + nm, f'{tag} stage {k}: {lbw[q]} {b}')
    ob.check(used == len(g), 'rows.total', f'{tag} {used} {len(g)}')


def nlp(case, ob):
    import casadi as ca
    rng = np.random.default_rng(case['s'] + 77)
    pr, ocp = problem(case['s'], **case.get('fix', {}))
    s = create(pr, ocp, ob)
    tag = pr.tag()
    rec = s.casadi_solver = Recorder(s.casadi_nlp)
    n = s.casadi_nlp
    L = ca.Function('L', [n['x'], n['p']], [ca.gradient(n['f'], n['x']), ca.jacobian(n['g'], n['x'])])
    # defaults
    d = ocp.create_default_initial_iterate()
    s.solve()
    for f in ('x', 'u', 'sl', 'su', 'pi'):
        for k in range(pr.N + (f not in ('u', 'pi'))):
            ob.close(s.get(k, f), getattr(d, f + '_traj')[k], 0., 'default.' + f, f'{tag} stage {k}')
    for rep in range(3):
        if rep:
            change(pr, s, rng, ob)
        it = iterate(pr, rng)
        how = int(rng.integers(3))
        if how == 0:
            for k in range(pr.N + 1):
                for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
                    if k < pr.N or f not in ('u', 'pi'):
                        s.set(k, f, getattr(it, f)[k])
        else:
            s.set_iterate(obj(pr, it, how == 2))
        s.solve()
        k_ = rec.kw
        w, p = k_['x0'], k_['p']
        f, g = [np.array(a).ravel() for a in rec.fg(w, p)]
        judge(pr, s, ob, it, w, g, k_['lbx'], k_['ubx'], k_['lbg'], k_['ubg'], tag)
        r = pr.kkt(it)
        ob.close(f, [r.cost], 1e-9, 'cost', tag)
        ob.close([s.get_cost()], [r.cost], 1e-9, 'get_cost', tag)
        gf, J = [np.array(a) for a in L(w, p)]
        grad = gf.ravel() + J.T @ k_['lam_g0'] + k_['lam_x0']
        for k in range(pr.N + 1):
            st = pr.st[k]
            q = (s.index_map['u_in_w'][k] if k < pr.N else []) + s.index_map['x_in_w'][k] + s.index_map['sl_h_in_w'][k] + s.index_map['su_h_in_w'][k]
            ob.close(grad[q], r.stat[k], 1e-9, 'lagrangian', f'{tag} stage {k}')
        # everything that was set is returned
        for f in ('x', 'u', 'sl', 'su', 'pi', 'lam'):
            want = [getattr(it, f)[k] for k in range(pr.N + (f not in ('u', 'pi')))]
            for k, v in enumerate(want):
                ob.close(s.get(k, f), v, 0., 'get.' + f, f'{tag} stage {k} how={how}')
            ob.close(s.get_flat(f), np.concatenate(want) if want else np.zeros(0), 0., 'get_flat.' + f, tag)
        ob.close(s.get_flat('p'), np.concatenate([st.p for st in pr.st]), 0., 'get_flat.p', tag)
        ob.close(s.get_flat('p_global'), pr.pgval, 0., 'get_flat.p_global', tag)
        for k in range(pr.N + 1):
            ob.close(s.get(k, 'p'), pr.st[k].p, 0., 'get.p', f'{tag} stage {k}')
        ci, fi = s.get_iterate(), s.get_flat_iterate()
        ob.check(all(np.array_equal(np.asarray(a).ravel(), np.asarray(b).ravel()) for f in ('x', 'u', 'pi', 'lam', 'sl', 'su')
                     for a, b in zip(getattr(ci, f + '_traj'), getattr(it, f))), 'get_iterate', tag)
        ob.check(all(np.array_equal(getattr(fi, f), np.concatenate(getattr(it, f)[:pr.N + (f not in ('u', 'pi'))])) for f in ('x', 'u', 'pi', 'lam', 'sl', 'su')), 'get_flat_iterate', tag)
        for k in range(pr.N + 1):
            st = pr.st[k]
            for f in ('zl', 'zu', 'Zl', 'Zu'):
                if st.ns:
                    ob.close(s.cost_get(k, f), getattr(st, f), 0., 'cost_get.' + f, f'{tag} stage {k}')
            if pr.ck[pr.kind(k)].type in ('LINEAR_LS', 'NONLINEAR_LS'):
                ob.close(s.cost_get(k, 'W'), st.W, 0., 'cost_get.W', f'{tag} stage {k}')
        ob.count('points')
    ob.state(tag)
    ob.sample(problem=tag, variables=len(w), constraints=len(g))


def shooting(case, ob):
    """Single shooting: the same functions with the states eliminated."""
    rng = np.random.default_rng(case['s'] + 78)
    pr, ocp = problem(case['s'], x0='fixed', bx=False)
    s = create(pr, ocp, ob, use_single_shooting=True)
    tag = pr.tag() + ' single shooting'
    rec = s.casadi_solver = Recorder(s.casadi_nlp)
    for rep in range(3):
        it = iterate(pr, rng)
        for k in range(pr.N + 1):
            if pr.np and rep:
                v = rng.uniform(-.5, .5, pr.np)
                s.set(k, 'p', v)
                pr.st[k].p = v
        if pr.npg and rep:
            pr.pgval = rng.uniform(-.5, .5, pr.npg)
            s.set_p_global_and_precompute_dependencies(pr.pgval)
        it.x[0] = pr.x0bar.copy()
        for k in range(pr.N):
            it.x[k + 1] = pr.step(k, it.x[k], it.u[k])[0]
        for k in range(pr.N + 1):
            for f in ('x', 'u', 'sl', 'su'):
                if k < pr.N or f != 'u':
                    s.set(k, f, getattr(it, f)[k])
        s.solve()
        k_ = rec.kw
        f, g = [np.array(a).ravel() for a in rec.fg(k_['x0'], k_['p'])]
        if not np.all(np.isfinite(f)) or max(np.max(np.abs(x)) for x in it.x) > 1e3:
            continue
        judge(pr, s, ob, it, k_['x0'], g, k_['lbx'], k_['ubx'], k_['lbg'], k_['ubg'], tag, False)
        ob.close(f, [pr.cost(it)], 1e-8, 'cost', tag)
        for k in range(pr.N + 1):
            ob.close(s.get(k, 'x'), it.x[k], 1e-9, 'get.x', f'{tag} stage {k}')
            if k < pr.N:
                ob.close(s.get(k, 'u'), it.u[k], 0., 'get.u', f'{tag} stage {k}')
        ob.count('points')
    ob.state(tag)


def hess(case, ob):
    """The custom Hessian is the Hessian approximation of the compiled solver."""
    import casadi as ca
    from p03 import hessian
    rng = np.random.default_rng(case['s'] + 79)
    ct = ('LINEAR_LS', 'NONLINEAR_LS')[rng.integers(2)]
    pr, ocp = problem(case['s'], cost=ct, cost_0=ct, cost_e=ct)
    so = ocp.solver_options
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact']:
        for nm in ('dyn', 'constr'):
            if rng.random() < .3:
                setattr(so, 'exact_hess_' + nm, 0)
                opt[nm] = 0
        opt['constr'] = so.exact_hess_constr
    s = create(pr, ocp, ob, use_acados_hessian=True)
    tag = f'{pr.tag()} {ct} {opt}'
    rec = s.casadi_solver = Recorder(s.casadi_nlp)
    for rep in range(3):
        if rep:
            change(pr, s, rng, ob)
        it = iterate(pr, rng)
        s.set_iterate(obj(pr, it, False))
        s.solve()
        k_ = rec.kw
        H = np.array(s.nlp_hess_l_custom(k_['x0'], k_['p'], 1., k_['lam_g0']))
        ob.check(np.array_equal(H, np.triu(H)), 'hess.triu', tag)
        H = np.triu(H) + np.triu(H, 1).T
        R = np.zeros(H.shape)
        for k in range(pr.N + 1):
            st = pr.st[k]
            o = pr.stage(k, it.x[k], it.u[k], it.pi[k] if k < pr.N else None, it.lam[k], it.sl[k], it.su[k])
            q = (s.index_map['u_in_w'][k] if k < pr.N else []) + s.index_map['x_in_w'][k]
            R[np.ix_(q, q)] = hessian(pr, o, k, opt, 0.)
            for nm, Z in (('sl', st.Zl), ('su', st.Zu)):
                q = s.index_map[nm + '_h_in_w'][k]
                R[q, q] = st.scal * Z
        ob.close(H, R, 1e-8, 'hess', tag)
        ob.count('hessians')
    ob.state(tag)


def refuse(case, ob):
    """Formulations the CasADi form does not have are refused, not replaced by another problem."""
    from acados_template import AcadosCasadiOcpSolver
    rng = np.random.default_rng(case['s'] + 81)
    feats = dict(steps=dict(integrator='ERK', stages=4), disc=dict(integrator='ERK', stages=4), bx=dict(soft=2, soft_h=False, bx=True, hard_h=True), bu=dict(soft=2, soft_h=False, bu=True),
                 g=dict(soft=2, soft_h=False, ng=2), phi=dict(constr='BGP', soft=2, soft_h=False, nh=2), rev=dict(idxs_rev=True, soft=1, soft_h=False), z=dict(nz=1, integrator='IRK'), irk=dict(integrator='IRK'),
                 stage=dict(integrator='ERK', stages=2), shootx=dict(bx=True, x0='fixed', soft=0), shoot0=dict(x0='free', soft=0))
    for nm, fix in feats.items():
        pr, ocp = problem(case['s'], **{'slackbnd': False, **fix})
        so = ocp.solver_options
        if nm == 'steps':
            so.sim_method_num_steps = np.arange(pr.N) + 1
            if pr.N < 2:
                continue
        if nm == 'disc':
            so.cost_discretization = 'INTEGRATOR'
            if any(c.type not in ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR') for k, c in pr.ck.items() if k != 'e'):
                continue
        soft = {'bx': [len(o.sbx) for o in pr.pd.values()], 'bu': [len(o.sbu) for o in pr.pd.values()], 'g': [len(o.sg) for o in pr.pd.values()],
                'phi': [len(o.sh) if pr.hk[k].phi else 0 for k, o in pr.pd.items()], 'rev': [o.ns for o in pr.pd.values()]}
        if nm in soft and not any(soft[nm]) or nm == 'shootx' and not len(pr.pd['p'].idxbx) + len(pr.pd['e'].idxbx):
            continue
        try:
            AcadosCasadiOcpSolver(ocp, verbose=False, use_single_shooting=nm.startswith('shoot'))
        except Exception as e:
            ob.count('refused.' + type(e).__name__)
            continue
        ob.check(False, 'refuse.' + nm, f'{pr.tag()} was accepted')
    ob.state(('refuse', case['s'] % 1000))


def solve(case, ob):
    rng = np.random.default_rng(case['s'] + 80)
    pr, ocp = problem(case['s'])
    if case['compiled']:
        ocp.solver_options.nlp_solver_type = 'SQP'
    s = create(pr, ocp, ob, opts={'ipopt.tol': 1e-9, 'ipopt.bound_relax_factor': 0., 'ipopt.max_iter': 300, 'ipopt.constr_viol_tol': 1e-9,
                                  'ipopt.acceptable_iter': 0, 'ipopt.honor_original_bounds': 'yes'})
    tag = pr.tag()
    c = make_solver(ocp) if case['compiled'] else None
    done = 0
    for rep in range(3):
        if rep and not c:
            change(pr, s, rng, ob)
        elif rep and pr.f['x0'] == 'fixed':
            x0 = pr.x0bar + rng.uniform(-.2, .2, pr.nx)
            for q in ('lbx', 'ubx'):
                setattr(pr.st[0], q, x0.copy())
                c.constraints_set(0, q, x0)
            u = s.solve_for_x0(x0)
            ob.check(np.array_equal(u, s.get(0, 'u')), 'solve_for_x0', tag)
        st = s.solve()
        if st != 0:
            ob.count('not_solved')
            continue
        it = pr.get_iterate(s)
        r = pr.kkt(it)
        sc = 1 + max([np.max(np.abs(a)) for a in it.lam + it.pi if len(a)] + [0.])
        ob.check(np.max(r.norms[:2]) <= 2e-5 * sc and r.norms[2] <= 2e-5 and r.norms[3] <= 2e-5 * sc, 'kkt', f'{tag}: KKT residuals {r.norms} of the mapped back solution, scale {sc:.1e}')
        ob.close([s.get_cost()], [r.cost], 1e-8, 'cost', tag)
        done += 1
        if c:
            c.set_iterate(s.get_iterate())
            res = c.get_residuals(recompute=True)
            ob.check(np.max(res) <= 2e-5 * sc, 'compiled', f'{tag}: residuals of the compiled solver {res}')
            ob.close([c.get_cost()], [s.get_cost()], 1e-8, 'compiled.cost', tag)
            back = c.get_iterate()
            for f in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
                for k, v in enumerate(getattr(back, f + '_traj')):
                    if f == 'lam':
                        v = v * np.where(pr.kkt(it).st[k].mask > 0, 1., 0.)
                    ob.close(v, getattr(it, f)[k] * (r.st[k].mask if f == 'lam' else 1.), 1e-12, 'compiled.' + f, f'{tag} stage {k}')
    if not done:
        raise Inconclusive('IPOPT did not solve the problem')
    ob.count('solutions', done)
    ob.state(tag)


def cases(tier, seed):
    t = tier == 'thorough'
    out = [dict(id=f'nlp{i}', s=seed * 10000 + i, fam='nlp') for i in range(600 if t else 90)]
    out += [dict(id=f'shoot{i}', s=seed * 10000 + 1000 + i, fam='shoot') for i in range(100 if t else 16)]
    out += [dict(id=f'hess{i}', s=seed * 10000 + 2000 + i, fam='hess') for i in range(200 if t else 30)]
    out += [dict(id=f'solve{i}', s=seed * 10000 + 3000 + i, fam='solve', compiled=i % 3 == 0) for i in range(200 if t else 36)]
    out += [dict(id=f'refuse{i}', s=seed * 10000 + 4000 + i, fam='refuse') for i in range(20 if t else 6)]
    return out


def run(case, ob):
    dict(nlp=nlp, shoot=shooting, hess=hess, solve=solve, refuse=refuse)[case['fam']](case, ob)
