"""Random explicit, implicit and differential-algebraic models are simulated with AcadosSimSolver
(ERK, IRK, GNSF; all stage counts, step counts, collocation families; built directly or from an OCP)
through random call histories (changing state, input, parameters, sampling time, start time, initial
guesses for xdot and z, sensitivity options on/off). Each result is compared with an independent
implementation of the very scheme (collocation tableaus built from Legendre polynomials and a CasADi
Newton rootfinder; classic Runge-Kutta tableaus). Further oracles: cross-integrator comparison on the
same model with fine steps against CVODES/IDAS, and the observed order of convergence of each scheme.
The dynamics inside an OCP (including the lifted IRK at convergence, with varying stages/steps per
interval) are compared through the equality residual."""
import numpy as np
import casadi as ca
import simref
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P05'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['implicit schemes are run with a tight Newton tolerance; with few Newton iterations acados is documented to be approximate']
RULE = 'distinct (integrator, scheme, stages, steps, dims, options) simulated and compared'

FAM = [('erk', 40), ('irk', 60), ('dae', 30), ('gnsf', 20), ('expl', 8), ('time', 8), ('order', 24), ('ocp', 24), ('lifted', 14), ('fromocp', 12)]


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=5000011 * seed + 19 * i + 31 * ord(nm[0]) + ord(nm[1]), fam=nm))
    return out


def run(case, ob):
    rng = np.random.default_rng(case['seed'] + 1)
    globals()['run_' + dict(erk='sim', irk='sim', dae='sim', gnsf='sim', expl='sim', time='sim').get(case['fam'], case['fam'])](case, ob, rng)


def run_sim(case, ob, rng):
    fam = case['fam']
    fix = {}
    it = dict(erk='ERK', gnsf='GNSF').get(fam, 'IRK')
    if fam == 'dae':
        fix['nz'] = int(rng.integers(1, 3))
    if fam == 'time':
        fix['time'] = True
    if fam == 'erk':
        fix['stages'] = int(rng.integers(1, 5))
    if fam == 'irk':
        fix['stages'] = int(rng.integers(1, 9))
    pr = simref.draw(case['seed'], rng, it, steps=int(rng.integers(1, 5)), **fix)
    if fam == 'expl':
        from prob import erk_function
        pr.f['colloc'] = 'EXPLICIT_RUNGE_KUTTA'
        pr.f['stages'] = int(rng.integers(1, 5))
        fe = ca.Function('fe', [pr.x, pr.u, pr.p, pr.xdot], [pr.f_impl])
        mass = ca.Function('ma', [pr.x, pr.u, pr.p], [ca.jacobian(pr.f_impl, pr.xdot)])
        pr.dyn = erk_function(lambda x, u, p, t: -ca.solve(mass(x, u, p), fe(x, u, p, ca.MX.zeros(pr.nx))), pr.nx, pr.nu, pr.np, pr.f['stages'], pr.f['steps'])
    T = float(rng.uniform(0.04, max(0.06, min(0.8, pr.tcap))))
    jr = int(rng.integers(2)) if it != 'ERK' else 0
    sens = bool(rng.integers(2))
    sim = simref.make_sim(pr, T, sens=sens, jac_reuse=jr)
    m = simref.Map(pr)
    s = simref.solver(sim)
    p, t0 = pr.pval.copy(), 0.0
    tag = '%s stages %d steps %d %s nx %d nu %d nz %d jac_reuse %d' % (it, pr.f['stages'], pr.f['steps'], pr.f['colloc'], pr.nx, pr.nu, pr.nz, jr)
    for rep in range(8):
        x, u = rng.uniform(-.8, .8, pr.nx), rng.uniform(-.8, .8, pr.nu)
        if pr.np and rng.random() < 0.4:
            p = rng.uniform(-.6, .6, pr.np)
            s.set('p', p)
        if it != 'GNSF' and rng.random() < 0.3:   # the matrices of GNSF are precomputed for one T; changing it is refused
            T = float(rng.uniform(0.04, max(0.06, min(0.8, pr.tcap))))
            s.set('T', T)
        if fam == 'time' and rng.random() < 0.6:
            t0 = float(rng.uniform(-1, 3))
            s.set('t0', t0)
        if sens and rng.random() < 0.4:
            s.options_set(str(rng.choice(['sens_forw', 'sens_adj'])), bool(rng.integers(2)))
        kw = {}
        if it == 'IRK' and rng.random() < 0.5:
            kw['xdot'] = rng.normal(size=pr.nx) * 0.3
            if pr.nz:
                kw['z'] = rng.normal(size=pr.nz) * 0.3
        want, z = m.val(x, u, p, T, t0)
        if rng.random() < 0.5:
            got = s.simulate(x=x, u=u, **kw)
        else:
            s.set('x', x)
            s.set('u', u)
            for k, v in kw.items():
                s.set(k, v)
            st = s.solve()
            ob.check(st == 0, 'status', 'status %s for %s' % (st, tag))
            got = s.get('x')
        ob.close(got, want, 1e-9, 'x_next', 'x_next: call %d %s' % (rep, tag))
        if pr.nz:
            ob.close(s.get('z'), z, 1e-8, 'z', 'z: call %d %s' % (rep, tag))
        ob.close(s.get('u'), u, 0, 'u_back', 'u') if False else None
        ob.count('simulations')
    ob.state(it, pr.f['stages'], pr.f['steps'], pr.f['colloc'], pr.nx, pr.nz, jr, sens)


def run_order(case, ob, rng):
    """observed order of convergence against CVODES/IDAS and cross-integrator agreement"""
    it = str(rng.choice(['ERK', 'IRK', 'IRK', 'GNSF']))
    st = int(rng.integers(1, 5)) if it == 'ERK' else int(rng.integers(1, 4))
    nz = int(rng.integers(0, 2)) if it == 'IRK' else 0
    pr = simref.draw(case['seed'], rng, it, stages=st, steps=1, nz=nz)
    x, u = rng.uniform(-.8, .8, pr.nx), rng.uniform(-.8, .8, pr.nu)
    T = 0.8
    if it == 'ERK':
        prob = dict(x=pr.x, p=ca.vertcat(pr.u, pr.p), ode=pr.f_expl)
    else:
        E = ca.jacobian(pr.f_impl[:pr.nx], pr.xdot)
        r0 = ca.substitute(pr.f_impl, pr.xdot, ca.DM.zeros(pr.nx)) if pr.f['sym'] == 'SX' else None
        if r0 is None:
            f = ca.Function('f', [pr.x, pr.xdot, pr.u, pr.z, pr.p], [pr.f_impl])
            r0 = f(pr.x, ca.MX.zeros(pr.nx), pr.u, pr.z, pr.p)
        prob = dict(x=pr.x, p=ca.vertcat(pr.u, pr.p), ode=-ca.solve(E, r0[:pr.nx]))
        if pr.nz:
            prob.update(z=pr.z, alg=r0[pr.nx:])
    I = ca.integrator('I', 'idas' if pr.nz else 'cvodes', prob, 0, T, dict(abstol=1e-13, reltol=1e-13, max_num_steps=100000))
    true = np.array(I(x0=x, p=np.concatenate([u, pr.pval]))['xf']).ravel()
    order = st if it == 'ERK' else (2 * st if pr.f['colloc'] == 'GAUSS_LEGENDRE' else 2 * st - 1)
    if it != 'ERK' and nz:
        # collocation applied to index-1 DAEs keeps the order of x for both families
        pass
    err = []
    steps = (4, 8, 16) if order < 4 else (2, 4, 8)
    for n in steps:
        pr.f['steps'] = n
        sim = simref.make_sim(pr, T, sens=False, name='o%d' % n)
        s = simref.solver(sim)
        err.append(float(np.max(np.abs(s.simulate(x=x, u=u) - true))))
        ob.count('simulations')
    obs = [np.log2(err[i] / max(err[i + 1], 1e-16)) for i in range(2)]
    floor = 2e-11
    ob.check(err[-1] < 0.05, 'convergence', lambda: 'errors %s of %s with %d stages do not converge' % (err, it, st))
    if err[-1] > floor * 50:
        ob.check(max(obs) > order - 0.7, 'order', lambda: '%s %s with %d stages: observed order %s, expected %d (errors %s)' % (it, pr.f['colloc'], st, obs, order, err))
        ob.state('order', it, st, pr.f['colloc'] if it != 'ERK' else '', nz)
    else:
        ob.check(err[-1] < 1e-8, 'accuracy', lambda: 'errors %s' % err)
        ob.state('accuracy', it, st, nz)


def run_ocp(case, ob, rng):
    """stages and steps varying over the horizon of an OCP"""
    it = str(rng.choice(['ERK', 'IRK', 'IRK']))
    nz = int(rng.integers(0, 2)) if it == 'IRK' else 0
    N = 4
    fix = dict(integrator=it, nz=nz, N=N, hess='GAUSS_NEWTON')
    pr = Prob(case['seed'], **fix)
    nst = rng.integers(1, 5, N)
    nsp = rng.integers(1, 4, N)
    jr = rng.integers(0, 2, N)
    from prob import erk_function, irk_function
    f0 = ca.Function('f', [pr.x, pr.xdot, pr.u, pr.z, pr.p, pr.pg], [pr.f_impl])
    fe = ca.Function('f', [pr.x, pr.u, pr.p, pr.pg], [pr.f_expl]) if it == 'ERK' else None
    maps = []
    for k in range(N):
        if it == 'ERK':
            maps.append(erk_function(lambda x, u, p, t: fe(x, u, p[:pr.np], p[pr.np:]), pr.nx, pr.nu, pr.np, int(nst[k]), int(nsp[k])))
        else:
            maps.append(irk_function(lambda x, xd, u, z, p, t: f0(x, xd, u, z, p[:pr.np], p[pr.np:]), pr.nx, pr.nu, nz, pr.np, int(nst[k]), int(nsp[k]), pr.f['colloc']))
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.sim_method_num_stages = nst
    so.sim_method_num_steps = nsp
    so.sim_method_jac_reuse = jr
    so.nlp_solver_type = 'SQP_RTI'
    s = make_solver(ocp)
    for rep in range(2):
        itr = pr.random_iterate(rng)
        pr.set_iterate(s, itr)
        s.get_residuals(recompute=True)
        s.solve()
        for k in range(N):
            P, T = pr.pp(k), pr.dt[k]
            xn = np.array(maps[k](itr.x[k], itr.u[k], P, T, 0.0)[0]).ravel()
            ob.close(s.get_from_qp_in(k, 'b').ravel() + itr.x[k + 1], xn, 1e-9, 'ocp_x', 'b + x: interval %d of %s stages %s steps %s jac_reuse %s nz %d' % (k, it, nst, nsp, jr, nz))
            ob.count('simulations')
    ob.state('ocp', it, tuple(nst), tuple(nsp), nz)


def run_lifted(case, ob, rng):
    """lifted IRK: at convergence of the SQP method the collocation equations hold"""
    pr = Prob(case['seed'], integrator='LIFTED_IRK', hess='GAUSS_NEWTON', nz=0, x0='fixed', stages=int(rng.integers(1, 5)), soft=2, bx=False, bu=False, ng=0)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP'
    so.nlp_solver_max_iter = 150
    so.tol = 1e-8
    so.levenberg_marquardt = 0.3
    s = make_solver(ocp)
    n = 0
    for rep in range(2):
        if rep:
            x0 = rng.uniform(-.6, .6, pr.nx)
            s.set(0, 'lbx', x0)
            s.set(0, 'ubx', x0)
            if pr.np:
                v = rng.uniform(-.5, .5, pr.np)
                for k in range(pr.N + 1):
                    s.set(k, 'p', v)
                    pr.st[k].p = v
        st = s.solve()
        ob.count('lifted_status_%d' % st)
        if st != 0:
            continue
        n += 1
        for k in range(pr.N):
            x, u, xn = s.get(k, 'x'), s.get(k, 'u'), s.get(k + 1, 'x')
            ob.close(xn, pr.step(k, x, u)[0], 3e-6, 'lifted', 'x_next of lifted IRK at convergence: interval %d stages %d steps %d %s' % (k, pr.f['stages'], pr.f['steps'], pr.f['colloc']))
            J = np.array(pr.dyn_jac(np.concatenate([u, x]), pr.pp(k), pr.st[k].dt, 0.0)[2])
            ob.close(s.get_from_qp_in(k, 'A'), J[:, pr.nu:], 1e-5, 'lifted_A', 'A of lifted IRK: interval %d' % k)
            ob.close(s.get_from_qp_in(k, 'B'), J[:, :pr.nu], 1e-5, 'lifted_B', 'B of lifted IRK: interval %d' % k)
            ob.count('simulations')
    if not n:
        raise Inconclusive('SQP with lifted IRK did not converge')
    ob.state('lifted', pr.f['stages'], pr.f['steps'], pr.f['colloc'])


def run_fromocp(case, ob, rng):
    from acados_template import AcadosSim, AcadosSimSolver
    it = str(rng.choice(['ERK', 'IRK', 'GNSF']))
    npg = int(rng.integers(0, 3)) if it != 'GNSF' else 0
    pr = Prob(case['seed'], integrator=it, npg=npg, nz=int(rng.integers(0, 2)) if it == 'IRK' else 0, hess='GAUSS_NEWTON')
    sim = AcadosSim.from_ocp(pr.make_ocp('fo'))
    sim.model.name = 'fosim'
    s = AcadosSimSolver(sim, verbose=False)
    m = simref.Map(pr)
    p = np.concatenate([pr.pval, pr.pgval])
    T = float(pr.dt[0])
    for rep in range(5):
        x, u = rng.uniform(-.8, .8, pr.nx), rng.uniform(-.8, .8, pr.nu)
        if rep and p.size:
            p = rng.uniform(-.6, .6, p.size)
            s.set('p', p)
        got = s.simulate(x=x, u=u)
        ob.close(got, m.val(x, u, p, T)[0], 1e-9, 'from_ocp', 'x_next: from_ocp %s p_global %d dt %s' % (it, npg, pr.dt))
        ob.count('simulations')
    ob.state('from_ocp', it, npg, pr.nz)
