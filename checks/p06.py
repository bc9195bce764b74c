"""For the random models of P05 all sensitivities AcadosSimSolver returns (S_forw, Sx, Su, S_adj for
random seeds, S_hess, S_algebraic, S_p) are compared with the CasADi derivatives of an independent
implementation of the same scheme, over call histories in which inputs, parameters, sampling time,
seeds and the sensitivity switches change; adjoint and forward results are checked against each
other. The derivatives inside an OCP are covered by P03."""
import numpy as np
import simref

PROPERTY = 'P06'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = []
RULE = 'distinct (integrator, scheme, stages, steps, dims, requested sensitivities) compared'

FAM = [('erk', 40), ('irk', 56), ('dae', 40), ('gnsf', 24), ('time', 20), ('timez', 8)]


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=6000011 * seed + 23 * i + 37 * ord(nm[0]), fam=nm))
    return out


def run(case, ob):
    rng = np.random.default_rng(case['seed'] + 1)
    fam = case['fam']
    it = dict(erk='ERK', gnsf='GNSF').get(fam, 'IRK')
    fix = {}
    if fam in ('dae', 'timez'):
        fix['nz'] = int(rng.integers(1, 3))
    if fam.startswith('time'):
        fix['time'] = True
    fix['stages'] = int(rng.integers(1, 5))
    pr = simref.draw(case['seed'], rng, it, steps=int(rng.integers(1, 4)), **fix)
    nx, nu = pr.nx, pr.nu
    hess = it in ('ERK', 'IRK') and rng.random() < 0.6
    sp = it in ('ERK', 'IRK') and pr.np > 0 and rng.random() < 0.6
    alg = pr.nz > 0 and rng.random() < 0.8
    jr = int(rng.integers(2)) if it != 'ERK' else 0
    T = float(rng.uniform(0.04, max(0.06, min(0.7, pr.tcap))))
    sim = simref.make_sim(pr, T, sens=True, hess=hess, sens_p=sp, alg=alg, jac_reuse=jr)
    m = simref.Map(pr)
    s = simref.solver(sim)
    p, t0 = pr.pval.copy(), 0.0
    on = dict(sens_forw=True, sens_adj=True, sens_hess=hess)
    tag = '%s stages %d steps %d %s nx %d nu %d nz %d np %d jac_reuse %d' % (it, pr.f['stages'], pr.f['steps'], pr.f['colloc'], nx, nu, pr.nz, pr.np, jr)
    seed = None
    for rep in range(6):
        x, u = rng.uniform(-.8, .8, nx), rng.uniform(-.8, .8, nu)
        if pr.np and rng.random() < 0.4:
            p = rng.uniform(-.6, .6, pr.np)
            s.set('p', p)
        if it != 'GNSF' and rng.random() < 0.3:   # the matrices of GNSF are precomputed for one T; changing it is refused
            T = float(rng.uniform(0.04, max(0.06, min(0.7, pr.tcap))))
            s.set('T', T)
        if fam.startswith('time'):
            t0 = float(rng.uniform(-1, 3))
            s.set('t0', t0)
        if seed is None or rng.random() < 0.7:
            seed = rng.normal(size=nx)
            s.set('seed_adj', seed)
        if rng.random() < 0.5:
            for k in on:
                if k != 'sens_hess' or hess:
                    on[k] = bool(rng.random() < 0.6)
            if on['sens_hess']:
                on['sens_forw'] = on['sens_adj'] = True
            for k, v in on.items():
                if k != 'sens_hess' or hess:
                    s.options_set(k, v)
        s.set('x', x)
        s.set('u', u)
        st = s.solve()
        ob.check(st == 0, 'status', 'status %s for %s' % (st, tag))
        xn, z, S, adj, Sz, Sp = m.der(x, u, p, T, t0, seed)
        t = 'call %d %s %s' % (rep, tag, on)
        ob.close(s.get('x'), xn.ravel(), 1e-9, 'x_next', 'x_next: ' + t)
        if on['sens_forw']:
            ob.close(s.get('S_forw'), S, 1e-8, 'S_forw', 'S_forw: ' + t)
            ob.close(s.get('Sx'), S[:, :nx], 1e-8, 'Sx', 'Sx: ' + t)
            ob.close(s.get('Su'), S[:, nx:], 1e-8, 'Su', 'Su: ' + t)
        if on['sens_adj']:
            ob.close(s.get('S_adj'), adj.ravel(), 1e-8, 'S_adj', 'S_adj: ' + t)
        if on['sens_forw'] and on['sens_adj']:
            ob.close(s.get('S_adj'), s.get('S_forw').T @ seed, 1e-8, 'adj_forw', 'adjoint identity: ' + t)
        if on['sens_hess']:
            ob.close(s.get('S_hess'), m.hess(x, u, p, T, t0, seed), 1e-7, 'S_hess', 'S_hess: ' + t)
        if pr.nz:
            ob.close(s.get('z'), z.ravel(), 1e-8, 'z', 'z: ' + t)
        if alg and on['sens_forw']:
            ob.close(s.get('S_algebraic'), Sz, 1e-8, 'S_algebraic', 'S_algebraic: ' + t)
        if sp and on['sens_forw']:
            ob.close(s.get('S_p'), Sp, 1e-8, 'S_p', 'S_p: ' + t)
        ob.count('calls')
    ob.state(it, pr.f['stages'], pr.f['steps'], pr.f['colloc'], nx, pr.nz, hess, sp, alg, jr)
