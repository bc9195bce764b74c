"""Reported cost and KKT residuals equal an independent evaluation at any iterate."""
import numpy as np
from prob import Prob, make_solver

PROPERTY = 'P02'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = []
RULE = 'distinct formulation classes in which cost and residuals were compared at random iterates'

FAM = [('gen', {}, 90), ('pg', dict(npg=2), 14), ('z', dict(integrator='IRK', nz=1), 10), ('z2', dict(integrator='IRK', nz=2, hess='GAUSS_NEWTON'), 6),
       ('rev', dict(idxs_rev=True, soft=2), 16), ('sb', dict(slackbnd=True, soft=2), 14),
       ('revb', dict(slackbnd=True, idxs_rev=True, soft=2), 8), ('t', dict(time=True, integrator='IRK', cost='NONLINEAR_LS', cost_0='same'), 8)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=1000003 * seed + i, fix=fix))
    return out


def run(case, ob):
    pr = Prob(case['seed'], **case.get('fix', {}))
    ocp = pr.make_ocp()
    s = make_solver(ocp)
    rng = np.random.default_rng(case['seed'] + 7)
    for rep in range(3):
        it = pr.random_iterate(rng)
        pr.set_iterate(s, it)
        ref = pr.kkt(it)
        got = s.get_residuals(recompute=True)
        for i, nm in enumerate(('stat', 'eq', 'ineq', 'comp')):
            ob.close(got[i], ref.norms[i], 1e-8, 'res_' + nm, 'res_%s: %s' % (nm, pr.tag()))
        if not pr.nz:
            ob.close(s.get_cost(), ref.cost, 1e-9, 'cost', 'cost: %s' % pr.tag())
        ob.count('iterates')
    ob.state(pr.tag())
