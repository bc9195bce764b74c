"""AcadosSim problems drawn from the same models as prob.Prob and their reference maps."""
import numpy as np
import casadi as ca
from prob import Prob, irk_function, erk_function, collocation_tableau, erk_tableau


def draw(seed, rng, it, **fix):
    f = dict(integrator=it, N=1, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, hess='GAUSS_NEWTON', cost='LINEAR_LS', cost_0='same', cost_e='LINEAR_LS')
    f.update(fix)
    if it in ('IRK', 'GNSF') and 'stages' not in f:
        f['stages'] = int(rng.integers(1, 6))
    return Prob(seed, **f)


def make_sim(pr, T, sens=True, hess=False, sens_p=False, alg=False, name='s', jac_reuse=0):
    from acados_template import AcadosSim
    sim = AcadosSim()
    m = sim.model
    m.name = name
    m.x, m.u = pr.x, pr.u
    if pr.np:
        m.p = pr.p
        sim.parameter_values = pr.pval.copy()
    if pr.nz:
        m.z = pr.z
    if pr.f['time']:
        m.t = pr.t
    it = pr.f['integrator']
    if it == 'ERK':
        m.f_expl_expr = pr.f_expl
    else:
        m.xdot = pr.xdot
        m.f_impl_expr = pr.f_impl
    so = sim.solver_options
    so.T = T
    so.integrator_type = it
    so.num_stages = pr.f['stages']
    so.num_steps = pr.f['steps']
    so.collocation_type = pr.f['colloc']
    so.newton_iter = 60
    so.newton_tol = 1e-13
    so.sens_forw = sens
    so.sens_adj = sens
    so.sens_hess = hess
    so.sens_algebraic = bool(alg and pr.nz)
    so.output_z = True
    so.sim_method_jac_reuse = jac_reuse
    if sens_p:
        sim.code_gen_options.sens_forw_p = True
    return sim


def solver(sim):
    from acados_template import AcadosSimSolver
    return AcadosSimSolver(sim, verbose=False)


class Map:
    """reference: value and derivatives of (x, u, p, T, t0) -> x+, z"""

    def __init__(self, pr):
        nx, nu, npp = pr.nx, pr.nu, pr.np + pr.npg
        x, u, p, T, t0 = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp), ca.MX.sym('T'), ca.MX.sym('t')
        v = ca.MX.sym('v', nx + nu)
        lam = ca.MX.sym('l', nx)
        xn, z = pr.dyn(v[:nx], v[nx:], p, T, t0)
        S = ca.jacobian(xn, v)
        Sp = ca.jacobian(xn, p) if npp else ca.MX(nx, 0)
        Sz = ca.jacobian(z, v) if pr.nz else ca.MX(0, nx + nu)
        adj = ca.gradient(ca.dot(lam, xn), v)
        H = ca.jacobian(adj, v)
        self.f = ca.Function('m', [v, p, T, t0], [xn, z])
        self.d = ca.Function('d', [v, p, T, t0, lam], [xn, z, S, adj, Sz, Sp])
        self.h = ca.Function('h', [v, p, T, t0, lam], [H])

    def val(self, x, u, p, T, t0=0.0):
        a, b = self.f(np.concatenate([x, u]), p, T, t0)
        return np.array(a).ravel(), np.array(b).ravel()

    def der(self, x, u, p, T, t0, lam):
        return [np.array(q) for q in self.d(np.concatenate([x, u]), p, T, t0, lam)]

    def hess(self, x, u, p, T, t0, lam):
        return np.array(self.h(np.concatenate([x, u]), p, T, t0, lam))
