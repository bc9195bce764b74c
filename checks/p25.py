"""Detection of the GNSF structure.

What is monitored.  Random index-one implicit models of every shape the detection distinguishes (purely linear, chains
and mixtures of linear outputs, nonlinear feedback through states, derivatives, algebraic variables, controls and
parameters, permuted and coupled equations, no controls, no states entering the nonlinearity) are handed to
`detect_gnsf_structure`.  (1) The detected form is evaluated at random points (several orders of magnitude) directly
from the definition in the documentation of `GnsfModel` and must be the given implicit function: there is one
well-conditioned constant matrix that maps the given residual to the residual of the detected form at all points.
Permutations, partition, input maps and dimensions must agree with each other, main blocks must be invertible, and the
detected functions must not depend on variables that are not their arguments.  (2) The simulation solver generated for
the GNSF integrator is compared with the one for the generic implicit integrator with the same collocation scheme:
states, algebraic variables, forward, adjoint and algebraic sensitivities.

Why beyond tests.  The detection is a chain of symbolic rewriting steps whose branches depend on the sparsity of the
model; random structures reach the branches, and comparing functions at random points decides equality of the analytic
expressions with probability one.
"""
import numpy as np
from vp import Inconclusive

PROPERTY = 'P25'
VARIANT = 'plain'
LEVEL = 3
ASSUMPTIONS = 'SX models with nx <= 7, nz <= 3; implicit systems of index one; sensitivities compared at the accuracy of converged Newton iterations'
RULE = ('max |r_gnsf - M r_impl| <= 1e-9 (relative) at 60 random points with one constant M, cond(M) < 1e8; '
        'GNSF and IRK results agree to 1e-8 (relative)')
CASE_TIMEOUT = 420
SOFT_S = {"quick": 240, "thorough": 3000}


def draw(rng, kind=None, tame=False):
    """Random implicit model: dict with symbols, expression and dimensions."""
    import casadi as ca
    nx, nz, nu, np_ = int(rng.integers(1, 8)), int(rng.integers(0, 4)) * int(rng.random() < .5), int(rng.integers(0, 3)), int(rng.integers(0, 3))
    kind = kind or ('linear', 'chain', 'plain', 'mixed', 'coupled', 'deriv', 'control', 'explicit')[rng.integers(8)]
    n = nx + nz
    sym = lambda nm, k: ca.vertcat(*[ca.SX.sym(f'{nm}{i}') for i in range(k)]) if k else ca.SX.sym(nm, 0, 0)
    x, xd, z, u, p = sym('x', nx), sym('xd', nx), sym('z', nz), sym('u', nu), sym('p', np_)
    k = ca.vertcat(xd, z)
    # linear part: block triangular dependence on the variables keeps linear outputs detectable
    order = rng.permutation(n)
    dens = {'chain': .15, 'plain': .25, 'mixed': .35, 'coupled': .6}.get(kind, .3)
    mask = rng.random((n, n)) < dens
    E = np.zeros((n, n))
    if kind != 'explicit':
        E = rng.standard_normal((n, n)) * mask * .4
        if kind == 'chain':
            E = E[np.ix_(order, order)]
            E = np.tril(E, -1)[np.ix_(np.argsort(order), np.argsort(order))]
        if kind in ('chain', 'plain'):
            E = np.where(rng.random((n, n)) < .5, E, 0)
    np.fill_diagonal(E, np.where(rng.random(n) < .5, 1., 1 + rng.random(n)))
    A = rng.standard_normal((n, nx)) * (rng.random((n, nx)) < dens)
    B = rng.standard_normal((n, nu)) * (rng.random((n, nu)) < .4)
    c = rng.standard_normal((n, 1)) * (rng.random((n, 1)) < .3)
    lin = c
    if nx:
        lin = lin + ca.mtimes(A, x)
    if nu:
        lin = lin + ca.mtimes(B, u)
    f = ca.mtimes(E, k) - lin
    rows = []
    if kind != 'linear':
        pool = [x[i] for i in range(nx)]
        sub = list(rng.permutation(nx)[:max(1, int(rng.integers(1, nx + 1)) // 2 + (kind == 'mixed'))])
        pool = [x[int(i)] for i in sub]
        if kind == 'control' and nu:
            pool = []
        slow = []
        if kind in ('deriv', 'coupled', 'mixed'):
            slow += [k[int(i)] for i in rng.permutation(n)[:2]]
        cs = [u[i] for i in range(nu)] + [p[i] for i in range(np_)]
        if kind == 'control' and nu == 0:
            pool = [x[0]]
        fun = (lambda a: ca.sin(a), lambda a: a**2 * .3, lambda a: ca.exp(-a**2), lambda a: ca.tanh(a), lambda a: ca.sqrt(1 + a**2), lambda a: a / (2 + ca.cos(a)))
        for r in rng.permutation(n)[:int(rng.integers(1, 1 + max(1, n // 2)))]:
            rows.append(int(r))
            args = pool + cs
            a = args[rng.integers(len(args))]
            t = fun[rng.integers(len(fun))](a)
            if rng.random() < .5 and len(args) > 1:
                b = args[rng.integers(len(args))]
                t = t * (b if rng.random() < .5 else ca.cos(b))
            if rng.random() < .3 and len(args):
                t = t + .5 * fun[rng.integers(len(fun))](args[rng.integers(len(args))])
            if slow and rng.random() < .7:
                t = t + .1 * ca.sin(slow[rng.integers(len(slow))])
            if np_ and rng.random() < .3:
                t = t + p[int(rng.integers(np_))]
            if rng.random() < .3:
                t = t + .7
            f[int(r)] -= (1 if rng.random() < .5 else -.5) * t
    if rng.random() < .4:                          # order of the equations
        f = f[rng.permutation(n).tolist()]
    if rng.random() < .3:                          # written with the opposite sign, scaled
        f = ca.vertcat(*[f[i] * float(s) for i, s in zip(range(n), np.where(rng.random(n) < .5, -1., 2.5))])
    return dict(x=x, xdot=xd, z=z, u=u, p=p, f=f, nx=nx, nz=nz, nu=nu, np=np_, kind=kind, rows=rows)


def model_of(d, name):
    from acados_template import AcadosModel
    m = AcadosModel()
    m.name, m.x, m.xdot, m.u, m.p, m.f_impl_expr = name, d['x'], d['xdot'], d['u'], d['p'], d['f']
    if d['nz']:
        m.z = d['z']
    if not d['nu']:
        m.u = []
    if not d['np']:
        m.p = []
    return m


def detect(d, name='m', **kw):
    import contextlib, io
    from acados_template import AcadosSim
    from acados_template.gnsf import detect_gnsf_structure
    sim = AcadosSim()
    sim.model = model_of(d, name)
    sim.parameter_values = np.zeros(d['np'])
    o = sim.solver_options
    o.T, o.integrator_type = .1, 'GNSF'
    sim.make_consistent()
    with contextlib.redirect_stdout(io.StringIO()):
        detect_gnsf_structure(sim.model, sim.dims, **kw)
    return sim.model


def implicit(d):
    import casadi as ca
    return ca.Function('f', [d['x'], d['xdot'], d['u'], d['z'], d['p']], [d['f']])


def structured(g, d):
    """The residual of the documented definition, from the attributes of a GnsfModel, as a function of the model's variables."""
    import casadi as ca
    ix, iz = [int(i) for i in g.idx_perm_x], [int(i) for i in g.idx_perm_z]
    D = g.dims
    nx1, nz1 = D.nx1, D.nz1
    y, uh = ca.SX.sym('y', D.ny), ca.SX.sym('uh', D.nuhat)
    phi = ca.Function('phi', [g.y, g.uhat, d['p']], [g.phi])
    flo = ca.Function('flo', [g.x1, g.x1dot, g.z1, d['u'], d['p']], [g.f_LO])

    def r(x, xd, u, z, p):
        x, xd, z = x[ix], xd[ix], z[iz]
        x1, x2, k1, k2 = x[:nx1], x[nx1:], np.concatenate([xd[:nx1], z[:nz1]]), np.concatenate([xd[nx1:], z[nz1:]])
        yv = g.L_x @ x1 + g.L_xdot @ xd[:nx1] + g.L_z @ z[:nz1]
        uv = g.L_u @ u
        ph = np.array(phi(yv, uv, p)).ravel()
        r1 = g.A @ x1 + g.B @ u + g.C @ ph + g.c.ravel() - g.E @ k1
        fl = np.array(flo(x1, xd[:nx1], z[:nz1], u, p)).ravel()
        r2 = g.A_LO @ x2 + g.B_LO @ u + fl + g.c_LO.ravel() - g.E_LO @ k2
        return np.concatenate([r1, r2])
    return r


def detection(case, ob):
    import casadi as ca
    rng = np.random.default_rng(case['s'])
    for i in range(case['n']):
        d = draw(rng)
        n = d['nx'] + d['nz']
        tag = f"{d['kind']} i={i} nx={d['nx']} nz={d['nz']} nu={d['nu']} np={d['np']} rows={d['rows']}"
        los = rng.random() < .8
        inv = rng.random() < .9
        before = str(d['f'])
        try:
            model = detect(d, detect_LOS=True) if los and inv else detect(d, detect_LOS=los, check_E_invertibility=inv) if los else detect(d, detect_LOS=False)
        except Exception as e:
            if not los and 'shape mismatch' in repr(e):      # documented option, result is not a GnsfModel
                ob.count('not_accepted')
                continue
            ob.check(False, 'detect.accept', f'{tag} los={los}: {e!r}'[:600])
            continue
        g = model.gnsf_model
        ob.check(str(model.f_impl_expr) == before, 'detect.modified', tag)
        D = g.dims
        nx1, nz1 = D.nx1, D.nz1
        ok = ob.check(sorted(g.idx_perm_x) == list(range(d['nx'])) and sorted(g.idx_perm_z) == list(range(d['nz'])), 'detect.perm', tag)
        ok &= ob.check(g.L_x.shape == (D.ny, nx1) and g.L_xdot.shape == (D.ny, nx1) and g.L_z.shape == (D.ny, nz1) and g.L_u.shape == (D.nuhat, d['nu']),
                       'detect.shape', f'{tag} {g.L_x.shape} {g.L_u.shape} {D.__dict__}')
        ok &= ob.check(str(g.x1) == str(d['x'][[int(j) for j in g.idx_perm_x[:nx1]]]) if nx1 else True, 'detect.x1', tag)
        if not ok:
            continue
        try:
            rg = structured(g, d)
        except Exception as e:
            ob.check(False, 'detect.arguments', f'{tag}: {e!r}'[:500])
            continue
        f = implicit(d)
        G, F = [], []
        for scale in (.1, 1., 3.):
            for _ in range(20):
                v = [scale * rng.standard_normal(d[k]) for k in ('nx', 'nx', 'nu', 'nz', 'np')]
                G.append(rg(*v))
                F.append(np.array(f(*v)).ravel())
        G, F = np.array(G), np.array(F)
        M, *_ = np.linalg.lstsq(F, G, rcond=1e-12)
        err = np.max(np.abs(F @ M - G)) / max(1, np.max(np.abs(G)))
        ob.worst('equivalence', err)
        ok = ob.check(err <= 1e-9, 'detect.equivalent', f'{tag} los={los}: {err:.2e}')
        rank = np.linalg.matrix_rank(F, tol=1e-8)
        if rank == n:
            ob.check(np.linalg.cond(M) < 1e8, 'detect.singular', f'{tag}: cond {np.linalg.cond(M):.1e}')
        if inv:
            for nm, a in (('E11', g.E[:nx1, :nx1]), ('E22', g.E[nx1:, nx1:])):
                if a.size:
                    ob.check(np.linalg.matrix_rank(a) == len(a), 'detect.' + nm, f'{tag}: {a.tolist()}')
        phi_rows = {int(j) for j in np.flatnonzero(np.any(g.C != 0, axis=1))} if D.nout else set()
        ob.check(g.purely_linear == int(nx1 == 0 and nz1 == 0 and d['kind'] == 'linear') or d['kind'] != 'linear', 'detect.linear', tag)
        ob.check(bool(g.nontrivial_f_LO) == bool(g.f_LO.numel() and not g.f_LO.is_zero()), 'detect.flo', tag)
        ob.count('models.' + d['kind'])
        ob.count('linear_outputs', d['nx'] - nx1 + d['nz'] - nz1)
        ob.count('feedback_outputs', len(phi_rows))
        ob.state((d['kind'], nx1, d['nx'] - nx1, nz1, d['nz'] - nz1, D.ny, D.nuhat, D.nout, los))
        ob.sample(model=tag, nx1=nx1, nz1=nz1, ny=D.ny, nuhat=D.nuhat, nout=D.nout)


def sims(case, ob):
    from acados_template import AcadosSim, AcadosSimSolver
    rng = np.random.default_rng(case['s'])
    while True:
        d = draw(rng, case['kind'])
        f = implicit(d)
        import casadi as ca
        k = ca.vertcat(d['xdot'], d['z'])
        J = ca.Function('J', [d['x'], d['xdot'], d['u'], d['z'], d['p']], [ca.jacobian(d['f'], k)])
        pts = [[.5 * rng.standard_normal(d[q]) for q in ('nx', 'nx', 'nu', 'nz', 'np')] for _ in range(12)]
        v = pts[0]
        if max(np.linalg.cond(np.array(J(*w))) for w in pts) < 40:
            break
    stages, steps = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    col = ('GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA')[rng.integers(2)]
    T = float(rng.uniform(.02, .12))
    tag = f"{case['kind']} nx={d['nx']} nz={d['nz']} nu={d['nu']} np={d['np']} stages={stages} steps={steps}"
    sol = {}
    sf, rz, alg = rng.random() < .8, rng.random() < .8, rng.random() < .7
    for it in ('IRK', 'GNSF'):
        sim = AcadosSim()
        sim.model = model_of(d, 'd' + it.lower())
        sim.parameter_values = v[4].copy()
        o = sim.solver_options
        o.T, o.integrator_type, o.num_stages, o.num_steps, o.collocation_type = T, it, stages, steps, col
        o.newton_iter, o.newton_tol = 60, 1e-13
        o.sens_forw = o.sens_adj = True
        o.output_z = True
        o.sens_algebraic = bool(d['nz'] and alg)
        o.output_z = rz
        if not sf:
            o.sens_forw = o.sens_adj = o.sens_algebraic = False
        sol[it] = AcadosSimSolver(sim, verbose=False)
        if it == 'GNSF':
            g = sim.model.gnsf_model
            D = g.dims
            if (d['nx'] - D.nx1 + d['nz'] - D.nz1) and np.linalg.cond(g.E_LO) > 1e8:
                raise Inconclusive('linear output system is not regular (reported by the detection)')
    for r in range(case.get('n', 5)):
        x, u, p = .5 * rng.standard_normal(d['nx']), .5 * rng.standard_normal(d['nu']), v[4] + .3 * rng.standard_normal(d['np'])
        seed = rng.standard_normal(d['nx'])
        out = {}
        for it, s in sol.items():
            s.set('x', x)
            if d['nu']:
                s.set('u', u)
            if d['np']:
                s.set('p', p)
            if sf:
                s.set('seed_adj', seed)
            if it == 'IRK':
                s.set('xdot', np.zeros(d['nx']))
                if d['nz']:
                    s.set('z', np.zeros(d['nz']))
            st = s.solve()
            if it == 'IRK':               # unique, converged solution of the collocation equations?
                first = s.get('x')
                s.set('xdot', rng.standard_normal(d['nx']))
                if d['nz']:
                    s.set('z', rng.standard_normal(d['nz']))
                st = s.solve()
                unique = np.all(np.abs(first - s.get('x')) <= 1e-10 * (1 + np.abs(first)))
            out[it] = {'status': np.array([st]), 'x': s.get('x')}
            if sf:
                out[it].update(S_forw=s.get('S_forw'), S_adj=s.get('S_adj'))
            if d['nz'] and rz:
                out[it]['z'] = s.get('z')
            if d['nz'] and sf and alg:
                out[it]['S_algebraic'] = s.get('S_algebraic')
        if not unique or not np.all(np.isfinite(out['IRK']['x'])) or np.max(np.abs(out['IRK']['x'])) > 30 or sf and np.max(np.abs(out['IRK']['S_forw'])) > 1e3:
            ob.count('irk_unusable')
            continue
        # the generic integrator must solve the collocation equations: judged by P05
        ok = True
        for q, w in out['IRK'].items():
            ok &= ob.close(out['GNSF'][q], w, 1e-8, 'sim.' + q, tag)
        if not ok:
            ob.check(False, 'sim.where', f'{tag} rows={d["rows"]} nx1={D.nx1} nz1={D.nz1} ny={D.ny} nuhat={D.nuhat} nout={D.nout}')
            break
        ob.count('steps_compared')
    ob.state((case['kind'], D.nx1, d['nx'] - D.nx1, D.nz1, d['nz'] - D.nz1, D.nout, stages, steps))
    ob.sample(sim=tag, nx1=D.nx1, nz1=D.nz1, nout=D.nout)


KINDS = ('linear', 'chain', 'plain', 'mixed', 'coupled', 'deriv', 'control', 'explicit')


def cases(tier, seed):
    t = tier == 'thorough'
    out = [dict(id=f'detect{i}', s=seed * 1000 + i, n=40, fam='detect') for i in range(60 if t else 12)]
    out += [dict(id=f'sim{i}', s=seed * 1000 + 500 + i, kind=KINDS[i % 8], n=12 if t else 5, fam='sim') for i in range(200 if t else 40)]
    return out


def run(case, ob):
    (detection if case['fam'] == 'detect' else sims)(case, ob)
