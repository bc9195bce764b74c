"""Random optimal control problems together with an independent reference model.

A Prob draws a formulation from a seed and features, can express it as an AcadosOcp,
and evaluates the same mathematical problem with code that shares nothing with acados
(CasADi differentiation in memory, numpy collocation / Runge-Kutta, plain loops).
Stage data (bounds, references, weights, parameters, ...) are numpy arrays in
`prob.st[k]` that a check may modify together with the solver.
"""
import numpy as np
import casadi as ca

INF = 1e10


# ----------------------------------------------------------------- integrators
def erk_tableau(s):
    if s == 1:
        return np.zeros((1, 1)), np.ones(1), np.zeros(1)
    if s == 2:
        return np.array([[0, 0], [.5, 0]]), np.array([0., 1.]), np.array([0., .5])
    if s == 3:
        return np.array([[0, 0, 0], [.5, 0, 0], [-1., 2., 0]]), np.array([1, 4, 1]) / 6., np.array([0, .5, 1.])
    if s == 4:
        return (np.array([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1., 0]]),
                np.array([1, 2, 2, 1]) / 6., np.array([0, .5, .5, 1.]))
    raise ValueError(s)


def collocation_nodes(s, kind):
    P = np.polynomial.legendre.Legendre
    if kind == 'GAUSS_LEGENDRE':
        r = P.basis(s).roots()
    else:  # Radau IIA: roots of P_s - P_{s-1}
        r = (P.basis(s) - P.basis(s - 1)).roots()
    return np.sort((np.real(r) + 1) / 2)


def collocation_tableau(s, kind):
    c = collocation_nodes(s, kind)
    A = np.zeros((s, s))
    b = np.zeros(s)
    for j in range(s):
        q = np.poly1d([1.0])
        for i in range(s):
            if i != j:
                q = q * np.poly1d([1.0, -c[i]]) / (c[j] - c[i])
        Q = q.integ()
        A[:, j] = Q(c)
        b[j] = Q(1.0)
    l0 = np.zeros(s)     # value at 0 of the Lagrange basis
    for j in range(s):
        v = 1.0
        for i in range(s):
            if i != j:
                v *= (0 - c[i]) / (c[j] - c[i])
        l0[j] = v
    return A, b, c, l0


def erk_function(f, nx, nu, npp, s, steps):
    """f(x,u,p,t) -> xdot;  returns phi(x,u,p,T,t0)"""
    x, u, p = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp)
    T, t0 = ca.MX.sym('T'), ca.MX.sym('t0')
    A, b, c = erk_tableau(s)
    h = T / steps
    xk, t = x, t0
    for _ in range(steps):
        K = []
        for i in range(s):
            xi = xk
            for j in range(i):
                if A[i, j]:
                    xi = xi + h * A[i, j] * K[j]
            K.append(f(xi, u, p, t + c[i] * h))
        for i in range(s):
            xk = xk + h * b[i] * K[i]
        t = t + h
    return ca.Function('erk', [x, u, p, T, t0], [xk, ca.MX(0, 1)])


def irk_function(fi, nx, nu, nz, npp, s, steps, kind):
    """fi(x,xdot,u,z,p,t) = 0; returns phi(x,u,p,T,t0) -> x+, z(0)"""
    A, b, c, l0 = collocation_tableau(s, kind)
    K = ca.MX.sym('K', (nx + nz) * s)
    x, u, p = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp)
    h, t0 = ca.MX.sym('h'), ca.MX.sym('t0')
    kx = [K[i * nx:(i + 1) * nx] for i in range(s)]
    kz = [K[s * nx + i * nz:s * nx + (i + 1) * nz] for i in range(s)]
    res = []
    for i in range(s):
        xi = x
        for j in range(s):
            xi = xi + h * A[i, j] * kx[j]
        res.append(fi(xi, kx[i], u, kz[i], p, t0 + c[i] * h))
    par = ca.vertcat(x, u, p, h, t0)
    rf = ca.rootfinder('rf', 'newton', dict(x=K, p=par, g=ca.vertcat(*res)),
                       dict(abstol=1e-13, abstolStep=1e-14, max_iter=60, error_on_fail=False))
    X, U, Pp, T, T0 = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp), ca.MX.sym('T'), ca.MX.sym('t0')
    xk, t, z0 = X, T0, None
    hh = T / steps
    for k in range(steps):
        sol = rf(x0=np.zeros((nx + nz) * s), p=ca.vertcat(xk, U, Pp, hh, t))['x']
        for i in range(s):
            xk = xk + hh * b[i] * sol[i * nx:(i + 1) * nx]
        if k == 0:
            z0 = ca.MX(0, 1)
            if nz:
                z0 = ca.MX.zeros(nz)
                for i in range(s):
                    z0 = z0 + l0[i] * sol[s * nx + i * nz:s * nx + (i + 1) * nz]
        t = t + hh
    return ca.Function('irk', [X, U, Pp, T, T0], [xk, z0])


def dn(f, *a):
    r = f(*a)
    return np.array(r).reshape(r.shape) if not isinstance(r, (tuple, list)) else [np.array(q).reshape(q.shape) for q in r]


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self):
        o = Obj()
        for k, v in self.__dict__.items():
            o.__dict__[k] = v.copy() if isinstance(v, (np.ndarray, Obj, dict, list)) else v
        return o


def spd(rng, n, diag=False, lo=0.3, hi=2.0):
    d = rng.uniform(lo, hi, n)
    if diag or n == 1:
        return np.diag(d)
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    m = q @ np.diag(d) @ q.T
    return (m + m.T) / 2


FEATURES = dict(integrator=None, nx=None, nu=None, nz=0, np=None, npg=0, N=None, cost_0=None, cost=None, cost_e=None,
                constr=None, soft=None, x0=None, hess=None, sym=None, uniform=None, ng=None, nh=None, nh_0=None, nh_e=None,
                bx=None, bu=None, onesided=None, stages=None, steps=None, colloc=None, slackbnd=False, nonlin=1.0, time=False,
                cost_disc='EULER', scaling=None, T=None, idxs_rev=False, soft_h=False, hard_h=False, own0=None, diagW=None, regularize=None)


class Prob:
    def __init__(self, seed, **fix):
        for k in fix:
            if k not in FEATURES:
                raise KeyError(k)
        f = dict(FEATURES)
        f.update(fix)
        self.seed = seed
        rng = self.rng = np.random.default_rng(seed)

        def pick(name, opts, p=None):
            v = opts[int(rng.choice(len(opts), p=p))]
            if f[name] is None:
                f[name] = v
            return f[name]
        pick('integrator', ['ERK', 'IRK', 'DISCRETE', 'GNSF'], [.4, .25, .25, .1])
        pick('nx', [1, 2, 3, 4], [.1, .4, .35, .15])
        pick('nu', [1, 2, 3], [.5, .35, .15])
        pick('np', [0, 1, 3], [.4, .3, .3])
        pick('N', [1, 2, 3, 4, 5, 7], [.06, .14, .2, .2, .2, .2])
        ct = ['LINEAR_LS', 'NONLINEAR_LS', 'EXTERNAL', 'CONVEX_OVER_NONLINEAR']
        pick('cost', ct)
        pick('cost_0', ct + ['same'], [.1, .1, .1, .1, .6])
        pick('cost_e', ct)
        pick('constr', ['BGH', 'BGP'], [.75, .25])
        pick('soft', [0, 1, 2], [.3, .4, .3])
        pick('x0', ['fixed', 'free', 'partial', 'box'], [.7, .1, .1, .1])
        pick('hess', ['GAUSS_NEWTON', 'EXACT'], [.6, .4])
        pick('sym', ['SX', 'MX'], [.7, .3])
        pick('uniform', [True, False])
        pick('ng', [0, 1, 2], [.5, .3, .2])
        pick('nh', [0, 1, 2], [.35, .4, .25])
        pick('nh_0', [0, 1, 2], [.6, .3, .1])
        pick('nh_e', [0, 1, 2], [.5, .35, .15])
        pick('bx', [True, False])
        pick('bu', [True, False], [.8, .2])
        pick('onesided', [True, False], [.4, .6])
        pick('stages', [1, 2, 3, 4], [.1, .25, .25, .4])
        pick('steps', [1, 2, 3], [.5, .3, .2])
        pick('colloc', ['GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA'])
        pick('scaling', [None, 'random'], [.7, .3])
        pick('T', [0.4, 0.8, 1.5])
        pick('own0', [True, False])
        pick('diagW', [True, False])
        # legality
        if f['integrator'] in ('ERK', 'DISCRETE'):
            f['nz'] = 0
        if f['integrator'] == 'GNSF':
            f['sym'] = 'SX'
            f['npg'] = 0
            if f['hess'] == 'EXACT' and 'integrator' not in fix:
                f['integrator'] = 'IRK'    # GNSF has no exact Hessian (known finding of P03)
        if f['hess'] == 'EXACT':
            for c in ('cost', 'cost_0', 'cost_e'):
                if f[c] == 'CONVEX_OVER_NONLINEAR' or (f['nz'] and f[c] == 'NONLINEAR_LS'):
                    f[c] = 'EXTERNAL'
        if f['nz'] and f['hess'] == 'EXACT' and f['constr'] == 'BGP':
            f['constr'] = 'BGH'
        if f['idxs_rev'] and f['soft'] == 0:
            f['soft'] = 1
        self.f = f
        for k, v in f.items():
            setattr(self, 'f_' + k, v)
        self.nx, self.nu, self.nz, self.np, self.npg, self.N = f['nx'], f['nu'], f['nz'], f['np'], f['npg'], f['N']
        self.sym = ca.SX.sym if f['sym'] == 'SX' else ca.MX.sym
        self._symbols()
        self._dynamics()
        self._grid()
        self._costs()
        self._constraints()
        self._stage_data()

    # ------------------------------------------------------------ symbols
    def _symbols(self):
        s = self.sym
        self.x, self.u, self.xdot = s('x', self.nx), s('u', self.nu), s('xdot', self.nx)
        self.z = s('z', self.nz) if self.nz else (ca.SX(0, 1) if self.f['sym'] == 'SX' else ca.MX(0, 1))
        self.p = s('p', self.np) if self.np else (ca.SX(0, 1) if self.f['sym'] == 'SX' else ca.MX(0, 1))
        self.pg = s('pg', self.npg) if self.npg else (ca.SX(0, 1) if self.f['sym'] == 'SX' else ca.MX(0, 1))
        self.t = s('t', 1)

    def wrap(self, ins, expr, terminal):
        """expr(x,u,z,p,pg,t,*ins) as a function of w=[u,x,z], pp=[p,pg], t, *ins"""
        base = ca.Function('b', [self.x, self.u, self.z, self.p, self.pg, self.t] + list(ins), [ca.densify(expr)])
        nu = 0 if terminal else self.nu
        nz = 0 if terminal else self.nz

        def call(w, pp, t, *a):
            u = w[:nu] if nu else ca.MX.zeros(self.nu, 1)
            z = w[nu + self.nx:] if nz else ca.MX.zeros(self.nz, 1)
            return base(w[nu:nu + self.nx], u, z, pp[:self.np], pp[self.np:], t, *a)
        return call, nu + self.nx + nz

    def pterm(self, scale=1.0):
        """a random smooth function of the parameters"""
        e = 0
        rng = self.rng
        for i in range(self.np):
            e = e + rng.uniform(-.5, .5) * self.p[i] * scale
        for i in range(self.npg):
            e = e + rng.uniform(-.6, .6) * (self.pg[i] + 0.2 * self.pg[i] ** 2) * scale
        return e

    def nl(self, terminal=False):
        """a random mild nonlinear scalar of (x,u,z,p)"""
        rng = self.rng
        i = int(rng.integers(self.nx))
        j = int(rng.integers(self.nx))
        k = int(rng.integers(self.nu))
        u = 0 if terminal else self.u[k]
        c = int(rng.integers(5))
        if c == 0:
            e = ca.sin(self.x[i]) * 0.7 + 0.3 * u
        elif c == 1:
            e = 0.4 * self.x[i] * self.x[j] + 0.2 * u
        elif c == 2:
            e = ca.tanh(self.x[i] - 0.5 * u)
        elif c == 3:
            e = 0.3 * self.x[i] ** 2 + 0.5 * self.x[j] + 0.2 * u * u
        else:
            e = 0.6 * ca.cos(self.x[i] + 0.3 * u) - 0.4 * self.x[j]
        if self.nz and not terminal:
            e = e + 0.3 * self.z[int(rng.integers(self.nz))]
        if self.np + self.npg and rng.random() < 0.4:
            e = e * (1 + self.pterm(0.4))
        return e * self.f['nonlin'] + (1 - self.f['nonlin']) * 0.3 * self.x[i]

    # ------------------------------------------------------------ dynamics
    def _dynamics(self):
        rng, nx, nu = self.rng, self.nx, self.nu
        A = rng.normal(size=(nx, nx)) * 0.5 - 0.4 * np.eye(nx)
        B = rng.normal(size=(nx, nu)) * 0.8
        rows = []
        for i in range(nx):
            e = ca.dot(ca.DM(A[i]), self.x) + ca.dot(ca.DM(B[i]), self.u)
            if rng.random() < 0.7:
                e = e + 0.3 * self.f['nonlin'] * ca.sin(self.x[int(rng.integers(nx))] * 1.3)
            if rng.random() < 0.5:
                e = e + 0.15 * self.f['nonlin'] * self.x[int(rng.integers(nx))] * self.u[int(rng.integers(nu))]
            if rng.random() < 0.6:
                e = e + self.pterm(0.5)
            if self.np + self.npg and rng.random() < 0.5:
                e = e + self.pterm(0.4) * (self.x[int(rng.integers(nx))] if rng.random() < 0.6 else self.u[int(rng.integers(nu))])
            if self.nz:
                e = e + 0.25 * rng.normal() * self.z[int(rng.integers(self.nz))]
            if self.f['time']:
                e = e + 0.4 * ca.sin(2.0 * self.t + i) + 0.3 * ca.cos(1.7 * self.t + i) * self.x[int(rng.integers(nx))] + 0.3 * ca.sin(self.t) * self.u[int(rng.integers(nu))]
            rows.append(e)
        if self.f['integrator'] == 'GNSF':
            rows[0] = rows[0] + 0.1 * ca.sin(self.x[0])   # detection does not support fully linear models
        self.f_expl = ca.vertcat(*rows)
        alg = []
        for i in range(self.nz):
            alg.append(self.z[i] + 0.1 * self.f['nonlin'] * self.z[i] ** 3 - 0.5 * self.x[int(rng.integers(nx))]
                       - 0.3 * ca.tanh(self.u[int(rng.integers(nu))]) - self.pterm(0.3))
        mass = 1.0
        if self.f['integrator'] == 'IRK' and rng.random() < 0.4:
            mass = 1.0 + 0.2 * self.f['nonlin'] * ca.sin(self.x[0])
        self.f_impl = ca.vertcat(mass * self.xdot - self.f_expl, *alg)
        npp = self.np + self.npg
        it = self.f['integrator']
        if it == 'ERK':
            f0 = ca.Function('f', [self.x, self.u, self.p, self.pg, self.t], [self.f_expl])
            ff = lambda x, u, p, t: f0(x, u, p[:self.np], p[self.np:], t)
            base = erk_function(ff, nx, nu, npp, self.f['stages'], self.f['steps'])
        elif it in ('IRK', 'GNSF', 'LIFTED_IRK'):
            f0 = ca.Function('f', [self.x, self.xdot, self.u, self.z, self.p, self.pg, self.t], [self.f_impl])
            ff = lambda x, xd, u, z, p, t: f0(x, xd, u, z, p[:self.np], p[self.np:], t)
            base = irk_function(ff, nx, nu, self.nz, npp, self.f['stages'], self.f['steps'], self.f['colloc'])
        else:
            h = 0.25
            k1 = self.f_expl
            xm = self.x + h * k1
            fm = ca.Function('f', [self.x, self.u, self.p, self.pg], [self.f_expl])
            self.disc = self.x + h * 0.5 * (k1 + fm(xm, self.u, self.p, self.pg))
            f0 = ca.Function('f', [self.x, self.u, self.p, self.pg], [self.disc])
            fd = lambda x, u, p: f0(x, u, p[:self.np], p[self.np:])
            X, U, Pp, T, T0 = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp), ca.MX.sym('T'), ca.MX.sym('t0')
            base = ca.Function('disc', [X, U, Pp, T, T0], [fd(X, U, Pp), ca.MX(0, 1)])
        self.dyn = base
        X, U, Pp, T, T0 = ca.MX.sym('x', nx), ca.MX.sym('u', nu), ca.MX.sym('p', npp), ca.MX.sym('T'), ca.MX.sym('t0')
        ux = ca.vertcat(U, X)
        pi = ca.MX.sym('pi', nx)
        V = ca.MX.sym('v', nu + nx)
        xn, z0 = base(V[nu:], V[:nu], Pp, T, T0)
        J = ca.jacobian(xn, V)
        JZ = ca.jacobian(z0, V) if self.nz else ca.MX(0, nu + nx)
        adj = ca.gradient(ca.dot(pi, xn), V)
        H = ca.jacobian(adj, V)
        self.dyn_jac = ca.Function('dj', [V, Pp, T, T0], [xn, z0, J, JZ])
        self.dyn_hess = ca.Function('dh', [V, Pp, T, T0, pi], [H])
        del ux, X, U
        # largest step for which Newton on the stage equations certainly converges from any iterate used here
        self.tcap = 1e9
        if it in ('IRK', 'GNSF', 'LIFTED_IRK'):
            r2 = np.random.default_rng(self.seed + 99)
            L = 0.0
            for _ in range(25):
                V = r2.uniform(-1.2, 1.2, nu + nx)
                J = np.array(self.dyn_jac(V, r2.uniform(-.6, .6, npp), 1e-4 * self.f['steps'], r2.uniform(-1, 3))[2])[:, nu:]
                L = max(L, np.linalg.norm((J - np.eye(nx)) / (1e-4 * self.f['steps']), 2))
            self.tcap = 0.8 * self.f['steps'] / max(L, 0.1)

    # ------------------------------------------------------------ grid
    def _grid(self):
        N, rng = self.N, self.rng
        T = self.f['T']
        if self.f['uniform']:
            self.dt = np.full(N, T / N)
        else:
            w = rng.uniform(0.5, 1.5, N)
            self.dt = w / w.sum() * T
        if self.f['T'] in (0.4, 0.8, 1.5) and self.dt.max() > self.tcap:
            self.dt = self.dt * self.tcap / self.dt.max()
        self.tf = float(np.sum(self.dt))
        if self.f['scaling'] == 'random':
            self.scal = np.concatenate([rng.uniform(0.3, 2.0, N), [rng.uniform(0.5, 1.5)]])
        else:
            self.scal = np.concatenate([self.dt, [1.0]])
        self.t0s = np.concatenate([[0.0], np.cumsum(self.dt)])

    # ------------------------------------------------------------ cost
    def _cost_kind(self, ct, terminal):
        rng, nx, nu, nz = self.rng, self.nx, self.nu, self.nz
        o = Obj(type=ct, terminal=terminal)
        nu_ = 0 if terminal else nu
        nz_ = 0 if terminal else nz
        extra = int(rng.integers(0, 2))
        ny = nx + nu_ + extra
        if ct == 'LINEAR_LS':
            V = np.zeros((ny, nx + nu_ + nz_))
            V[:nx + nu_, :nx + nu_] = np.eye(nx + nu_) + 0.2 * rng.normal(size=(nx + nu_, nx + nu_))
            V[nx + nu_:, :] = rng.normal(size=(extra, nx + nu_ + nz_))
            V[:, nx + nu_:] = 0.4 * rng.normal(size=(ny, nz_))
            o.Vx, o.Vu, o.Vz = V[:, :nx], V[:, nx:nx + nu_], V[:, nx + nu_:]
            y = ca.mtimes(ca.DM(o.Vx), self.x)
            if nu_:
                y = y + ca.mtimes(ca.DM(o.Vu), self.u)
            if nz_:
                y = y + ca.mtimes(ca.DM(o.Vz), self.z)
        else:
            rows = [self.x[i] + (0.2 * self.nl(terminal) if rng.random() < 0.6 else 0) + (self.pterm(0.5) if rng.random() < 0.5 else 0) for i in range(nx)]
            rows += [self.u[i] + (0.15 * self.nl(terminal) if rng.random() < 0.4 else 0) for i in range(nu_)]
            rows += [self.nl(terminal) + self.pterm(0.5) for _ in range(extra)]
            if self.f['time'] and not terminal:
                rows[0] = rows[0] + 0.3 * ca.cos(self.t)
            y = ca.vertcat(*rows)
        o.ny = ny
        o.y = y
        o.W = spd(rng, ny, self.f['diagW'])
        o.yref = rng.uniform(-.6, .6, ny)
        if ct == 'CONVEX_OVER_NONLINEAR':
            S = self.sym
            o.r = S('r', ny)
            Wd = ca.DM(o.W)
            psi = 0.5 * ca.mtimes([o.r.T, Wd, o.r])
            if rng.random() < 0.7:
                for i in range(ny):
                    psi = psi + 0.3 * (ca.sqrt(1 + (o.r[i]) ** 2) - 1)
            if rng.random() < 0.5:
                psi = psi + 0.2 * ca.log(1 + ca.exp(ca.sum1(o.r)))
            if self.np:
                psi = psi * (1 + 0.1 * self.p[0] ** 2)
            o.psi = psi
        if ct == 'EXTERNAL':
            r = y - ca.DM(o.yref)
            o.expr = 0.5 * ca.mtimes([r.T, ca.DM(o.W), r])
            if rng.random() < 0.5:
                o.expr = o.expr + 0.2 * self.f['nonlin'] * ca.log(1 + ca.exp(self.nl(terminal)))
            if rng.random() < 0.5:
                o.expr = o.expr + self.pterm(0.5) * self.x[0]
        return o

    def _costs(self):
        f = self.f
        self.ck = {}
        self.ck['p'] = self._cost_kind(f['cost'], False)
        self.ck['0'] = self.ck['p'] if f['cost_0'] == 'same' else self._cost_kind(f['cost_0'], False)
        self.ck['e'] = self._cost_kind(f['cost_e'], True)
        for kd, o in self.ck.items():
            if hasattr(o, 'fun'):
                continue
            ym, nw = self.wrap([], o.y, kd == 'e')
            w, pp, t = ca.MX.sym('w', nw), ca.MX.sym('pp', self.np + self.npg), ca.MX.sym('t')
            yref, W = ca.MX.sym('yref', o.ny), ca.MX.sym('W', o.ny, o.ny)
            r = ym(w, pp, t) - yref
            Jr = ca.jacobian(r, w)
            Hgn = None
            if o.type in ('LINEAR_LS', 'NONLINEAR_LS'):
                l = 0.5 * ca.mtimes([r.T, W, r])
                Hgn = ca.mtimes([Jr.T, W, Jr])
            elif o.type == 'CONVEX_OVER_NONLINEAR':
                psi, _ = self.wrap([o.r], o.psi, kd == 'e')
                l = psi(w, pp, t, r)
                rs = ca.MX.sym('r', o.ny)
                pr = psi(w, pp, t, rs)
                hp = ca.Function('hp', [w, pp, t, rs], [ca.jacobian(ca.gradient(pr, rs), rs)])
                Hgn = ca.mtimes([Jr.T, hp(w, pp, t, r), Jr])
            else:
                ex, _ = self.wrap([], o.expr, kd == 'e')
                l = ex(w, pp, t)
            g = ca.gradient(l, w)
            H = ca.jacobian(g, w)
            o.fun = ca.Function('l', [w, pp, t, yref, W], [l, g, H, H if Hgn is None else Hgn])

    # ------------------------------------------------------------ constraints
    def _con_kind(self, n, terminal):
        rng = self.rng
        o = Obj(n=n, phi=False)
        if n == 0:
            return o
        rows = [self.nl(terminal) + (self.pterm(0.4) if rng.random() < 0.6 else 0) for _ in range(n)]
        h = ca.vertcat(*rows)
        if self.f['constr'] == 'BGP':
            o.phi = True
            nr = int(rng.integers(1, 3))
            o.nr = nr
            o.r_expr = ca.vertcat(*[self.nl(terminal) for _ in range(nr)])
            o.r = self.sym('rphi', nr)
            ph = []
            for i in range(n):
                a = rng.normal(size=nr)
                e = ca.dot(ca.DM(a), o.r) * 0.5 + 0.3 * ca.sum1(o.r ** 2)
                if self.np and rng.random() < 0.5:
                    e = e + 0.3 * self.p[0]
                ph.append(e)
            o.phi_expr = ca.vertcat(*ph)
            ph, nw = self.wrap([o.r], o.phi_expr, terminal)
            rm, nw = self.wrap([], o.r_expr, terminal)
        else:
            hm, nw = self.wrap([], h, terminal)
        w, pp, t, lam = ca.MX.sym('w', nw), ca.MX.sym('pp', self.np + self.npg), ca.MX.sym('t'), ca.MX.sym('lam', n)
        hx = ph(w, pp, t, rm(w, pp, t)) if o.phi else hm(w, pp, t)
        o.h = h
        J = ca.jacobian(hx, w)
        H = ca.jacobian(ca.gradient(ca.dot(lam, hx), w), w)
        Hs = H
        if o.phi:
            Jr = ca.jacobian(rm(w, pp, t), w)
            rs = ca.MX.sym('r', o.nr)
            hh = ca.Function('hh', [w, pp, t, lam, rs], [ca.jacobian(ca.gradient(ca.dot(lam, ph(w, pp, t, rs)), rs), rs)])
            Hs = ca.mtimes([Jr.T, hh(w, pp, t, lam, rm(w, pp, t)), Jr])
        o.fun = ca.Function('h', [w, pp, t, lam], [hx, J, H, Hs])
        return o

    def _constraints(self):
        f = self.f
        self.hk = {}
        self.hk['p'] = self._con_kind(f['nh'], False)
        self.hk['0'] = self._con_kind(f['nh_0'], False)
        self.hk['e'] = self._con_kind(f['nh_e'], True)

    def kind(self, k):
        return 'e' if k == self.N else ('0' if k == 0 else 'p')

    def _stage_data(self):
        rng, f, N, nx, nu = self.rng, self.f, self.N, self.nx, self.nu

        def box(n, c, w):
            lo = c - rng.uniform(w, 2 * w, n)
            hi = c + rng.uniform(w, 2 * w, n)
            if f['onesided']:
                for i in range(n):
                    q = rng.random()
                    if q < 0.2:
                        lo[i] = -INF
                    elif q < 0.4:
                        hi[i] = INF
            return lo, hi
        self.x0bar = rng.uniform(-.6, .6, nx)
        pd = {}
        sub = lambda n: np.sort(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
        idxbx = sub(nx) if f['bx'] else np.zeros(0, int)
        idxbxe = sub(nx) if f['bx'] and rng.random() < 0.8 else np.zeros(0, int)
        idxbu = sub(nu) if f['bu'] else np.zeros(0, int)
        ng = f['ng']
        nge = int(rng.integers(0, 2)) if ng else 0
        Cm, Dm, Ce = rng.normal(size=(ng, nx)), rng.normal(size=(ng, nu)) * 0.5, rng.normal(size=(nge, nx))
        idxbx0 = dict(fixed=np.arange(nx), free=np.zeros(0, int), partial=sub(nx), box=sub(nx))[f['x0']]
        W2 = 1.2
        pd['p'] = Obj(idxbu=idxbu, idxbx=idxbx, C=Cm, D=Dm)
        pd['0'] = Obj(idxbu=idxbu, idxbx=idxbx0, C=Cm, D=Dm)
        pd['e'] = Obj(idxbu=np.zeros(0, int), idxbx=idxbxe, C=Ce, D=np.zeros((nge, 0)))
        lbu, ubu = box(len(idxbu), 0.0, 1.0)
        lg, ug = box(ng, 0.0, W2)
        for kd in '0pe':
            o = pd[kd]
            nh = self.hk[kd].n
            if kd == 'e':
                o.lbu = o.ubu = np.zeros(0)
                o.lg, o.ug = box(nge, 0.0, W2)
            else:
                o.lbu, o.ubu, o.lg, o.ug = lbu.copy(), ubu.copy(), lg.copy(), ug.copy()
            if kd == '0' and f['x0'] in ('fixed', 'partial'):
                o.lbx = self.x0bar[o.idxbx].copy()
                o.ubx = o.lbx.copy()
                o.nbxe = len(o.idxbx)
            else:
                o.lbx, o.ubx = box(len(o.idxbx), 0.0, 1.5)
                o.nbxe = 0
            o.lh, o.uh = box(nh, 0.1, W2)
            if self.hk[kd].phi:
                o.lh[:] = -INF     # convex-over-nonlinear constraints are upper bounded
                o.uh[:] = rng.uniform(0.8, 2.0, nh)
        # slacks: subsets of the constraint rows of each kind; order [bu, bx, g, h]
        soft = f['soft']
        pr = {0: 0.0, 1: 0.4, 2: 0.85}[soft]
        sel = lambda n: np.array([i for i in range(n) if rng.random() < pr], dtype=int)
        sbu, sbx, sg, sbxe, sge = sel(len(idxbu)) if rng.random() < 0.4 else np.zeros(0, int), sel(len(idxbx)), sel(ng), sel(len(idxbxe)), sel(nge)
        allh = soft > 0 and not f['hard_h']
        sh = {kd: (np.arange(self.hk[kd].n) if allh else sel(self.hk[kd].n)) for kd in '0pe'}
        if f['soft_h']:               # slacks for general nonlinear constraints only
            sbu, sbx, sg, sbxe, sge = [np.zeros(0, int)] * 5
            sh = {kd: np.zeros(0, int) if self.hk[kd].phi else sel(self.hk[kd].n) for kd in '0pe'}
        for kd in '0pe':
            o = pd[kd]
            o.sbu = sbu if kd != 'e' else np.zeros(0, int)
            o.sbx = dict(p=sbx, e=sbxe).get(kd, np.zeros(0, int))
            o.sg = sge if kd == 'e' else sg
            o.sh = sh[kd]
        if f['idxs_rev']:
            # general map: several constraints may share a slack
            for kd in '0pe':
                o = pd[kd]
                nb = len(o.idxbu) + len(o.idxbx)
                n = nb + o.C.shape[0] + self.hk[kd].n
                rev = -np.ones(n, int)
                cand = [i for i in range(n) if not (kd == '0' and len(o.idxbu) <= i < nb and o.nbxe) and rng.random() < 0.7]
                ns = int(rng.integers(1, len(cand) + 1)) if cand else 0
                for q, i in enumerate(cand):
                    rev[i] = q if q < ns else int(rng.integers(ns))
                o.rev, o.ns = rev, ns
        else:
            for kd in '0pe':
                o = pd[kd]
                nbu, nbx, ng_, nh_ = len(o.idxbu), len(o.idxbx), o.C.shape[0], self.hk[kd].n
                rows = np.concatenate([o.sbu, nbu + o.sbx, nbu + nbx + o.sg, nbu + nbx + ng_ + o.sh]).astype(int)
                rev = -np.ones(nbu + nbx + ng_ + nh_, int)
                rev[rows] = np.arange(len(rows))
                o.rev, o.ns = rev, len(rows)
        for kd in '0pe':
            o = pd[kd]
            o.zl, o.zu = rng.uniform(2, 20, o.ns), rng.uniform(2, 20, o.ns)
            o.Zl, o.Zu = rng.uniform(0.5, 10, o.ns), rng.uniform(0.5, 10, o.ns)
            o.lls, o.lus = np.zeros(o.ns), np.zeros(o.ns)
            if f['slackbnd'] and o.ns:
                o.lls, o.lus = rng.uniform(0, .1, o.ns), rng.uniform(0, .1, o.ns)
            c = self.ck[kd]
            o.yref, o.W = c.yref.copy(), c.W.copy()
        if f['slackbnd'] and not f['idxs_rev']:
            P, Z = pd['p'], pd['0']
            nb_, nx_, ng_ = len(P.sbu), len(P.sbx), len(P.sg)
            for a in ('lls', 'lus'):
                p_, z_ = getattr(P, a), getattr(Z, a)
                z_[:nb_] = p_[:nb_]
                z_[nb_:nb_ + ng_] = p_[nb_ + nx_:nb_ + nx_ + ng_]
        if not f['own0'] and pd['0'].ns == pd['p'].ns:
            for a in ('zl', 'zu', 'Zl', 'Zu'):
                setattr(pd['0'], a, getattr(pd['p'], a).copy())
        self.pd = pd
        self.pval = rng.uniform(-.5, .5, self.np)
        self.pgval = rng.uniform(-.5, .5, self.npg)
        self.st = []
        for k in range(N + 1):
            o = pd[self.kind(k)].copy()
            o.p = self.pval.copy()
            o.dt = self.dt[k] if k < N else 0.0
            o.t = 0.0   # documented: the start time is 0 on every stage
            o.scal = self.scal[k]
            o.nx, o.nu, o.nz = nx, (nu if k < N else 0), (self.nz if k < N else 0)
            o.nh = self.hk[self.kind(k)].n
            o.nbu, o.nbx, o.ng = len(o.idxbu), len(o.idxbx), o.C.shape[0]
            o.ni = o.nbu + o.nbx + o.ng + o.nh
            self.st.append(o)

    # ------------------------------------------------------------ AcadosOcp
    def make_ocp(self, name=None):
        from acados_template import AcadosOcp, AcadosModel
        f, pd = self.f, self.pd
        ocp = AcadosOcp()
        m = ocp.model
        assert isinstance(m, AcadosModel)
        m.name = name or 'm%d' % (abs(hash(self.seed)) % 10 ** 6)
        m.x, m.u = self.x, self.u
        if self.np:
            m.p = self.p
        if self.npg:
            m.p_global = self.pg
        if self.nz:
            m.z = self.z
        if self.f['time']:
            m.t = self.t
        it = f['integrator']
        if it == 'ERK':
            m.f_expl_expr = self.f_expl
            m.xdot = self.xdot
            m.f_impl_expr = self.f_impl
        elif it == 'DISCRETE':
            m.disc_dyn_expr = self.disc
        else:
            m.xdot = self.xdot
            m.f_impl_expr = self.f_impl
        so = ocp.solver_options
        so.integrator_type = it
        so.sim_method_num_stages = f['stages']
        so.sim_method_num_steps = f['steps']
        so.collocation_type = f['colloc']
        so.sim_method_newton_iter = 20
        so.sim_method_newton_tol = 1e-13
        so.hessian_approx = f['hess']
        so.N_horizon = self.N
        so.tf = self.tf
        if not f['uniform']:
            so.time_steps = self.dt.copy()
        if f['scaling'] == 'random':
            so.cost_scaling = self.scal.copy()
        so.print_level = 0
        so.nlp_solver_max_iter = 100
        c = ocp.cost
        for kd, suf in (('p', ''), ('0', '_0'), ('e', '_e')):
            if kd == '0' and self.ck['0'] is self.ck['p']:
                continue
            o = self.ck[kd]
            setattr(c, 'cost_type' + suf, o.type)
            if o.type == 'LINEAR_LS':
                setattr(c, 'Vx' + suf, o.Vx.copy())
                if kd != 'e':
                    setattr(c, 'Vu' + suf, o.Vu.copy())
                    if self.nz:
                        setattr(c, 'Vz' + suf, o.Vz.copy())
            if o.type in ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR'):
                setattr(m, 'cost_y_expr' + suf, o.y)
            if o.type in ('LINEAR_LS', 'NONLINEAR_LS'):
                setattr(c, 'W' + suf, pd[kd].W.copy())
            if o.type != 'EXTERNAL':
                setattr(c, 'yref' + suf, pd[kd].yref.copy())
            if o.type == 'CONVEX_OVER_NONLINEAR':
                setattr(m, 'cost_psi_expr' + suf, o.psi)
                setattr(m, 'cost_r_in_psi_expr' + suf, o.r)
            if o.type == 'EXTERNAL':
                setattr(m, 'cost_expr_ext_cost' + suf, o.expr)
        q = ocp.constraints
        P, Z, E = pd['p'], pd['0'], pd['e']
        if f['x0'] == 'fixed':
            q.x0 = Z.lbx.copy()
        elif len(Z.idxbx):
            q.idxbx_0, q.lbx_0, q.ubx_0 = Z.idxbx.copy(), Z.lbx.copy(), Z.ubx.copy()
            q.idxbxe_0 = np.arange(Z.nbxe)
        if len(P.idxbx):
            q.idxbx, q.lbx, q.ubx = P.idxbx.copy(), P.lbx.copy(), P.ubx.copy()
        if len(E.idxbx):
            q.idxbx_e, q.lbx_e, q.ubx_e = E.idxbx.copy(), E.lbx.copy(), E.ubx.copy()
        if len(P.idxbu):
            q.idxbu, q.lbu, q.ubu = P.idxbu.copy(), P.lbu.copy(), P.ubu.copy()
        if P.C.shape[0]:
            q.C, q.D, q.lg, q.ug = P.C.copy(), P.D.copy(), P.lg.copy(), P.ug.copy()
        if E.C.shape[0]:
            q.C_e, q.lg_e, q.ug_e = E.C.copy(), E.lg.copy(), E.ug.copy()
        for kd, suf in (('p', ''), ('0', '_0'), ('e', '_e')):
            o, h = pd[kd], self.hk[kd]
            if not h.n:
                continue
            if h.phi:
                setattr(m, 'con_phi_expr' + suf, h.phi_expr)
                setattr(m, 'con_r_expr' + suf, h.r_expr)
                setattr(m, 'con_r_in_phi' + suf, h.r)
                setattr(q, 'lphi' + suf, o.lh.copy())
                setattr(q, 'uphi' + suf, o.uh.copy())
                setattr(q, 'constr_type' + suf, 'BGP')
                if len(o.sh) and not f['idxs_rev']:
                    setattr(q, 'idxsphi' + suf, o.sh.copy())
            else:
                setattr(m, 'con_h_expr' + suf, h.h)
                setattr(q, 'lh' + suf, o.lh.copy())
                setattr(q, 'uh' + suf, o.uh.copy())
                if len(o.sh) and not f['idxs_rev']:
                    setattr(q, 'idxsh' + suf, o.sh.copy())
        if f['idxs_rev']:
            for kd, suf in (('p', ''), ('0', '_0'), ('e', '_e')):
                o = pd[kd]
                if len(o.rev):
                    setattr(q, 'idxs_rev' + suf, o.rev.copy())
                    if o.ns and f['slackbnd']:
                        setattr(q, 'ls' + suf, o.lls.copy())
                        setattr(q, 'us' + suf, o.lus.copy())
        else:
            if len(P.sbu):
                q.idxsbu = P.sbu.copy()
            if len(P.sbx):
                q.idxsbx = P.sbx.copy()
            if len(P.sg):
                q.idxsg = P.sg.copy()
            if len(E.sbx):
                q.idxsbx_e = E.sbx.copy()
            if len(E.sg):
                q.idxsg_e = E.sg.copy()
            if f['slackbnd']:
                for kd, suf in (('p', ''), ('0', '_0'), ('e', '_e')):
                    o = pd[kd]
                    i = 0
                    for nm, n in (('bu', len(o.sbu)), ('bx', len(o.sbx)), ('g', len(o.sg)), ('phi' if self.hk[kd].phi else 'h', len(o.sh))):
                        if n and not (kd == '0' and nm in ('bu', 'g')):
                            setattr(q, 'ls' + nm + suf, o.lls[i:i + n].copy())
                            setattr(q, 'us' + nm + suf, o.lus[i:i + n].copy())
                        i += n
        for kd, suf in (('p', ''), ('0', '_0'), ('e', '_e')):
            o = pd[kd]
            for a in ('zl', 'zu', 'Zl', 'Zu'):
                setattr(c, a + suf, getattr(o, a).copy())
        if f['cost_disc'] == 'INTEGRATOR':
            so.cost_discretization = 'INTEGRATOR'
        if f['hess'] == 'EXACT' and any(self.hk[k].phi and self.hk[k].n for k in '0pe'):
            so.exact_hess_constr = 0
        if self.np:
            ocp.parameter_values = self.pval.copy()
        if self.npg:
            ocp.p_global_values = self.pgval.copy()
        return ocp

    # ------------------------------------------------------------ reference
    def tag(self):
        f = self.f
        return '%s/%s/%s-%s-%s/%s%s%s%s' % (f['integrator'], f['hess'][:2], f['cost_0'][:2], f['cost'][:2], f['cost_e'][:2], f['constr'],
                                          '/soft%d' % f['soft'] if f['soft'] else '', '/z' if self.nz else '', '/pg' if self.npg else '')

    def pp(self, k):
        return np.concatenate([self.st[k].p, self.pgval])

    def step(self, k, x, u):
        xn, z = self.dyn(x, u, self.pp(k), self.st[k].dt, self.st[k].t)
        return np.array(xn).ravel(), np.array(z).ravel()

    def stage(self, k, x, u, pi=None, lam=None, sl=None, su=None, z=None, zs=None):
        """everything about stage k at a point; returns an Obj"""
        s = self.st[k]
        nux = s.nu + s.nx
        o = Obj()
        T = np.zeros((nux + s.nz, nux))
        T[:nux, :nux] = np.eye(nux)
        zz = np.zeros(0)
        if k < self.N:
            V = np.concatenate([u, x])
            xn, zr, J, JZ = [np.array(q) for q in self.dyn_jac(V, self.pp(k), s.dt, s.t)]
            o.xn, o.A, o.B = xn.ravel(), J[:, s.nu:], J[:, :s.nu]
            if s.nz:
                zz = zr.ravel()
                T[nux:] = JZ
            if pi is not None:
                o.Hdyn = np.array(self.dyn_hess(V, self.pp(k), s.dt, s.t, pi))
        o.z = zz
        o.dzdux = T[nux:]
        w = np.concatenate([u[:s.nu], x, zz])
        kd = self.kind(k)
        c = self.ck[kd]
        l, g, H, Hgn = [np.array(q) for q in c.fun(w, self.pp(k), s.t, s.yref, s.W)]
        if getattr(s, 'V', None) is not None:        # linear least squares with changed matrices
            y, V = s.V @ w - s.yref, s.V
            l, g, H = 0.5 * y @ s.W @ y, V.T @ s.W @ y, V.T @ s.W @ V
            g = g.reshape(-1, 1)
            Hgn = H
        if getattr(s, 'num_hess', None) is not None:  # numerical Hessian of an external cost
            H = np.zeros((len(w), len(w)))
        o.l = s.scal * float(l)
        o.g = s.scal * (T.T @ g).ravel()
        o.Hcost, o.Hgn = s.scal * T.T @ H @ T, s.scal * T.T @ Hgn @ T
        if getattr(s, 'num_hess', None) is not None:
            o.Hcost = o.Hgn = s.scal * s.num_hess
        h = self.hk[kd]
        nb = s.nbu + s.nbx
        J = np.zeros((s.ni, nux))
        v = np.zeros(s.ni)
        for i, j in enumerate(s.idxbu):
            J[i, j], v[i] = 1, u[j]
        for i, j in enumerate(s.idxbx):
            J[s.nbu + i, s.nu + j], v[s.nbu + i] = 1, x[j]
        if s.ng:
            J[nb:nb + s.ng, s.nu:] = s.C
            v[nb:nb + s.ng] = s.C @ x
            if s.nu:
                J[nb:nb + s.ng, :s.nu] = s.D
                v[nb:nb + s.ng] += s.D @ u
        o.Hcon = np.zeros((nux, nux))
        o.Hscqp = np.zeros((nux, nux))
        if s.nh:
            ni = s.ni
            lh_, uh_ = s.lh > -INF, s.uh < INF
            mult = np.zeros(s.nh) if lam is None else lam[2 * ni - s.nh:2 * ni] * uh_ - lam[ni - s.nh:ni] * lh_
            hv, hJ, hH, hS = [np.array(q) for q in h.fun(w, self.pp(k), s.t, mult)]
            v[nb + s.ng:] = hv.ravel()
            J[nb + s.ng:] = hJ @ T
            o.Hcon = T.T @ hH @ T
            if h.phi and lam is not None:
                up = lam[2 * ni - s.nh:2 * ni] * uh_
                hS = np.array(h.fun(w, self.pp(k), s.t, up)[3])
                o.Hscqp = hS[:nux, :nux]     # the convexified term of acados does not include z
        o.c, o.J = v, J
        o.lb = np.concatenate([s.lbu, s.lbx, s.lg, s.lh])
        o.ub = np.concatenate([s.ubu, s.ubx, s.ug, s.uh])
        sl = np.zeros(s.ns) if sl is None else sl
        su = np.zeros(s.ns) if su is None else su
        o.lslack = s.scal * (np.sum(s.zl * sl + 0.5 * s.Zl * sl ** 2) + np.sum(s.zu * su + 0.5 * s.Zu * su ** 2))
        o.gsl, o.gsu = s.scal * (s.zl + s.Zl * sl), s.scal * (s.zu + s.Zu * su)
        low, upp = o.lb - v, v - o.ub
        for i in range(s.ni):
            if s.rev[i] >= 0:
                low[i] -= sl[s.rev[i]]
                upp[i] -= su[s.rev[i]]
        o.mask = np.concatenate([o.lb > -INF, o.ub < INF, s.lls > -INF, s.lus > -INF]).astype(float)
        o.fun = np.concatenate([low, upp, s.lls - sl, s.lus - su])
        o.fun = np.where(o.mask > 0, o.fun, 0.0)
        return o

    def cost(self, it):
        tot = 0.0
        for k in range(self.N + 1):
            o = self.stage(k, it.x[k], it.u[k], sl=it.sl[k], su=it.su[k])
            tot += o.l + o.lslack
        return tot

    def kkt(self, it, tau=0.0):
        """residual vectors of the KKT conditions at iterate it"""
        N = self.N
        r = Obj(stat=[], eq=[], ineq=[], comp=[], cost=0.0, st=[])
        prev = None
        for k in range(N + 1):
            s = self.st[k]
            o = self.stage(k, it.x[k], it.u[k], sl=it.sl[k], su=it.su[k])
            r.st.append(o)
            r.cost += o.l + o.lslack
            lam = it.lam[k] * o.mask
            ni = s.ni
            ll, lu, lls, lus = lam[:ni], lam[ni:2 * ni], lam[2 * ni:2 * ni + s.ns], lam[2 * ni + s.ns:]
            g = o.g - o.J.T @ (ll - lu)
            if k < N:
                g = g + np.concatenate([o.B.T @ it.pi[k], o.A.T @ it.pi[k]])
                r.eq.append(o.xn - it.x[k + 1])
            if prev is not None:
                g[s.nu:] -= prev
            gsl, gsu = o.gsl - lls, o.gsu - lus
            for i in range(ni):
                if s.rev[i] >= 0:
                    gsl[s.rev[i]] -= ll[i]
                    gsu[s.rev[i]] -= lu[i]
            r.stat.append(np.concatenate([g, gsl, gsu]))
            r.ineq.append(o.fun)
            r.comp.append(lam * o.fun + tau * o.mask)
            prev = it.pi[k] if k < N else None
        mx = lambda L, f: max([float(np.max(f(a))) for a in L if len(a)] + [0.0])
        r.n_stat, r.n_eq = mx(r.stat, np.abs), mx(r.eq, np.abs)
        r.n_ineq, r.n_comp = max(0.0, mx(r.ineq, lambda a: a)), mx(r.comp, np.abs)
        r.norms = np.array([r.n_stat, r.n_eq, r.n_ineq, r.n_comp])
        return r

    # ------------------------------------------------------------ iterates
    def random_iterate(self, rng, scale=0.7, lam_scale=1.0):
        it = Obj(x=[], u=[], z=[], sl=[], su=[], pi=[], lam=[])
        for k in range(self.N + 1):
            s = self.st[k]
            it.x.append(rng.uniform(-scale, scale, s.nx))
            it.u.append(rng.uniform(-scale, scale, s.nu))
            it.sl.append(rng.uniform(0, .5, s.ns))
            it.su.append(rng.uniform(0, .5, s.ns))
            it.z.append(np.zeros(s.nz))
            it.lam.append(rng.uniform(0, lam_scale, 2 * (s.ni + s.ns)))
            if k < self.N:
                it.pi.append(rng.uniform(-1, 1, s.nx))
        return it

    def set_iterate(self, solver, it):
        for k in range(self.N + 1):
            s = self.st[k]
            solver.set(k, 'x', it.x[k])
            if s.nu:
                solver.set(k, 'u', it.u[k])
            if s.ns:
                solver.set(k, 'sl', it.sl[k])
                solver.set(k, 'su', it.su[k])
            if s.ni + s.ns:
                solver.set(k, 'lam', it.lam[k])
            if k < self.N:
                solver.set(k, 'pi', it.pi[k])

    def get_iterate(self, solver):
        it = Obj(x=[], u=[], z=[], sl=[], su=[], pi=[], lam=[])
        for k in range(self.N + 1):
            s = self.st[k]
            it.x.append(solver.get(k, 'x'))
            it.u.append(solver.get(k, 'u') if s.nu else np.zeros(0))
            it.sl.append(solver.get(k, 'sl') if s.ns else np.zeros(0))
            it.su.append(solver.get(k, 'su') if s.ns else np.zeros(0))
            it.z.append(solver.get(k, 'z') if s.nz else np.zeros(0))
            it.lam.append(solver.get(k, 'lam') if s.ni + s.ns else np.zeros(0))
            if k < self.N:
                it.pi.append(solver.get(k, 'pi'))
        return it


def make_solver(ocp, **kw):
    from acados_template import AcadosOcpSolver
    return AcadosOcpSolver(ocp, verbose=False, **kw)
