"""Zero-order robust updates compute the documented tightening.

Generated problems with a robust (zoRO) description - random uncertainty matrices, noise Jacobians, gains, selections of bounds, all ways of
passing data, all treatments of parameter uncertainty and all feedback modes - are built and linearized at random iterates.  After every
call of the update function the covariances, feedback gains and the bounds of all stages are read back and compared with a numpy
implementation of the documented recursion that uses the linearization of the independent reference model, including several calls in a row,
calls without data, skipped entries and wrong data sizes.  Bounds that are not selected must keep their values."""
import ctypes
import numpy as np
from prob import Prob, spd, make_solver

PROPERTY = 'P17'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['The update is called after a linearization (preparation phase), as documented.', 'The bounds at solver creation are the nominal bounds.',
               'Feedback is u = -K x, as in the Riccati modes and the shipped Python implementation.']
RULE = 'distinct (feedback mode, parameter mode, inputs, selected kinds of bounds) judged'
CASE_TIMEOUT = 150
FAM = [('const', {}, 26), ('param', {}, 16), ('riccati', {}, 14), ('barrier', {}, 24), ('big', {}, 12)]
KINDS = ['bu', 'bx', 'g', 'h']


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=17000023 * seed + 59 * i + 7 * sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def base(m):
    return np.array(m, float)


class Ref:
    """the documented recursion"""

    def __init__(self, d, pr, nom):
        self.d, self.pr, self.nom = d, pr, nom
        self.W, self.P0 = d.W.copy(), d.P0.copy()
        self.Sig = None if d.Sig is None else d.Sig.copy()
        N = pr.N
        self.b2 = [dict(bu=np.full(pr.st[k].nbu, 1e-4), bx=np.full(pr.st[min(max(k, 1), N)].nbx, 1e-4), g=np.full(pr.st[k].ng, 1e-4), h=np.full(pr.st[k if k in (N,) else min(1, N)].nh, 1e-4)) for k in range(N + 1)]

    def data(self, P0=None, W=None, Wadd=None, Sig=None):
        """data passed to the update; negative diagonal entries are skipped"""
        d = self.d
        if P0 is not None:
            if d.P0_in == 'diag':
                i = P0 >= 0
                self.P0[i, i] = P0[i]
            else:
                self.P0 = P0.copy()
        if W is not None:
            i = W >= 0
            self.W[i, i] = W[i]
        if Sig is not None:
            if d.Sig_in == 'diag':
                i = Sig >= 0
                self.Sig[i, i] = Sig[i]
            else:
                self.Sig = Sig.copy()
        self.Wadd = np.zeros((self.pr.N, len(self.W))) if Wadd is None else Wadd

    def rows(self, o, k, kind):
        s = self.pr.st[k]
        off = dict(bu=0, bx=s.nbu, g=s.nbu + s.nbx, h=s.nbu + s.nbx + s.ng)[kind]
        n = dict(bu=s.nbu, bx=s.nbx, g=s.ng, h=s.nh)[kind]
        J = o.J[off:off + n]
        return J[:, s.nu:], J[:, :s.nu], o.c[off:off + n]

    def gains(self, o):
        d, pr, N = self.d, self.pr, self.pr.N
        if d.fb == 'CONSTANT_FEEDBACK':
            return [d.K] * N
        K = [np.zeros((pr.nu, pr.nx)) for _ in range(N)]
        P = d.Qe.copy()
        if 'BARRIER' in d.fb:
            P = P + self.barrier(o, N)[pr.nu:, pr.nu:]
        for k in range(N - 1, 0, -1):
            A, B = o[k].A, o[k].B
            Q, R, S = d.Q, d.R, d.S
            if 'BARRIER' in d.fb:
                H = self.barrier(o, k)
                nu = pr.nu
                Q, R, S = Q + H[nu:, nu:], R + H[:nu, :nu], S + H[:nu, nu:]
            M = R + B.T @ P @ B
            if np.linalg.eigvalsh((M + M.T) / 2).min() < 1e-6:
                return None
            G = S + B.T @ P @ A
            K[k] = np.linalg.solve(M, G)
            P = Q + A.T @ P @ A - G.T @ K[k]
        return K

    def barrier(self, o, k):
        d, pr = self.d, self.pr
        nu, nx = pr.nu, pr.nx
        H = np.zeros((nu + nx, nu + nx))
        for kind in KINDS:
            for side in 'lu':
                sel = d.sel.get((kind, side, k == pr.N), [])
                if not len(sel):
                    continue
                C, D, c = self.rows(o[k], k, kind)
                nomb = self.nom[k][side + kind]
                for i in sel:
                    row = np.concatenate([np.zeros(nu) if k == pr.N else D[i], C[i]])
                    beta = np.sqrt(self.b2[k][kind][i])
                    h = self.qp[k][side + kind][i] * (1 if side == 'l' else -1) - beta
                    self.worst = max(self.worst, h)
                    w = 1 / h ** 2 if d.fb == 'RICCATI_BARRIER_1' else -1 / (2 * h * beta)
                    H += w * np.outer(row, row)
        return H

    def update(self, o, bounds):
        """bounds: those in the quadratic program; returns gains, covariances, new bounds of the selected kinds"""
        d, pr, N = self.d, self.pr, self.pr.N
        self.qp, self.worst = bounds, -1e9
        K = self.gains(o)
        if K is None:
            return None
        P = [self.P0]
        Pw, Pi = self.P0, np.zeros((pr.nx, max(pr.np, 1)))
        for k in range(N):
            AK = o[k].A - o[k].B @ K[k]
            V = d.G @ (self.W + np.diag(self.Wadd[k])) @ d.G.T
            if d.mode == 'NOISE':
                S = self.Sp[k]
                P.append(AK @ P[k] @ AK.T + V + S @ self.Sig @ S.T)
            elif d.mode == 'CONSTANT':
                Pw = AK @ Pw @ AK.T + V
                Pi = AK @ Pi[:, :pr.np] + self.Sp[k]
                P.append(Pw + Pi @ self.Sig @ Pi.T)
            else:
                P.append(AK @ P[k] @ AK.T + V)
        new = [{} for _ in range(N + 1)]
        for k in range(N + 1):
            for kind in KINDS:
                last = k == N
                both = [d.sel.get((kind, s, last), []) for s in 'lu']
                if not (len(both[0]) or len(both[1])) or (k == 0 and kind != 'bu') or (last and kind == 'bu'):
                    continue
                C, D, _ = self.rows(o[k], k, kind)
                M = C if last else C - D @ K[k]
                b2 = d.gamma ** 2 * np.einsum('ij,jk,ik->i', M, P[k], M)
                if 'BARRIER' in d.fb:
                    b2 = b2 + 1e-8
                self.b2[k][kind] = b2
                for side, sel in zip('lu', both):
                    if len(sel):
                        v = self.nom[k][side + kind].copy()
                        v[sel] += np.sqrt(b2[sel]) * (1 if side == 'l' else -1)
                        new[k][side + kind] = v
        return K, P, new


class D:
    pass


def describe(rng, pr, fam):
    from acados_template import ZoroDescription
    nx, nu, N, np_ = pr.nx, pr.nu, pr.N, pr.np
    d, z = D(), ZoroDescription()
    nw = int(rng.integers(1, nx + 1)) if rng.random() < .6 else nx
    d.G = rng.normal(size=(nx, nw))
    if nw == nx and rng.random() < .4:
        d.G = np.eye(nx)
    else:
        z.unc_jac_G_mat = d.G
    d.W = .05 * spd(rng, nw, rng.random() < .3)
    d.P0 = .1 * spd(rng, nx, rng.random() < .4)
    d.K = rng.normal(size=(nu, nx)) * .5
    d.gamma = float(rng.choice([1., .7, 2.3]))
    z.backoff_scaling_gamma = d.gamma
    z.W_mat, z.P0_mat, z.fdbk_K_mat = d.W, d.P0, d.K
    d.fb = 'CONSTANT_FEEDBACK'
    if fam == 'riccati':
        d.fb = 'RICCATI_CONSTANT_COST'
    elif fam == 'barrier':
        d.fb = str(rng.choice(['RICCATI_BARRIER_1', 'RICCATI_BARRIER_2']))
    elif fam in ('big', 'param') and rng.random() < .4:
        d.fb = 'RICCATI_CONSTANT_COST'
    z.feedback_optimization_mode = d.fb
    if d.fb != 'CONSTANT_FEEDBACK':
        H = spd(rng, nx + nu, False, .5, 3.)
        d.Q, d.R, d.S = H[nu:, nu:], H[:nu, :nu], H[:nu, nu:]
        d.Qe = d.Q
        z.riccati_Q_const, z.riccati_R_const, z.riccati_S_const = d.Q, d.R, d.S
        if rng.random() < .6:
            d.Qe = spd(rng, nx)
            z.riccati_Q_const_e = d.Qe
        if rng.random() < .4:
            z.fdbk_K_mat = None
        z.output_riccati_t = bool(rng.random() < .3)
    d.mode, d.Sig, d.Sig_in = 'NONE', None, None
    if fam == 'param' or (fam == 'big' and np_ and pr.f['integrator'] in ('ERK', 'IRK')):
        d.mode = str(rng.choice(['NOISE', 'CONSTANT']))
        d.Sig = .2 * spd(rng, np_)
        d.Sig_in = [None, 'diag', 'full'][int(rng.integers(3))]
        z.nonlinear_uncertainty_mode = d.mode
        if d.Sig_in is None or rng.random() < .5:
            z.Sigma_p_mat = d.Sig
        else:
            d.Sig = np.zeros((np_, np_))
        z.input_Sigma_p_diag, z.input_Sigma_p = d.Sig_in == 'diag', d.Sig_in == 'full'
    d.P0_in = [None, 'diag', 'full'][int(rng.integers(3))]
    z.input_P0_diag, z.input_P0 = d.P0_in == 'diag', d.P0_in == 'full'
    d.W_in, d.Wadd_in = bool(rng.random() < .4), bool(rng.random() < .4)
    z.input_W_diag, z.input_W_add_diag = d.W_in, d.Wadd_in
    d.P_out = bool(rng.random() < .5)
    z.output_P_matrices = d.P_out
    # selection
    d.sel = {}
    o = pr.pd['p']
    e = pr.pd['e']
    for kind in KINDS:
        for last in (False, True):
            n = {'bu': len(o.idxbu), 'bx': len(o.idxbx), 'g': len(o.C), 'h': pr.hk['p'].n}[kind] if not last else {'bu': 0, 'bx': len(e.idxbx), 'g': len(e.C), 'h': pr.hk['e'].n}[kind]
            for side in 'lu':
                m = int(rng.integers(0, n + 1)) if rng.random() < .8 else 0
                idx = [int(q) for q in rng.permutation(n)[:m]]
                d.sel[kind, side, last] = idx
                if not (last and kind == 'bu'):
                    setattr(z, 'idx_%s%s%s_t' % (side, kind, '_e' if last else ''), idx)
    return d, z


def run(case, ob):
    rng = np.random.default_rng(case['seed'])
    fam = case['fam']
    fix = dict(constr='BGH', soft=0, onesided=False, hess='GAUSS_NEWTON', x0='fixed', N=int(rng.integers(2, 7)))
    if fam == 'param':
        fix.update(integrator=str(rng.choice(['ERK', 'IRK'])), np=int(rng.choice([1, 3])))
    if fam in ('barrier', 'big'):
        fix.update(nx=int(rng.integers(2, 5)))
    if fam == 'big':
        fix.update(ng=2, nh=2, nh_e=2, bx=True, bu=True)
    elif fam == 'barrier':
        fix.update(nh=int(rng.integers(0, 3)), nh_e=int(rng.integers(0, 3)))
    fix.update(case.get('fix', {}))
    pr = Prob(case['seed'], **fix)
    if pr.f['integrator'] == 'IRK' and rng.random() < .3 and fam != 'param':
        pr = Prob(case['seed'], **dict(fix, nz=1, integrator='IRK'))
    N, nx, nu = pr.N, pr.nx, pr.nu
    d, z = describe(rng, pr, fam)
    ocp = pr.make_ocp('ocp')
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP_RTI'
    so.custom_update_filename = 'custom_update_function.c'
    so.custom_update_header_filename = 'custom_update_function.h'
    so.custom_update_copy = False
    so.custom_templates = [('custom_update_function_zoro_template.in.c', 'custom_update_function.c'), ('custom_update_function_zoro_template.in.h', 'custom_update_function.h')]
    if d.mode != 'NONE':
        ocp.code_gen_options.sens_forw_p = True
    ocp.zoro_description = z
    if 'BARRIER' in d.fb:        # nominal constraint values have to be strictly feasible
        for f in ('lbu', 'lbx', 'lg', 'lh', 'ubu', 'ubx', 'ug', 'uh'):
            sg = -6. if f[0] == 'l' else 6.
            for k in range(N + 1):
                if k or f[1:] in ('bu', 'g'):
                    setattr(pr.st[k], f, getattr(pr.st[k], f) + sg)
            for suf in ('', '_e'):
                if f[1:] == 'bu' and suf:
                    continue
                v = getattr(ocp.constraints, f + suf)
                if np.size(v):
                    setattr(ocp.constraints, f + suf, np.array(v, float).ravel() + sg)
    who = '%s %s P0=%s W=%d Wadd=%d Sig=%s' % (d.fb, d.mode, d.P0_in, d.W_in, d.Wadd_in, d.Sig_in) + ' sel=%s ' % ''.join('%s%s%s%d ' % (s, k, 'e' if e else '', len(v)) for (k, s, e), v in d.sel.items() if v) + pr.tag()
    s = make_solver(ocp)
    read = lambda: [{f: np.array(s.constraints_get(k, f)).ravel() for f in have(k)} for k in range(N + 1)]

    def have(k):
        q = pr.st[k]
        return [sd + kd for kd, n in (('bu', q.nbu), ('bx', q.nbx), ('g', q.ng), ('h', q.nh)) if n for sd in 'lu']
    ob.state(d.fb, d.mode, d.P0_in, d.W_in, d.Wadd_in, d.Sig_in, tuple(k for k, v in d.sel.items() if v))
    nom = [{f: np.array(getattr(pr.st[k], f), float).copy() for f in have(k)} for k in range(N + 1)]
    # stages 1..N-1 share nominal values; stage 0 those of the inputs
    ref = Ref(d, pr, nom)
    cur = read()
    for k in range(N + 1):
        for f in cur[k]:
            ob.close(cur[k][f], nom[k][f], 1e-12, 'initial', '%s: initial %s of stage %d' % (who, f, k))
    size = {None: 0, 'diag': nx, 'full': nx * nx}[d.P0_in] + len(d.W) * d.W_in + N * len(d.W) * d.Wadd_in + {None: 0, 'diag': pr.np, 'full': pr.np ** 2}[d.Sig_in] + (nx * nx * (N + 1)) * d.P_out + bool(z.output_riccati_t)
    ob.check(z.data_size == size, 'data_size', '%s: data size %s, documented %d' % (who, z.data_size, size))
    lib = s.shared_lib
    getK = getattr(lib, '%s_acados_get_zoRO_K_matrices' % ocp.name)
    getK.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_double), ctypes.c_int]
    own = [f for f in ('lbu', 'ubu', 'lbx', 'ubx', 'lg', 'ug', 'lh', 'uh')]
    streamed = False
    for rep in range(5):
        it = pr.random_iterate(rng, scale=.5)
        pr.set_iterate(s, it)
        if pr.np and rng.random() < .5:
            for k in range(N + 1):
                pr.st[k].p = rng.uniform(-.5, .5, pr.np)
                s.set(k, 'p', pr.st[k].p)
        # bounds that are not part of the description may change
        k = int(rng.integers(1, N + 1))
        free = [f for f in have(k) if not d.sel.get((f[1:], f[0], k == N), [])]
        if free and rng.random() < .5:
            f = str(rng.choice(free))
            v = cur[k][f] + rng.uniform(0, .3, len(cur[k][f])) * (-1 if f[0] == 'l' else 1)
            s.constraints_set(k, f, v)
            cur[k][f] = v
            ref.nom[k][f] = v.copy()
        s.options_set('rti_phase', 0 if 'BARRIER' in d.fb and rng.random() < .8 else 1)
        s.solve()
        o = []
        for k in range(N + 1):
            o.append(pr.stage(k, it.x[k], it.u[k], z=it.z[k] if k < N else None))
        if d.mode != 'NONE':
            ref.Sp = []
            for k in range(N):
                q = pr.st[k]
                S = np.zeros((nx, pr.np))
                p0, e = q.p.copy(), 1e-5
                for j in range(pr.np):
                    q.p = p0.copy(); q.p[j] += e
                    a = pr.step(k, it.x[k], it.u[k])[0]
                    q.p = p0.copy(); q.p[j] -= e
                    S[:, j] = (a - pr.step(k, it.x[k], it.u[k])[0]) / 2 / e
                q.p = p0
                ref.Sp.append(S)
                ob.close(s.get(k, 'S_p'), S, 1e-6, 'S_p', '%s: parameter sensitivity of stage %d' % (who, k))
        for k in range(N):
            ob.close(s.get_from_qp_in(k, 'A'), o[k].A, 1e-7, 'A', '%s: A of stage %d' % (who, k))
        # data
        stream = size > 0 and (streamed or rng.random() < .7)
        if size and rng.random() < .2:
            n = size + int(rng.choice([-1, 1, 3]))
            if n > 0:
                st = s.custom_update(np.zeros(n))
                ob.check(st != 0, 'size', '%s: data of size %d instead of %d accepted' % (who, n, size))
        buf, kw = [], {}
        if stream:
            streamed = True
            sk = lambda v: np.where(rng.random(len(v)) < .2, -1., np.where(rng.random(len(v)) < .15, 0., v))
            if d.P0_in == 'diag':
                kw['P0'] = sk(rng.uniform(.01, .3, nx))
                buf.append(kw['P0'])
            elif d.P0_in == 'full':
                kw['P0'] = .1 * spd(rng, nx)
                buf.append(kw['P0'].ravel('F'))
            if d.W_in:
                kw['W'] = sk(rng.uniform(.05, .3, len(d.W)))
                buf.append(kw['W'])
            if d.Wadd_in:
                kw['Wadd'] = rng.uniform(0, .2, (N, len(d.W))) * (rng.random((N, len(d.W))) > .1)
                buf.append(kw['Wadd'].ravel())
            if d.Sig_in == 'diag':
                kw['Sig'] = sk(rng.uniform(.05, .3, pr.np))
                buf.append(kw['Sig'])
            elif d.Sig_in == 'full':
                kw['Sig'] = .2 * spd(rng, pr.np)
                buf.append(kw['Sig'].ravel('F'))
            buf.append(np.full(size - sum(map(len, buf)), 7.7))
        ref.data(**kw)
        data = np.concatenate(buf) if buf else np.zeros(0)
        qp = [{f: np.array(s.get_from_qp_in(k, f)).ravel() for f in have(k) if f[1:] in ('bu', 'g') or k and f[1:] == 'bx'} for k in range(N + 1)] if 'BARRIER' in d.fb else None
        for k in range(N + 1 if qp else 0):      # constraint functions h follow the linear ones
            for sd in 'lu':
                if pr.st[k].ng + pr.st[k].nh:
                    v = np.array(s.get_from_qp_in(k, sd + 'g')).ravel()
                    qp[k][sd + 'g'], qp[k][sd + 'h'] = v[:pr.st[k].ng], v[pr.st[k].ng:]
        r = ref.update(o, qp)
        if r is None or ref.worst > -1e-2 and 'BARRIER' in d.fb:
            ob.count('barrier not positive')
            return
        K, P, new = r
        ev = min(np.linalg.eigvalsh((q + q.T) / 2).min() for q in P)      # partially updated diagonals
        exact = 'BARRIER' not in d.fb and ev > -1e-13 and np.array_equal(P[0], np.diag(np.diag(P[0]))) and min([1.] + [np.min(v) for b in ref.b2[1:] for v in b.values() if np.size(v)]) > 1e-10
        if ev < 1e-9 and not exact:
            ob.count('covariance not positive definite')
            return
        st = s.custom_update(data)
        ob.count('updates')
        ob.check(st == 0, 'status', '%s: update returned %d' % (who, st))
        tol = 1e-6 if 'BARRIER' in d.fb or d.mode != 'NONE' else 1e-7
        sc = 1 + max(np.max(np.abs(v)) for v in P)
        Kg = np.zeros(N * nu * nx)
        getK(s.capsule, Kg.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), Kg.size)
        for k in range(N):
            ob.close(Kg[k * nu * nx:(k + 1) * nu * nx].reshape(nu, nx, order='F'), K[k], tol, 'K', '%s: call %d, gain of stage %d' % (who, rep, k))
        for k in range(N + 1):
            ob.close(s.get(k, 'zoRO_Pk_mats'), P[k], tol, 'P', '%s: call %d, covariance of stage %d' % (who, rep, k))
        if stream and d.P_out:
            out = data[len(data) - nx * nx * (N + 1) - bool(z.output_riccati_t):][:nx * nx * (N + 1)]
            for k in range(N + 1):
                ob.close(out[k * nx * nx:(k + 1) * nx * nx].reshape(nx, nx, order='F'), P[k], tol, 'P_out', '%s: call %d, reported covariance of stage %d' % (who, rep, k))
        if stream:
            m = sum(len(b) for b in buf[:-1])
            ob.check(np.array_equal(data[:m], np.concatenate(buf)[:m]), 'data', '%s: input data changed' % who)
        for k in range(N + 1):
            for f, v in new[k].items():
                cur[k][f] = v
        now = read()
        for k in range(N + 1):
            for f in now[k]:
                sel = len(d.sel.get((f[1:], f[0], k == N), [])) and f in new[k]
                ob.close(now[k][f], cur[k][f], tol * sc if sel else 1e-13, 'bound' if sel else 'other', '%s: call %d, %s of stage %d' % (who, rep, f, k))
                if sel:
                    ob.count('tightened bounds')
                    cur[k][f] = now[k][f]
        if len(ob.violations):
            return
        if rng.random() < .3 and rep < 4:      # a solve in between
            s.options_set('rti_phase', 2)
            s.solve()
