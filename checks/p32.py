"""Random histories of assignments, horizon changes and look-ups run on the parameter manager
next to a shadow model that keeps its own copies: every delivered stage vector must be the
concatenation of the values assigned (or the defaults), wrong names, shapes and stages must be
refused, and changing an array after it was handed over must not change any stage.  Penalty
functions are evaluated at hostile points (kinks, far away, tiny widths) against the closed
formulas of their documentation; the cost/constraint evaluator and the model with a cost state
are evaluated at random points of random problems against the independent reference problem;
index helpers are compared with their definition."""
import contextlib
import io
import warnings

import casadi as ca
import numpy as np

from prob import Prob
from vp import Inconclusive, Observer

PROPERTY = 'P32'
VARIANT = None
LEVEL = 'monitored'
ASSUMPTIONS = ['cost/constraint evaluator: problems without algebraic variables, BGP constraints, reversed slack '
               'indices and time dependence (refused or undocumented); the cost of the slacks of stage 0 may be left out, '
               'as its source says']
RULE = 'distinct (family, operation or problem type)'


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for fam, n in (('pm', 60 if q else 800), ('huber', 30 if q else 300), ('eval', 40 if q else 400),
                   ('cstate', 24 if q else 240), ('idx', 6 if q else 40)):
        for i in range(n):
            out.append(dict(id='%s%d_%d' % (fam, seed, i), fam=fam, seed=2500007*seed+617*i+sum(map(ord, fam))))
    return out


# ---------------------------------------------------------------- parameter manager
def pm(case, ob):
    from acados_template import AcadosParam, AcadosParamManager
    rng = np.random.default_rng(case['seed'])
    names = ['Q', 'a_b', 'x', 'zeta', 'R', 'k1', 'B'][:int(rng.integers(1, 7))]
    rng.shuffle(names)
    shp = {n: [(1, 1), (3, 1), (1, 3), (2, 2), (2, 3), (4, 1)][int(rng.integers(6))] for n in names}
    given = {n: rng.normal(size=shp[n]) for n in names}
    if rng.random() < .3:
        n = names[0]
        given[n] = rng.integers(-3, 4, shp[n])
    default = {n: np.array(given[n], dtype=float) for n in names}
    N = int(rng.choice([0, 0, 1, 2, 5, 8]))
    sx = bool(rng.integers(2))
    man = AcadosParamManager([AcadosParam(n, given[n]) for n in names], N, sx) if N or rng.random() < .5 else \
        AcadosParamManager([AcadosParam(n, given[n]) for n in names], use_SX=sx)
    val = [{n: default[n].copy() for n in names} for _ in range(N+1)]
    hist = ['init%d' % N]

    def audit():
        ob.check(man.N_horizon == N, 'N', 'horizon %s' % man.N_horizon)
        exp = [np.concatenate([v[n].flatten('F') for n in names]) for v in val]
        for k in range(N+1):
            g = np.asarray(man.get_p_stagewise_values(k))
            ob.check(g.size == exp[k].size and np.array_equal(g.ravel(), exp[k]), 'stagewise/'+hist[-1].split()[0],
                     lambda: 'stage %d of %d delivers %s, assigned %s; history %s' % (k, N, g.ravel(), exp[k], hist[-6:]))
            n = names[int(rng.integers(len(names)))]
            ob.check(np.array_equal(np.asarray(man.get_value(n, k)), val[k][n]), 'get_value', lambda: '%s at %d: %s, expected %s' % (n, k, man.get_value(n, k), val[k][n]))
        f = np.asarray(man.get_p_stagewise_values_flat()).ravel()
        ob.check(np.array_equal(f, np.concatenate(exp)), 'flat', 'flat values %s expected %s' % (f, exp))
        ob.count('stages_compared', N+1)

    e = man.get_p_stagewise_expression()
    ob.check(e.shape == (sum(a*b for a, b in shp.values()), 1), 'expression', 'shape %s' % (e.shape,))
    ex = [man.get_expression(n) for n in names]
    ob.check(all(x.shape == shp[n] and isinstance(x, ca.SX if sx else ca.MX) for x, n in zip(ex, names)), 'expression', 'shapes')
    # the vector fed with the delivered values gives back the matrices
    f = ca.Function('f', ex, [e])
    audit()
    for _ in range(25):
        op = str(rng.choice(['set', 'set', 'set', 'N', 'N', 'mutate', 'bad', 'range', 'fn']))
        k = int(rng.integers(N+1))
        n = names[int(rng.integers(len(names)))]
        hist.append('%s %s %d' % (op, n, k))
        if op == 'set':
            v = rng.normal(size=shp[n])
            if rng.random() < .2:
                v = np.asfortranarray(v)
            man.set_value(n, v, k)
            val[k][n] = v.copy()
            if rng.random() < .5:
                hist[-1] = 'alias %s %d' % (n, k)
                v += 1.
        elif op == 'N':
            M = int(rng.integers(0, 9))
            hist[-1] = 'N%s %d->%d' % ('+' if M > N else '-', N, M)
            man.N_horizon = M
            val = val[:M+1]+[{m: default[m].copy() for m in names} for _ in range(M-N)]
            N = M
        elif op == 'mutate':
            # the caller goes on using the array it gave for the defaults
            given[n] += 1
        elif op == 'bad':
            w = str(rng.choice(['shape', 'name', 'size']))
            hist[-1] = 'bad'+w
            try:
                if w == 'name':
                    man.set_value('nosuch', np.zeros(shp[n]), k)
                elif w == 'size':
                    man.set_value(n, np.zeros((shp[n][0]+1, shp[n][1])), k)
                elif shp[n][0] != shp[n][1]:
                    man.set_value(n, np.zeros(shp[n][::-1]), k)
                else:
                    continue
                ob.violation('accepted/'+w, 'a value with a wrong %s was accepted' % w)
            except Exception:
                pass
        elif op == 'range':
            for j in (-1, N+1, N+3):
                for fn in (lambda: man.get_value(n, j), lambda: man.set_value(n, default[n], j), lambda: man.get_p_stagewise_values(j)):
                    try:
                        fn()
                        ob.violation('range', 'stage %d of %d accepted' % (j, N))
                    except IndexError:
                        pass
        elif op == 'fn':
            r = f(*[val[k][m] for m in names]).full().ravel()
            ob.check(np.array_equal(r, np.asarray(man.get_p_stagewise_values(k)).ravel()), 'order',
                     'the expression and the values have different orders')
        audit()
        ob.state('pm', hist[-1].split()[0], N > 0, len(names))


# ---------------------------------------------------------------- penalties
def huber(case, ob):
    from acados_template.penalty_utils import huber_loss, one_sided_huber_penalty, symmetric_huber_penalty
    rng = np.random.default_rng(case['seed'])
    d, t, w = 10**rng.uniform(-3, 1), 10**rng.uniform(-2, 3), 10**rng.uniform(-2, 2)
    u = ca.SX.sym('u') if rng.random() < .6 else ca.MX.sym('u')
    use_w = bool(rng.integers(2))
    mh = float(rng.choice([0., 0., .3]))
    tau = 2*w*d if use_w else t
    kw = dict(w=w) if use_w else dict(tau=t)
    s = tau/d
    base = np.concatenate([rng.uniform(-3*d, 5*d, 20), rng.uniform(-8, 8, 20), [0., 1e-9, -1e-9, 1e4, -1e4]])

    def half(v):
        """penalty of v <= 0: zero, quadratic on (0, 2d), linear with slope tau"""
        h = .5*s
        a = np.where(v <= 0, 0, np.where(v < 2*d, .5*h*v**2, tau*(v-2*d)+.5*h*4*d*d))
        g = np.where(v <= 0, 0, np.where(v < 2*d, h*v, tau))
        H = np.where((v <= 0) | (v >= 2*d), 0, h)
        return a, g, H

    def cmp(name, ex, pts, want, kinks, xg):
        F = ca.Function('F', [u], list(ex))
        for i, p in enumerate(pts):
            if any(abs(p-k) < 1e-7*(1+abs(k)) for k in kinks):
                got = [float(x) for x in F(p)]
                ob.check(abs(got[0]-want[0][i]) <= 1e-9*(tau*d+abs(want[0][i])+tau*abs(p)), name+'/kink', 'value at kink %g: %r expected %r' % (p, got[0], want[0][i]))
                continue
            got = [float(x) for x in F(p)]
            sc = tau*(abs(p)+d+1)
            ob.check(abs(got[0]-want[0][i]) <= 1e-10*sc, name+'/value', lambda: 'at %g: %r expected %r (delta %g tau %g %s)' % (p, got[0], want[0][i], d, tau, kw))
            ob.check(abs(got[1]-want[1][i]) <= 1e-9*(tau*(1+abs(p)/d)), name+'/gradient', lambda: 'at %g: %r expected %r' % (p, got[1], want[1][i]))
            ob.check(abs(got[2]-want[2][i]) <= 1e-9*s, name+'/hessian', lambda: 'at %g: %r expected %r' % (p, got[2], want[2][i]))
            ob.check(abs(got[3]-xg[i]) <= 1e-9*s*(1+abs(p)/d), name+'/xgn', lambda: 'at %g: %r expected %r' % (p, got[3], xg[i]))
            ob.count('points')
        ob.state(name, use_w, mh > 0, type(u).__name__, int(np.log10(d)))

    # loss
    pts = np.concatenate([base, [d, -d]])
    val = (tau/d)*np.where(abs(pts) < d, .5*pts**2, d*(abs(pts)-.5*d))
    gr = s*np.clip(pts, -d, d)
    H = np.where(abs(pts) < d, s, 0)
    xg = np.where(abs(pts) < d, s, tau/np.maximum(abs(pts), d))
    cmp('loss', huber_loss(u, d, tau), pts, (val, gr, H), (d, -d), xg)

    def xgn(v):
        # half of the generalised Gauss-Newton Hessian of the loss shifted by d
        x = .5*np.where(abs(v-d) < d, s, tau/np.maximum(abs(v-d), 1e-300))
        return np.maximum(x, mh) if mh > 0 else x

    pts = np.concatenate([base, [2*d, 1.7*d]])
    a, g, H = half(pts)
    cmp('one_sided', one_sided_huber_penalty(u, d, min_hess=mh, **kw), pts, (a, g, np.maximum(H, mh) if mh > 0 else H), (0, 2*d), xgn(pts))
    pts = np.concatenate([base, [1., -1., 1+2*d, -1-2*d, 1+d, -1-d, 1+.1*d, -1-.3*d]])
    v = abs(pts)-1
    a, g, H = half(v)
    cmp('symmetric', symmetric_huber_penalty(u, d, min_hess=mh, **kw), pts, (a, np.sign(pts)*g, np.maximum(H, mh) if mh > 0 else H), (1, -1, 1+2*d, -1-2*d), xgn(v))
    for fn in (one_sided_huber_penalty, symmetric_huber_penalty):
        for kk in (dict(), dict(tau=1., w=1.)):
            try:
                fn(u, d, **kk)
                ob.violation('arguments', '%s accepted %s' % (fn.__name__, kk))
            except ValueError:
                pass
        try:
            fn(u, -d, w=1.)
            ob.violation('arguments', 'negative width accepted')
        except ValueError:
            pass


# ---------------------------------------------------------------- cost and constraint evaluator
def problem(case, rng, **fix):
    fix = dict(dict(nz=0, constr='BGH', idxs_rev=False, time=False, slackbnd=False, cost_0='same'), **fix)
    fix.setdefault('np', int(rng.integers(0, 4)))
    fix.setdefault('npg', int(rng.integers(0, 3)))
    fix.setdefault('soft', int(rng.integers(0, 3)))
    return Prob(case['seed'], **fix)


def slack_cost(o, lo, up):
    return o.zl@lo+.5*o.Zl@lo**2+o.zu@up+.5*o.Zu@up**2


def rows(pr, k, x, u):
    """lower and upper violation of all rows (bu, bx, g, h) of stage k and the slacked ones"""
    o = pr.stage(k, x, u, sl=np.zeros(pr.st[k].ns), su=np.zeros(pr.st[k].ns))
    return o


def evaluator(case, ob):
    from acados_template import AcadosCostConstraintEvaluator
    from acados_template.acados_ocp_iterate import AcadosOcpIterate
    rng = np.random.default_rng(case['seed']+3)
    pr = problem(case, rng)
    N = pr.N
    with contextlib.redirect_stdout(io.StringIO()):
        ocp = pr.make_ocp()
        ev = AcadosCostConstraintEvaluator(ocp)
    P, E = pr.pd['p'], pr.pd['e']

    def viol(k, x, u, p):
        pr.st[k].p = p
        s = pr.st[k]
        o = pr.stage(k, x, u if k < N else np.zeros(0), sl=np.zeros(s.ns), su=np.zeros(s.ns))
        return o, s

    def bounds(kd, x, u, p, pg):
        """violations computed from the problem data themselves"""
        o, h = pr.pd[kd], pr.hk[kd]
        r, lo, up = [], [], []
        if kd != 'e':
            r.append(u[o.idxbu])
            lo.append(o.lbu)
            up.append(o.ubu)
        r.append(x[o.idxbx])
        lo.append(o.lbx)
        up.append(o.ubx)
        if o.C.shape[0]:
            r.append(o.C@x+(o.D@u if kd != 'e' else 0))
            lo.append(o.lg)
            up.append(o.ug)
        if h.n:
            F = ca.Function('h', [pr.x, pr.u, pr.p, pr.pg], [h.h])
            r.append(F(x, u, p, pg).full().ravel())
            lo.append(o.lh)
            up.append(o.uh)
        r, lo, up = map(np.concatenate, (r, lo, up))
        nbu = len(o.idxbu) if kd != 'e' else 0
        nbx, ng = len(o.idxbx), o.C.shape[0]
        idx = np.concatenate([o.sbu if kd != 'e' else [], np.asarray(o.sbx)+nbu, np.asarray(o.sg)+nbu+nbx, np.asarray(o.sh)+nbu+nbx+ng]).astype(int)
        return np.maximum(lo-r, 0), np.maximum(r-up, 0), idx

    def lcost(k, x, u, p, pg):
        kd = 'e' if k == N else 'p'
        c = pr.ck[kd]
        o = pr.pd[kd]
        u = u if k < N else np.zeros(pr.nu)

        def val(e):
            return ca.Function('e', [pr.x, pr.u, pr.p, pr.pg], [e])(x, u, p, pg).full().ravel()
        if c.type == 'EXTERNAL':
            return val(c.expr)[0]
        if c.type == 'LINEAR_LS':
            r = c.Vx@x+(c.Vu@u if k < N else 0)-o.yref
        else:
            r = val(c.y)-o.yref
        if c.type == 'CONVEX_OVER_NONLINEAR':
            return float(ca.Function('psi', [c.r, pr.p, pr.pg] if not isinstance(c.r, ca.MX) or True else [], [c.psi])(r, p, pg))
        return .5*r@o.W@r

    pdef = pr.pval
    for rep in range(3):
        given = rep > 0
        pm_ = np.tile(pdef[:, None], (1, N+1))+(rng.uniform(-.4, .4, (pr.np, N+1)) if given else 0)
        pg = pr.pgval+(rng.uniform(-.4, .4, pr.npg) if given else 0)
        if given:
            # as documented, the evaluator gets the values of all stages
            pgive = np.asarray(ev.parameter_values)
            if pgive.ndim == 2 and pgive.shape[1] == N:
                pm_[:, N] = pm_[:, N-1]
            pgive = pm_[:, :pgive.shape[1]].copy() if pgive.ndim == 2 else pgive
            kw = dict(p=pgive, p_global=pg)
        else:
            kw = {}
        X = rng.uniform(-1.2, 1.2, (N+1, pr.nx))
        U = rng.uniform(-1.2, 1.2, (N, pr.nu))
        tot = tot0 = 0.0
        for k in range(N+1):
            x, u, p = X[k], (U[k] if k < N else np.zeros(pr.nu)), pm_[:, k]
            kd = 'e' if k == N else 'p'
            l, v, idx = bounds(kd, x, u, p, pg)
            o = pr.pd[kd]
            sc = pr.scal[k]
            c = lcost(k, x, u, p, pg)*sc
            s = slack_cost(o, l[idx], v[idx])*sc if len(idx) else 0.
            tot += c+s
            tot0 += c+(s if k else 0)
            if k == N:
                continue
            r = ev.evaluate(x, u, step=k, **kw)
            ob.close(r['cost_without_slacks'], c, 1e-9, 'cost', 'cost of stage %d of %s (parameters %s, np %d)' % (k, pr.tag(), 'given' if given else 'default', pr.np))
            ob.close(r['cost_slacks'], s, 1e-9, 'slack', 'slack cost of stage %d: %s' % (k, pr.tag()))
            ob.close(r['cost'], c+s, 1e-9, 'cost', 'total cost of stage %d: %s' % (k, pr.tag()))
            hard = np.setdiff1d(np.arange(len(l)), idx)
            ob.close(np.asarray(r['violation_soft_constraints']).ravel(), np.concatenate([l[idx], v[idx]]), 1e-9, 'soft', 'soft violations of stage %d: %s' % (k, pr.tag()))
            ob.close(np.asarray(r['violation_hard_constraints']).ravel(), np.concatenate([l[hard], v[hard]]), 1e-9, 'hard', 'hard violations of stage %d: %s' % (k, pr.tag()))
            ob.count('points')
        it = AcadosOcpIterate(x_traj=list(X), u_traj=list(U), z_traj=[], sl_traj=[], su_traj=[], pi_traj=[], lam_traj=[])
        got = float(np.asarray(ev.evaluate_ocp_cost(it, **kw)).ravel()[0])
        ob.check(min(abs(got-tot), abs(got-tot0)) <= 1e-8*(1+abs(tot)), 'ocp_cost', 'cost of the trajectory %r, expected %r (or %r without slacks of stage 0): %s, ns_e %d, np %d %s' % (got, tot, tot0, pr.tag(), pr.pd['e'].ns, pr.np, 'given' if given else 'default'))
        ob.state('eval', pr.f['cost'], pr.f['cost_e'], pr.f['soft'], given, pr.np > 1, pr.pd['e'].ns > 1)


# ---------------------------------------------------------------- model with a cost state
def cstate(case, ob):
    from acados_template.mpc_utils import create_model_with_cost_state
    rng = np.random.default_rng(case['seed']+3)
    pr = problem(case, rng, integrator='ERK')
    with contextlib.redirect_stdout(io.StringIO()):
        ocp = pr.make_ocp()
        if rng.random() < .7:
            ocp.make_consistent()
        m, pv = create_model_with_cost_state(ocp)
    o, h, c = pr.pd['p'], pr.hk['p'], pr.ck['p']
    ob.check(np.array_equal(np.asarray(pv), pr.pval), 'parameters', 'parameter values')
    ob.check(m.x.shape[0] == pr.nx+1 and ocp.model.x.shape[0] == pr.nx, 'state', 'number of states')
    F = ca.Function('F', [m.x, m.u, m.p if pr.np else pr.p, pr.pg], [m.f_expl_expr])
    G = ca.Function('G', [m.x, m.xdot, m.u, m.p if pr.np else pr.p, pr.pg], [m.f_impl_expr])
    f0 = ca.Function('f0', [pr.x, pr.u, pr.p, pr.pg], [pr.f_expl])
    g0 = ca.Function('g0', [pr.x, pr.xdot, pr.u, pr.p, pr.pg], [pr.f_impl])
    for _ in range(6):
        x, u, p, pg = rng.uniform(-1.2, 1.2, pr.nx), rng.uniform(-1.2, 1.2, pr.nu), rng.normal(size=pr.np)*.4, rng.normal(size=pr.npg)*.4
        xd = rng.normal(size=pr.nx)
        cs, cd = rng.normal(size=2)

        def val(e):
            return ca.Function('e', [pr.x, pr.u, pr.p, pr.pg], [e])(x, u, p, pg).full().ravel()
        if c.type == 'EXTERNAL':
            l = val(c.expr)[0]
        else:
            r = (c.Vx@x+c.Vu@u if c.type == 'LINEAR_LS' else val(c.y))-o.yref
            if c.type == 'CONVEX_OVER_NONLINEAR':
                l = float(ca.Function('psi', [c.r, pr.p, pr.pg], [c.psi])(r, p, pg))
            else:
                l = .5*r@o.W@r
        rr = np.concatenate([u[o.idxbu], x[o.idxbx], o.C@x+o.D@u if o.C.shape[0] else [], val(h.h) if h.n else []])
        lo = np.concatenate([o.lbu, o.lbx, o.lg if o.C.shape[0] else [], o.lh if h.n else []])
        up = np.concatenate([o.ubu, o.ubx, o.ug if o.C.shape[0] else [], o.uh if h.n else []])
        nbu, nbx, ng = len(o.idxbu), len(o.idxbx), o.C.shape[0]
        idx = np.concatenate([o.sbu, np.asarray(o.sbx)+nbu, np.asarray(o.sg)+nbu+nbx, np.asarray(o.sh)+nbu+nbx+ng]).astype(int)
        if len(idx):
            l = l+slack_cost(o, np.maximum(lo-rr, 0)[idx], np.maximum(rr-up, 0)[idx])
        got = F(np.append(x, cs), u, p, pg).full().ravel()
        ob.close(got[:-1], f0(x, u, p, pg).full().ravel(), 1e-12, 'dynamics', 'dynamics of the model')
        ob.close(got[-1], l, 1e-9, 'cost', 'derivative of the cost state %r, cost %r: %s' % (got[-1], l, pr.tag()))
        got = G(np.append(x, cs), np.append(xd, cd), u, p, pg).full().ravel()
        ob.close(got[:-1], g0(x, xd, u, p, pg).full().ravel(), 1e-12, 'dynamics', 'implicit dynamics of the model')
        ob.check(abs(abs(got[-1])-abs(cd-l)) <= 1e-9*(1+abs(l)), 'cost', 'implicit cost state %r, expected %r: %s' % (got[-1], cd-l, pr.tag()))
        ob.count('points')
    ob.state('cstate', c.type, pr.f['soft'], pr.np > 0, pr.npg > 0)


# ---------------------------------------------------------------- index helpers
def idx(case, ob):
    from acados_template.utils import J_to_idx, J_to_idx_slack
    from acados_template import mpc_utils
    rng = np.random.default_rng(case['seed'])
    for _ in range(40):
        n, m = int(rng.integers(1, 8)), int(rng.integers(0, 6))
        perm = rng.integers(0, n, m)
        J = np.zeros((m, n))
        J[np.arange(m), perm] = 1
        for nm, fn in (('utils', lambda A: J_to_idx(A)), ('mpc', lambda A: mpc_utils.J_to_idx(ca.DM(A)))):
            if m:
                ob.check(np.array_equal(np.asarray(fn(J)).astype(int), perm), 'J_to_idx', '%s: %s of %s' % (nm, fn(J), J))
                B = J.copy()
                i = int(rng.integers(m))
                w = int(rng.integers(3))
                if w == 0:
                    B[i] *= 2.
                elif w == 1:
                    B[i] = 0
                elif n > 1:
                    B[i, (perm[i]+1) % n] = 1
                else:
                    continue
                try:
                    fn(B)
                    ob.violation('J_to_idx', '%s accepted %s' % (nm, B))
                except Exception:
                    pass
        ns = int(rng.integers(0, n+1))
        sel = np.sort(rng.permutation(n)[:ns])
        J = np.zeros((n, ns))
        J[sel, np.arange(ns)] = 1
        ob.check(np.array_equal(np.asarray(J_to_idx_slack(J)).astype(int), sel), 'slack', '%s of %s' % (J_to_idx_slack(J), J))
        if ns and ns < n:
            B = J.copy()
            w = int(rng.integers(3))
            if w == 0:
                B[sel[0]] = 0
            elif w == 1:
                B[sel[0]] *= -1
            else:
                B[[k for k in range(n) if k not in sel][0], 0] = 1
            try:
                J_to_idx_slack(B)
                ob.violation('slack', 'accepted %s' % B)
            except Exception:
                pass
        ob.count('points')
        ob.state('idx', n, m, ns)


def run(case, ob):
    warnings.simplefilter('ignore')
    dict(pm=pm, huber=huber, eval=evaluator, cstate=cstate, idx=idx)[case['fam']](case, ob)
