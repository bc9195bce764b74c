"""QP export, file format and QP solver interfaces.

What is monitored.  (1) Random OCP-structured QPs (stage-varying dimensions including empty ones, bounds on permuted
subsets of the variables, general constraints, individual and shared slacks with their own lower bounds, masked
constraints, states marked as equalities, N from 0) are described with `AcadosOcpQp`, solved through
`AcadosOcpQpSolver` (partial condensing with different block counts, full condensing, dense active set) and
`AcadosCasadiOcpQpSolver`; the full primal-dual solution read back is judged with an independent numpy KKT oracle
written from the QP description in the class documentation: stationarity in every variable, feasibility,
complementarity, signs, zero multipliers of masked constraints; the reported cost is compared with the objective at
the solution, and set/get/flat/iterate accessors are compared with each other.  (2) QPs written to dictionaries and
JSON files (own writer, `get_last_qp`, `dump_last_qp_to_json` with both back ends, horizon lengths around powers of
ten) and read back are compared field by field.  (3) A real-time-iteration solver is generated, run from random
iterates, its last QP exported, read back and solved with the QP interfaces; the solution must be the step and the
multipliers the solver itself computed.  (4) `qp_diagnostics`, `get_hessian_block` and `check_licq` are compared with
dense linear algebra.

Why beyond tests.  The KKT conditions identify the solution of a convex QP without any reference solver, so every
random instance is a complete functional test of the description, the data transfer to C and the read-back.
"""
import json, os
import numpy as np
from vp import Inconclusive

PROPERTY = 'P28'
VARIANT = 'plain'
LEVEL = 3
ASSUMPTIONS = ('strictly convex random QPs, N <= 12 (round trips up to 101); HPIPM from the installed wheel, DAQP core is a stand-in; '
               'shared slacks only with partial condensing without condensed blocks (HPIPM of the wheel); '
               'wheel HPIPM/BLASFEO: no stages with 3 inputs and 1 state, no masked slack bounds, no empty states with condensing, no N = 0')
RULE = 'KKT residual of every returned primal-dual solution <= 2e-6 (relative to data and multipliers); fields equal after round trips'
CASE_TIMEOUT = 420
SOFT_S = {"quick": 300, "thorough": 3000}
TOL = 1e-9
IPOPT = {'ipopt.tol': 1e-11, 'ipopt.print_level': 0, 'print_time': False, 'ipopt.sb': 'yes', 'ipopt.bound_relax_factor': 0.,
         'ipopt.constr_viol_tol': 1e-10, 'ipopt.compl_inf_tol': 1e-10, 'ipopt.dual_inf_tol': 1e-9}
DYN = ('A', 'B', 'b')
COST = ('Q', 'R', 'S', 'q', 'r', 'zl', 'zu', 'Zl', 'Zu')
CON = ('idxb', 'lbu', 'ubu', 'lbx', 'ubx', 'C', 'D', 'lg', 'ug', 'idxs_rev', 'lls', 'lus', 'idxe')
MASK = ('lbu_mask', 'ubu_mask', 'lbx_mask', 'ubx_mask', 'lg_mask', 'ug_mask', 'lls_mask', 'lus_mask')
FIELDS = DYN + COST + CON + MASK


def cases(tier, seed):
    rng = np.random.default_rng([seed, 28])
    big = tier != 'quick'
    out = []
    for i in range(150 if big else 24):
        out.append(dict(id=f'rand{i}', fam='rand', s=int(rng.integers(1 << 30)), n=40 if big else 14))
    for i in range(30 if big else 6):
        out.append(dict(id=f'file{i}', fam='file', s=int(rng.integers(1 << 30)), n=20 if big else 10))
    for i in range(30 if big else 6):
        out.append(dict(id=f'diag{i}', fam='diag', s=int(rng.integers(1 << 30)), n=40 if big else 20))
    for i in range(160 if big else 28):
        out.append(dict(id=f'gen{i}', fam='gen', s=int(rng.integers(1 << 30))))
    return out


def spd(rng, n):
    a = rng.standard_normal((n, n))
    return a @ a.T / max(n, 1) + 0.3 * np.eye(n)


def draw(rng, N=None, soft=None, shared=False, masks=True, eq=True, varying=True, empty=True, smask=True, cap=False):
    """A feasible strictly convex QP: list of per-stage dicts of every field."""
    N = int(rng.integers(0, 7)) if N is None else N
    nxs = [int(rng.integers(0 if empty and rng.random() < .15 else 1, 5)) for _ in range(N + 1)] if varying and rng.random() < .7 \
        else [int(rng.integers(1, 5))] * (N + 1)
    nus = [int(rng.integers(0 if empty else 1, 4)) for _ in range(N)] + [0]
    if N and not varying:
        nus = [int(rng.integers(1, 4))] * N + [0]
    if cap:
        nus = [2 if n == 3 and m == 1 else n for n, m in zip(nus, nxs)]
    nxs[-1] = max(nxs[-1], 1)    # nothing would tell the last stage of an empty one
    x = [rng.standard_normal(n) for n in nxs]
    u = [rng.standard_normal(n) for n in nus]
    soft = rng.random() < .6 if soft is None else soft
    masks = masks and rng.random() < .5
    st = []
    for k in range(N + 1):
        nx, nu = nxs[k], nus[k]
        d = {}
        if k < N:
            d['A'] = rng.standard_normal((nxs[k + 1], nx)) * .6
            d['B'] = rng.standard_normal((nxs[k + 1], nu))
            d['b'] = x[k + 1] - d['A'] @ x[k] - d['B'] @ u[k]
        H = spd(rng, nu + nx)
        d['R'], d['S'], d['Q'] = H[:nu, :nu], H[:nu, nu:], H[nu:, nu:]
        d['q'], d['r'] = 3 * rng.standard_normal(nx), 3 * rng.standard_normal(nu)
        iu = rng.permutation(nu)[:rng.integers(0, nu + 1)]
        ix = rng.permutation(nx)[:rng.integers(0, nx + 1)]
        full = k == 0 and eq and rng.random() < .5
        if full:
            ix = np.arange(nx)
        if rng.random() < .5:
            iu, ix = np.sort(iu), np.sort(ix)
        d['idxb'] = np.concatenate([iu, nu + ix]).astype(int)
        ng = int(rng.integers(0, 3)) if nx + nu else 0
        d['C'], d['D'] = rng.standard_normal((ng, nx)), rng.standard_normal((ng, nu))
        gap = lambda n: np.where(rng.random(n) < .3, .05, 1.) * rng.random(n) + 1e-2
        for nm, val in (('bu', u[k][iu]), ('bx', x[k][ix]), ('g', d['C'] @ x[k] + d['D'] @ u[k])):
            n = len(val)
            d['l' + nm], d['u' + nm] = val - gap(n), val + gap(n)
            for s in 'lu':
                d[s + nm + '_mask'] = (rng.random(n) > .25).astype(float) if masks else np.ones(n)
        nbu, nbx = len(iu), len(ix)
        nb = nbu + nbx
        d['idxe'] = np.zeros(0, int)
        hard = np.zeros(nb + ng, bool)
        if full:
            d['lbx'] = x[0].copy()
            d['ubx'] = x[0].copy()
            d['lbx_mask'] = np.ones(nbx)
            d['ubx_mask'] = np.ones(nbx)
            d['idxe'] = np.arange(nbu, nb)
            hard[nbu:nb] = True
        rev = -np.ones(nb + ng, int)
        ns = 0
        if soft:
            rows = np.flatnonzero((rng.random(nb + ng) < .5) & ~hard)
            if shared and len(rows) > 1:
                ns = int(rng.integers(1, len(rows) + 1))
                rev[rows] = np.concatenate([np.arange(ns), rng.integers(0, ns, len(rows) - ns)])
            else:
                ns = len(rows)
                rev[rows] = np.arange(ns)
            # make the softened rows infeasible sometimes
            sh = rng.standard_normal(nb + ng) * (rng.random(nb + ng) < .5)
            for nm, sl in (('bu', slice(0, nbu)), ('bx', slice(nbu, nb)), ('g', slice(nb, nb + ng))):
                add = np.where(rev[sl] >= 0, sh[sl], 0)
                d['l' + nm] = d['l' + nm] + add
                d['u' + nm] = d['u' + nm] + add
        d['idxs_rev'] = rev
        for s in 'lu':
            d['z' + s] = rng.random(ns) * 5 + .1
            d['Z' + s] = rng.random(ns) * 5 + .2
            d[f'l{s}s'] = np.where(rng.random(ns) < .7, 0., .2 * rng.standard_normal(ns))
            d[f'l{s}s_mask'] = (rng.random(ns) > .2).astype(float) if masks and smask else np.ones(ns)
        st.append(d)
    return st


def uncross(st):
    """Widen soft constraints whose two sides would both be active (tightened by negative slacks): one multiplier per row only."""
    for d in st:
        nbu, nb = len(d['lbu']), len(d['idxb'])
        for nm, sl in (('bu', slice(0, nbu)), ('bx', slice(nbu, nb)), ('g', slice(nb, None))):
            for j, s in enumerate(d['idxs_rev'][sl]):
                if s >= 0:
                    rest = sum(max(-d['z' + c][s] / d['Z' + c][s], d[f'l{c}s'][s] if d[f'l{c}s_mask'][s] else -np.inf) for c in 'lu')
                    d['u' + nm][j] = max(d['u' + nm][j], d['l' + nm][j] - rest + .05)


def build(st, AcadosOcpQp, rng=None):
    """Describe the QP; with rng, leave out what has a documented default."""
    N = len(st) - 1
    qp = AcadosOcpQp(N)
    for k, d in enumerate(st):
        for f, v in d.items():
            if rng is not None and f in MASK and np.all(v == 1) and rng.random() < .5:
                continue
            if rng is not None and v.size == 0 and rng.random() < .5:
                continue
            qp.set(f, k, v.copy())
    return qp


def fields(qp, st):
    """Fields of a description as per-stage dicts of full shape."""
    out = []
    for k, d in enumerate(st):
        out.append({f: np.asarray(getattr(qp, f)[k], float).reshape(d[f].shape) if np.asarray(getattr(qp, f)[k]).size == d[f].size
                    else np.asarray(getattr(qp, f)[k], float) for f in d})
    return out


def objective(st, it):
    c = 0.
    for k, d in enumerate(st):
        x, u = it.x[k], (it.u[k] if k < len(it.u) else np.zeros(0))
        c += .5 * x @ d['Q'] @ x + d['q'] @ x
        if len(u):
            c += .5 * u @ d['R'] @ u + u @ d['S'] @ x + d['r'] @ u
        c += it.sl[k] @ (.5 * d['Zl'] * it.sl[k] + d['zl']) + it.su[k] @ (.5 * d['Zu'] * it.su[k] + d['zu'])
    return c


def kkt(st, it):
    """Residuals (stationarity, equality, inequality, complementarity, sign, mask), each relative to its data."""
    N = len(st) - 1
    R = dict(stat=0., stat_s=0., eq=0., ineq=0., comp=0., sign=0., mask=0.)
    up = lambda n, v: R.__setitem__(n, max(R[n], float(np.max(np.abs(v), initial=0.))))
    big = 1 + max([float(np.max(np.abs(v), initial=0)) for tr in (it.pi, it.lam) for v in tr] + [0.])
    for k, d in enumerate(st):
        nx, nu = len(d['q']), len(d['r'])
        nbu, nb = len(d['lbu']), len(d['idxb'])
        ng, ns = len(d['lg']), len(d['zl'])
        ni = nb + ng
        x = it.x[k]
        u = it.u[k] if k < len(it.u) else np.zeros(0)
        sl, su, lam = it.sl[k], it.su[k], it.lam[k]
        if x.shape != (nx,) or u.shape != (nu,) or sl.shape != (ns,) or su.shape != (ns,) or lam.shape != (2 * ni + 2 * ns,):
            return None
        v = np.concatenate([u, x])
        J = np.zeros((ni, nu + nx))
        J[np.arange(nb), d['idxb']] = 1
        J[nb:, :nu], J[nb:, nu:] = d['D'], d['C']
        lo = np.concatenate([d['lbu'], d['lbx'], d['lg']])
        hi = np.concatenate([d['ubu'], d['ubx'], d['ug']])
        ml = np.concatenate([d['lbu_mask'], d['lbx_mask'], d['lg_mask']]) > 0
        mu = np.concatenate([d['ubu_mask'], d['ubx_mask'], d['ug_mask']]) > 0
        ll, lu = lam[:ni], lam[ni:2 * ni]
        lls, lus = lam[2 * ni:2 * ni + ns], lam[2 * ni + ns:]
        g = np.concatenate([d['R'] @ u + d['S'] @ x + d['r'], d['S'].T @ u + d['Q'] @ x + d['q']])
        g = g + J.T @ (lu - ll)
        if k < N:
            g = g + np.vstack([d['B'].T, d['A'].T]) @ it.pi[k]
            up('eq', it.x[k + 1] - d['A'] @ x - d['B'] @ u - d['b'])
        if k:
            g[nu:] -= it.pi[k - 1]
        up('stat', g / big)
        rev = d['idxs_rev']
        gl, gu = d['zl'] + d['Zl'] * sl - lls, d['zu'] + d['Zu'] * su - lus
        sel = rev >= 0
        np.subtract.at(gl, rev[sel], ll[sel])
        np.subtract.at(gu, rev[sel], lu[sel])
        up('stat_s', gl / big), up('stat_s', gu / big)
        w = J @ v
        tl, tu = w - lo, hi - w
        tl[sel] += sl[rev[sel]]
        tu[sel] += su[rev[sel]]
        sll, suu = sl - d['lls'], su - d['lus']
        msl, msu = d['lls_mask'] > 0, d['lus_mask'] > 0
        eqr = np.zeros(ni, bool)
        eqr[d['idxe'].astype(int)] = True
        for t, l, m in ((tl, ll, ml), (tu, lu, mu), (sll, lls, msl), (suu, lus, msu)):
            up('ineq', np.minimum(t[m], 0))
            up('comp', t[m] * l[m] / big)
            up('sign', np.minimum(l, 0))
            up('mask', l[~m])
        up('eq', (w - lo)[eqr])
    return R


def judge(ob, st, it, key, lim=2e-6):
    if not ob.check(len(it.pi) == len(st) - 1 and all(p.shape == d['b'].shape for p, d in zip(it.pi, st[:-1])), key + '.shape', 'pi'):
        return False
    R = kkt(st, it)
    if not ob.check(R is not None, key + '.shape', str([v.shape for v in it.lam])):
        return False
    ok = True
    for n, v in R.items():
        ob.worst(f'{key}.{n}', v)
        ok &= ob.check(v <= (1e-4 if n == 'comp' and 'daqp' in key else lim), f'{key}.{n}', f'residual {v:.3e}')
    ob.count('qp_solved.' + key)
    ob.count('multipliers', sum(map(len, it.lam)))
    ob.count('active', int(sum((np.abs(l) > 1e-4).sum() for l in it.lam)))
    return ok


def options(rng, N, kind):
    from acados_template import AcadosOcpQpOptions
    o = AcadosOcpQpOptions()
    o.qp_solver = {'hpipm': 'PARTIAL_CONDENSING_HPIPM', 'full': 'FULL_CONDENSING_HPIPM', 'daqp': 'FULL_CONDENSING_DAQP'}[kind]
    for t in ('stat', 'eq', 'ineq', 'comp'):
        setattr(o, 'tol_' + t, TOL)
    o.iter_max = 200
    if kind == 'hpipm':
        o.ric_alg = int(rng.integers(0, 2))
    return o


def same(a, b, tol=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.size == b.size == 0 or (a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1e-300, np.abs(a)))))


def rand(case, ob):
    from acados_template import AcadosOcpQp, AcadosOcpQpSolver, AcadosCasadiOcpQpSolver
    rng = np.random.default_rng(case['s'])
    for i in range(case['n']):
        kind = ('hpipm', 'hpipm', 'pcond', 'full', 'daqp', 'ipopt', 'ipopt')[rng.integers(7)]
        shared = kind in ('hpipm', 'ipopt') and rng.random() < .4
        st = draw(rng, shared=shared, empty=kind not in ('pcond', 'full', 'daqp'),
                  smask=kind in ('ipopt', 'daqp'), cap=kind in ('hpipm', 'pcond'), N=None if kind not in ('hpipm', 'pcond') else int(rng.integers(1, 8)))
        N = len(st) - 1
        if kind in ('pcond',) and N < 2:
            continue
        if kind == 'daqp':
            uncross(st)
        qp = build(st, AcadosOcpQp, rng)
        tag = f"{kind} i={i} N={N} nx={[len(d['q']) for d in st]} nu={[len(d['r']) for d in st]} ns={[len(d['zl']) for d in st]}"
        ob.sample(qp=tag)
        if kind == 'ipopt':
            s = AcadosCasadiOcpQpSolver(qp, solver='ipopt', solver_opts=dict(IPOPT))
            guess(ob, rng, s, st, tag)
            status = s.solve()
        else:
            o = options(rng, N, 'hpipm' if kind == 'pcond' else kind)
            if kind == 'pcond':
                o.cond_N = int(rng.integers(1, N))
            default = kind == 'hpipm' and rng.random() < .2
            s = AcadosOcpQpSolver(qp, None if default else o)
            status = s.solve()
        if status != 0:
            ob.count('not_converged.' + kind)
            ob.sample(status=f'{tag} {status}')
            continue
        for f in fields(qp, st)[0]:
            pass
        for k, (d, e) in enumerate(zip(st, fields(qp, st))):
            for f in d:
                ob.check(same(d[f], e[f]), 'describe.' + f, f'{tag} stage {k}: {d[f].tolist()} became {e[f].tolist()}')
        it = s.get_iterate()
        lim = 2e-6 if kind != 'daqp' else 1e-5
        if kind != 'ipopt' and default:
            lim = 2e-5
        if not judge(ob, st, it, 'kkt.' + kind, lim):
            ob.check(False, 'kkt.where', tag)
            continue
        want = objective(st, it)
        got = s.get_cost()
        ob.close(got, want, 1e-6, 'cost.' + kind, tag)
        access(ob, rng, s, st, it, kind, tag)
        ob.state((kind, N, max(len(d['zl']) for d in st) > 0, any((d[m] == 0).any() for d in st for m in MASK), len(st[0]['idxe'])))
        if kind == 'ipopt':
            fixed(ob, rng, s, st, tag)
        elif s.solve() == 0:
            if not judge(ob, st, s.get_iterate(), 'again.' + kind, lim):
                ob.check(False, 'kkt.where', tag)


def fixed(ob, rng, s, st, tag):
    """solve_for_x0 is the QP with the initial state fixed by hard bounds."""
    from acados_template import AcadosOcpQp, AcadosCasadiOcpQpSolver
    d = st[0]
    nbx, nx, nu, ng = len(d['lbx']), len(d['q']), len(d['r']), len(d['lg'])
    if nbx or ng or len(st) < 2 or not nx:
        return
    x0 = np.zeros(nx) + .3 * rng.standard_normal(nx)
    u0 = s.solve_for_x0(x0)
    if s.status != 0:
        return
    new = [dict(d) for d in st]
    new[0].update(idxb=np.concatenate([d['idxb'], nu + np.arange(nx)]), lbx=x0, ubx=x0, lbx_mask=np.ones(nx), ubx_mask=np.ones(nx),
                  idxs_rev=np.concatenate([d['idxs_rev'], -np.ones(nx, int)]))
    q = AcadosCasadiOcpQpSolver(build(new, AcadosOcpQp), solver_opts=dict(IPOPT))
    if q.solve() != 0:
        return
    ob.check(np.allclose(s.get(0, 'x'), x0, atol=1e-8), 'x0.state', tag)
    ob.check(np.array_equal(u0, s.get(0, 'u')) and np.allclose(u0, q.get(0, 'u'), atol=1e-5), 'x0.u', f'{tag}: {u0} {q.get(0, "u")}')
    ob.count('solve_for_x0')


def access(ob, rng, s, st, it, kind, tag):
    N = len(st) - 1
    for f in ('x', 'u', 'sl', 'su', 'pi', 'lam'):
        tr = getattr(it, f)
        for k in range(N + (f not in ('u', 'pi'))):
            ob.check(np.array_equal(s.get(k, f), tr[k]), f'get.{f}', f'{tag} stage {k}')
        if kind == 'ipopt':
            ob.check(np.array_equal(s.get_flat(f), np.concatenate([np.zeros(0)] + [s.get(k, f) for k in range(N + (f not in ('u', 'pi')))])),
                     f'flat.{f}', tag)
    if kind != 'ipopt' and kind != 'daqp':
        t = s.get_stats('statistics')
        ob.check(t.shape[0] == s.get_stats('iter') + 1, 'stats', tag)


def guess(ob, rng, s, st, tag):
    """A complete initial guess given in acados terms has to arrive unchanged: the guess is read back through the
    getters from a substituted solution."""
    import casadi as ca
    N = len(st) - 1
    way = rng.integers(3)
    g = {}
    for k, d in enumerate(st):
        ni, ns = len(d['idxb']) + len(d['lg']), len(d['zl'])
        l = rng.random(ni)
        low = rng.random(ni) < .5
        hard = d['idxs_rev'] < 0
        ll = np.where(low, l, 0) + np.where(hard, 0, rng.random(ni))
        lu = np.where(low, 0, l) + np.where(hard, 0, rng.random(ni))
        g[k] = dict(x=rng.standard_normal(len(d['q'])), u=rng.standard_normal(len(d['r'])), sl=rng.random(ns), su=rng.random(ns),
                    lam=np.concatenate([ll, lu, rng.random(2 * ns)]))
        if k < N:
            g[k]['pi'] = rng.standard_normal(len(d['b']))
    names = ('x', 'u', 'sl', 'su', 'pi', 'lam')
    rg = lambda f: range(N + (f not in ('u', 'pi')))
    if way == 0:
        for f in names:
            for k in rg(f):
                s.set(k, f, g[k][f])
    elif way == 1:
        for f in names:
            s.set_flat(f, np.concatenate([np.zeros(0)] + [g[k][f] for k in rg(f)]))
    else:
        from acados_template import AcadosOcpIterate
        it = AcadosOcpIterate(z=[np.zeros(0)] * N, **{f: [g[k][f] for k in rg(f)] for f in names})
        s.set_iterate(it if rng.random() < .5 else it.flatten())
    keep = (s.qp_sol, s.qp_sol_w, s.qp_sol_lam_w, s.qp_sol_lam_g)
    s.qp_sol, s.qp_sol_w, s.qp_sol_lam_w, s.qp_sol_lam_g = {}, np.array(s.w0), np.array(s.lam_x0), np.array(s.lam_g0)
    for f in names:
        for k in rg(f):
            got = s.get(k, f)
            ob.check(got.shape == g[k][f].shape and np.array_equal(got, g[k][f]), 'guess.' + f,
                     f'{tag} way {way} stage {k}: set {g[k][f].tolist()} arrived as {got.tolist()}')
            ob.count('guess_entries', len(g[k][f]))
    s.qp_sol, s.qp_sol_w, s.qp_sol_lam_w, s.qp_sol_lam_g = keep


def key(f, k, N):
    return f'{f}_{k:0{len(str(N + 1))}d}'


def todict(st, drop):
    N = len(st) - 1
    return {key(f, k, N): v.copy() for k, d in enumerate(st) for f, v in d.items() if v.size or not drop}


def compare(ob, qp, st, name, tag, tol=0.):
    ob.check(qp.N == len(st) - 1, name + '.N', tag)
    for k, d in enumerate(st):
        for f in d:
            got = getattr(qp, f)[k]
            ob.check(got is not None and same(d[f], got, tol), f'{name}.{f}', f'{tag} stage {k}: {d[f].tolist()} read as {np.asarray(got).tolist()}')
            ob.count('fields')


def file(case, ob):
    from acados_template import AcadosOcpQp
    rng = np.random.default_rng(case['s'])
    Ns = [0, 1, 8, 9, 10, 11, 98, 99, 100]
    for i in range(case['n']):
        N = Ns[i] if i < len(Ns) else int(rng.integers(0, 15))
        st = draw(rng, N=N, shared=rng.random() < .3)
        tag = f'N={N} i={i}'
        d = todict(st, True)
        before = {k: v.copy() for k, v in d.items()}
        qp = AcadosOcpQp.from_dict(d)
        compare(ob, qp, st, 'dict', tag)
        ob.check(set(d) == set(before) and all(np.array_equal(d[k], before[k]) for k in d), 'dict.input', tag)
        fn = f'qp_{i}.json'
        js = {k: v.tolist() for k, v in d.items()}
        with open(fn, 'w') as f:
            json.dump(js, f)
        compare(ob, AcadosOcpQp.from_json(fn), st, 'json', tag)
        copy = json.loads(json.dumps(js))
        compare(ob, AcadosOcpQp.from_json(json_data=js), st, 'jsondata', tag)
        ob.check(js == copy if all(isinstance(v, list) for v in js.values()) else False, 'jsondata.input', f'{tag}: the data given was changed')
        # inconsistent data are refused
        bad = {k: v.copy() for k, v in d.items()}
        cand = [k for k in bad if k.split('_')[0] in ('q', 'b', 'lbx', 'ug', 'zl', 'idxb', 'Q', 'A', 'lls') and '_mask' not in k]
        if cand:
            kk = cand[rng.integers(len(cand))]
            v = bad[kk]
            bad[kk] = np.concatenate([v, v[:1]])
            try:
                AcadosOcpQp.from_dict(bad)
                ob.check(False, 'refuse', f'{tag}: accepted {kk} of shape {bad[kk].shape}')
            except Exception as e:
                ob.check(isinstance(e, (ValueError, AssertionError)), 'refuse.how', f'{tag}: {kk} {e!r}')
            ob.count('refused')


def licq(st, it):
    """Rank of the Jacobian of all constraints active at the point, written down densely."""
    N = len(st) - 1
    off, n = [], 0
    for d in st:
        off.append(n)
        n += len(d['r']) + len(d['q'])
    rows = []
    for k, d in enumerate(st):
        nu, nx = len(d['r']), len(d['q'])
        if k < N:
            for j in range(len(d['b'])):
                r = np.zeros(n)
                r[off[k]:off[k] + nu], r[off[k] + nu:off[k] + nu + nx] = d['B'][j], d['A'][j]
                r[off[k + 1] + len(st[k + 1]['r']) + j] = -1
                rows.append(r)
        v = np.concatenate([it.u[k] if k < len(it.u) else np.zeros(0), it.x[k]])
        for j, idx in enumerate(d['idxb']):
            b = [np.concatenate([d[s + 'bu'], d[s + 'bx']])[j] for s in 'lu']
            if np.isclose(v[idx], b).any():
                r = np.zeros(n)
                r[off[k] + idx] = 1
                rows.append(r)
        for j in range(len(d['lg'])):
            a = np.concatenate([d['D'][j], d['C'][j]])
            if np.isclose(a @ v, [d['lg'][j], d['ug'][j]]).any():
                r = np.zeros(n)
                r[off[k]:off[k] + nu + nx] = a
                rows.append(r)
    M = np.array(rows).reshape(-1, n)
    s = np.linalg.svd(M, compute_uv=False) if M.size else np.zeros(0)
    if len(s) and np.any((s > 1e-13 * s[0]) & (s < 1e-6 * s[0])):
        return None
    return M.shape[0] <= n and (len(s) == 0 or int((s > 1e-9 * s[0]).sum()) == M.shape[0]) and (M.shape[0] == 0 or n > 0)


def blocks(ob, get, diag, hess, tag):
    eig = []
    for k, H in enumerate(hess):
        got = get(k)
        ob.check(np.shape(got) == H.shape and np.allclose(got, H, rtol=1e-9, atol=1e-11), 'block', f'{tag} stage {k}: {np.asarray(got).tolist()} vs {H.tolist()}')
        eig.append(np.linalg.eigvalsh(H))
    for nm, fn in (('min_eigv_stage', np.min), ('max_eigv_stage', np.max), ('condition_number_stage', lambda e: np.max(np.abs(e)) / np.min(np.abs(e)))):
        if ob.check(nm in diag and len(diag[nm]) == len(hess), 'diag.' + nm, f'{tag} {diag.keys()}'):
            for k, e in enumerate(eig):
                v = diag[nm][k]
                ob.check(np.isrealobj(v), 'diag.real', tag)
                ob.close(np.real(v), fn(e), 1e-7, 'diag.' + nm, f'{tag} {k}')
    a = np.concatenate(eig)
    for nm, v in (('min_eigv_global', a.min()), ('max_eigv_global', a.max()), ('min_abs_eigv_global', np.abs(a).min()),
                  ('condition_number_global', np.abs(a).max() / np.abs(a).min())):
        ob.close(np.real(diag[nm]), v, 1e-7, 'diag.' + nm, tag)


def hessians(st):
    return [np.block([[d['R'], d['S']], [d['S'].T, d['Q']]]) for d in st]


def diag(case, ob):
    from acados_template import AcadosOcpQp, AcadosOcpIterate
    rng = np.random.default_rng(case['s'])
    yes = no = 0
    for i in range(case['n']):
        N = int(rng.integers(1, 5))
        st = draw(rng, N=N, soft=False, masks=False, eq=False, empty=False, varying=rng.random() < .5)
        if rng.random() < .4:                                   # indefinite
            for d in st:
                d['Q'] = d['Q'] - rng.random() * 1.5 * np.eye(len(d['Q']))
        it = AcadosOcpIterate(x=[rng.standard_normal(len(d['q'])) for d in st], u=[rng.standard_normal(len(d['r'])) for d in st[:-1]],
                              z=[], sl=[], su=[], pi=[], lam=[])
        mode = rng.integers(3)
        for k, d in enumerate(st):
            if mode == 1 and k < N and d['A'].shape[0] <= d['A'].shape[1]:
                m = d['A'].shape
                d['A'] = np.eye(*m)
                d['B'] = d['B'] * (rng.random(d['B'].shape[1]) < .3)
            if mode == 2 and len(d['lg']) and len(d['idxb']) and rng.random() < .6:      # a row repeating a bound
                full = np.zeros(len(d['r']) + len(d['q']))
                full[d['idxb'][0]] = 1
                d['D'][0], d['C'][0] = full[:len(d['r'])], full[len(d['r']):]
            v = np.concatenate([it.u[k] if k < N else np.zeros(0), it.x[k]])
            for nm, val in (('bu', v[d['idxb'][:len(d['lbu'])]]), ('bx', v[d['idxb'][len(d['lbu']):]]), ('g', d['C'] @ v[len(d['r']):] + d['D'] @ v[:len(d['r'])])):
                c = rng.choice(4, len(val), p=[.6, .15, .15, .1])
                d['l' + nm] = np.where((c == 1) | (c == 3), val, val - .5 - rng.random(len(val)))
                d['u' + nm] = np.where((c == 2) | (c == 3), val, val + .5 + rng.random(len(val)))
        qp = build(st, AcadosOcpQp)
        qp.make_consistent()
        tag = f'i={i} mode={mode} N={N}'
        want = licq(st, it)
        if want is not None:
            got = qp.check_licq(it)
            ob.check(bool(got) == bool(want), 'licq', f'{tag}: reported {got}, Jacobian says {want}')
            yes += bool(want)
            no += not want
        blocks(ob, qp.get_hessian_block, qp.qp_diagnostics(), hessians(st), tag)
    ob.count('licq_true', yes)
    ob.count('licq_false', no)


def gen(case, ob):
    import prob
    from acados_template import AcadosOcpQp, AcadosOcpQpSolver, AcadosCasadiOcpQpSolver
    rng = np.random.default_rng(case['s'])
    cond = rng.random() < .3
    kind = 'full' if cond and rng.random() < .5 else 'hpipm'
    fix = dict(integrator=str(rng.choice(['ERK', 'IRK', 'DISCRETE'])), nz=0,
               hess='GAUSS_NEWTON', regularize='NO_REGULARIZE', scaling=None, cost_disc='EULER')
    if cond:
        fix['idxs_rev'] = 0
    N = int(rng.choice([2, 3, 5, 8, 9, 10]))
    fix['N'] = N
    for c in ('cost', 'cost_0', 'cost_e'):
        fix[c] = str(rng.choice(['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR']))
    try:
        pr = prob.Prob(case['s'], **fix)
    except TypeError:
        raise
    ocp = pr.make_ocp(f'p28_{case["id"]}')
    o = ocp.solver_options
    o.nlp_solver_type = 'SQP_RTI'
    o.qp_solver = 'FULL_CONDENSING_HPIPM' if kind == 'full' else 'PARTIAL_CONDENSING_HPIPM'
    o.qp_solver_iter_max = 300
    o.qp_tol = 1e-10
    o.levenberg_marquardt = float(rng.choice([0., 1e-2]))
    if kind == 'hpipm':
        o.qp_solver_cond_N = int(rng.integers(1, N + 1)) if cond else N
    tag = pr.tag()
    s = prob.make_solver(ocp)
    good = 0
    for rep in range(4):
        it0 = pr.random_iterate(rng)
        pr.set_iterate(s, it0)
        before = s.get_iterate()
        if s.solve() != 0 or s.get_stats('qp_stat')[-1] != 0:
            ob.count('qp_not_solved')
            continue
        after = s.get_iterate()
        data = s.get_last_qp()
        fns = {}
        for be in ('C', 'Python'):
            fns[be] = f'last_{be}_{rep}.json'
            s.dump_last_qp_to_json(fns[be], overwrite=True, backend=be)
        again = s.get_last_qp()
        ob.check(set(again) == set(data) and all(np.array_equal(again[k], data[k]) for k in data), 'export.repeat', tag)
        # fields from the accessor, stage by stage
        st = []
        for k in range(N + 1):
            nx, nu = [np.size(s.get(k, f)) if not (f == 'u' and k == N) else 0 for f in 'xu']
            d = {}
            for f in FIELDS:
                if f in DYN and k == N:
                    continue
                v = np.asarray(s.get_from_qp_in(k, f))
                d[f] = v if f in ('A', 'B', 'Q', 'R', 'S', 'C', 'D') else v.flatten()
            d['R'] = d['R'].reshape(nu, nu)
            d['S'] = d['S'].reshape(nu, nx)
            ng = len(d['lg'])
            d['C'], d['D'] = d['C'].reshape(ng, nx), d['D'].reshape(ng, nu)
            if k < N:
                d['B'] = d['B'].reshape(len(d['b']), nu)
            d['idxs_rev'] = d['idxs_rev'].astype(int)
            d['idxb'] = d['idxb'].astype(int)
            d['idxe'] = d['idxe'].astype(int)
            st.append(d)
        for d in st:
            for f in ('Q', 'R'):
                ob.check(np.allclose(d[f], d[f].T, rtol=1e-12, atol=0), 'export.sym', tag)
        compare(ob, AcadosOcpQp.from_dict(dict(data)), st, 'fromdict', tag)
        try:
            qC = AcadosOcpQp.from_json(fns['C'])
            compare(ob, qC, st, 'dumpC', tag, 1e-10)
        except ValueError as e:
            ob.check(False, 'dumpC.load', f'{tag} N={N}: {e}')
        qp = AcadosOcpQp.from_json(fns['Python'])
        compare(ob, qp, st, 'dumpPy', tag)
        blocks(ob, s.get_hessian_block, s.qp_diagnostics(), hessians(st), tag)
        # the step of the solver
        step = type(after)(**{f: [a - b for a, b in zip(getattr(after, f), getattr(before, f))] for f in ('x', 'u', 'sl', 'su')},
                           pi=after.pi, lam=after.lam, z=after.z)
        if not judge(ob, st, step, 'kkt.step', 1e-5):
            ob.check(False, 'kkt.where', tag)
            continue
        shared = any(len(np.unique(d['idxs_rev'][d['idxs_rev'] >= 0])) < (d['idxs_rev'] >= 0).sum() for d in st)
        for sv in ('hpipm', 'full', 'ipopt'):
            if sv == 'full' and (shared or pr.f.idxs_rev if hasattr(pr.f, 'idxs_rev') else shared):
                continue
            if sv == 'ipopt':
                q = AcadosCasadiOcpQpSolver(qp, solver_opts=dict(IPOPT))
            else:
                q = AcadosOcpQpSolver(qp, options(rng, N, sv))
            if q.solve() != 0:
                ob.count('not_converged.' + sv)
                continue
            sol = q.get_iterate()
            if not judge(ob, st, sol, 'kkt.gen.' + sv, 1e-5):
                ob.check(False, 'kkt.where', tag)
                continue
            for f in ('x', 'u'):
                sc = 1 + max(np.max(np.abs(v), initial=0) for v in getattr(step, f))
                e = max([0.] + [np.max(np.abs(a - b), initial=0) for a, b in zip(getattr(step, f), getattr(sol, f))]) / sc
                ob.worst('resolve.' + f, e)
                ob.check(e < 1e-3, f'resolve.{sv}.{f}', f'{tag}: {e:.2e}')
            ob.close(objective(st, sol), objective(st, step), 1e-5, f'resolve.{sv}.cost', tag)
            ob.close(q.get_cost(), objective(st, sol), 1e-6, f'cost.{sv}', tag)
            good += 1
    if not good:
        raise Inconclusive('no QP solved: ' + tag)


def run(case, ob):
    {'rand': rand, 'file': file, 'diag': diag, 'gen': gen}[case['fam']](case, ob)
