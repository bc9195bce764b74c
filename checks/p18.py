"""Online data changes equal rebuilding with the new data.

Two families of histories on generated problems of all formulation classes.  *lockstep*: random sequences of changes of references,
weights, output matrices, cost scalings, slack penalties, numerical external Hessians, bounds of every kind (also switching them
off and on again with the no-bound value), constraint matrices, stage parameters (whole, flat, sparse) and global parameters are
applied to a compiled real-time solver that has solved with old data in between, and in lock step to the reference model; after
each block the cost, the residuals, every block of the assembled QP, the masks and the step taken are compared with the reference on
the new data.  *rebuild*: the data of the formulation is changed, a second solver is generated from the changed formulation, and
the first one is brought to the same data online after having solved with the old data: QP data, iterates, status and
iteration counts of both have to agree."""
import warnings
import numpy as np
from prob import Prob, make_solver, spd
import p03

PROPERTY = 'P18'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = []
RULE = 'distinct (kind of change, stage class, formulation) after which cost, residuals, QP data and step were compared'

FAM = [('gen', {}, 60), ('lls', dict(cost='LINEAR_LS', cost_0='LINEAR_LS', cost_e='LINEAR_LS'), 16), ('pg', dict(npg=2), 12),
       ('p', dict(np=3), 12), ('z', dict(integrator='IRK', nz=2, cost='LINEAR_LS'), 8), ('bgp', dict(constr='BGP', nh=2, nh_0=1, nh_e=1), 10),
       ('num', dict(cost='EXTERNAL', cost_0='EXTERNAL', cost_e='EXTERNAL', hess='GAUSS_NEWTON'), 8),
       ('soft', dict(soft=2, onesided=False), 10), ('rebuild', {}, 24), ('rebpg', dict(npg=2), 5), ('reblls', dict(cost='LINEAR_LS', cost_0='same', cost_e='LINEAR_LS'), 6)]
BIG = 1e10


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=2000029 * seed + 17 * i + sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def interval(rng, n, free=0.25):
    a = rng.uniform(-1.5, 1.5, (2, n))
    lo, hi = a.min(0) - 0.3, a.max(0) + 0.3
    for v, b in ((lo, -BIG), (hi, BIG)):
        m = rng.random(n) < free
        v[m] = b * (1 if rng.random() < 0.7 else 100)
    return lo, hi


def change(pr, s, k, rng, numhess):
    """one random change at stage k, applied to the solver and the reference; returns its name or None"""
    st = pr.st[k]
    kd = pr.kind(k)
    c = pr.ck[kd]
    ops = ['scaling']
    if c.type != 'EXTERNAL':
        ops += ['yref', 'yref']
        if c.type != 'CONVEX_OVER_NONLINEAR':
            ops += ['W', 'W']
    if c.type == 'LINEAR_LS':
        ops += ['V', 'V']
    if numhess and c.type == 'EXTERNAL':
        ops += ['num_hess'] * 2
    if st.ns:
        ops += ['pen', 'pen']
    if st.nbx:
        ops += ['bx', 'bx']
    if st.nbu:
        ops += ['bu']
    if st.ng:
        ops += ['g', 'CD']
    if st.nh:
        ops += ['h', 'h']
    if pr.np:
        ops += ['p', 'sparse', 'pflat']
    if pr.npg:
        ops += ['pg']
    op = str(rng.choice(ops))
    if op == 'scaling':
        st.scal = float(rng.uniform(0.1, 4))
        s.cost_set(k, 'scaling', st.scal)
    elif op == 'yref':
        st.yref = rng.uniform(-1, 1, c.ny)
        if rng.random() < 0.5:
            s.set(k, 'yref', st.yref.copy())
        else:
            s.cost_set(k, 'yref', st.yref.copy())
    elif op == 'W':
        st.W = spd(rng, c.ny, bool(rng.integers(2)))
        s.cost_set(k, 'W', st.W.copy(), api='new')
    elif op == 'V':
        V = getattr(st, 'V', None)
        if V is None:
            V = np.hstack([c.Vu, c.Vx, c.Vz][0 if k < pr.N else 1:])
        V = V + 0.2 * rng.normal(size=V.shape)
        nu = st.nu
        parts = dict(Vu=slice(0, nu), Vx=slice(nu, nu + st.nx), Vz=slice(nu + st.nx, None))
        names = [n for n in ('Vx', 'Vu', 'Vz') if V[:, parts[n]].size]
        old = getattr(st, 'V', None)
        if old is None:
            old = np.hstack([c.Vu, c.Vx, c.Vz][0 if k < pr.N else 1:])
        new = old.copy()
        for n in names:
            if rng.random() < 0.6:
                new[:, parts[n]] = V[:, parts[n]]
                s.cost_set(k, n, V[:, parts[n]].copy(), api='new')
        st.V = new
    elif op == 'num_hess':
        n = st.nu + st.nx
        st.num_hess = spd(rng, n)
        s.cost_set(k, 'ext_cost_num_hess', st.num_hess.copy(), api='new')
    elif op == 'pen':
        a = str(rng.choice(['zl', 'zu', 'Zl', 'Zu']))
        v = rng.uniform(.5, 15, st.ns)
        setattr(st, a, v)
        s.cost_set(k, a, v.copy())
    elif op in ('bx', 'bu', 'g', 'h'):
        if op == 'bx' and k == 0 and pr.f_x0 in ('fixed', 'partial'):
            lo, hi = interval(rng, st.nbx, 0)
            if pr.f_x0 == 'fixed':
                lo = hi = rng.uniform(-.6, .6, st.nbx)
            else:
                e = int(st.nbxe)
                lo[:e] = hi[:e] = rng.uniform(-.5, .5, e)
        else:
            lo, hi = interval(rng, len(getattr(st, 'lb' + op[1] if op[0] == 'b' else 'l' + op)))
        phi = op == 'h' and pr.hk[kd].phi
        sides = [True, True] if rng.random() < 0.6 or (op == 'bx' and k == 0) else [bool(rng.integers(2)), True]
        order = [0, 1] if rng.random() < 0.5 else [1, 0]
        for j in order:
            if not sides[j] or (phi and j == 0):
                continue
            v = (lo, hi)[j]
            f = ('l', 'u')[j] + op
            if j == 0 and not sides[1] or j == 1 and not sides[0]:
                oth = getattr(st, ('u', 'l')[j] + op)
                v = np.maximum(v, oth + 0.2) if j == 1 else np.minimum(v, oth - 0.2)
            setattr(st, f, v.copy())
            name = 'uphi' if phi else f
            if f in ('lbx', 'ubx', 'lbu', 'ubu') and rng.random() < 0.5:
                s.set(k, name, v.copy())
            else:
                s.constraints_set(k, name, v.copy())
    elif op == 'CD':
        st.C = st.C + 0.3 * rng.normal(size=st.C.shape)
        s.constraints_set(k, 'C', st.C.copy(), api='new')
        if k < pr.N and rng.random() < 0.6:
            st.D = st.D + 0.3 * rng.normal(size=st.D.shape)
            s.constraints_set(k, 'D', st.D.copy(), api='new')
    elif op == 'p':
        st.p = rng.uniform(-.6, .6, pr.np)
        s.set(k, 'p', st.p.copy())
    elif op == 'sparse':
        m = int(rng.integers(1, pr.np + 1))
        idx = rng.permutation(pr.np)[:m]
        v = rng.uniform(-.6, .6, m)
        st.p = st.p.copy()
        st.p[idx] = v
        s.set_params_sparse(k, idx, v)
    elif op == 'pflat':
        for q in pr.st:
            q.p = rng.uniform(-.6, .6, pr.np)
        s.set_flat('p', np.concatenate([q.p for q in pr.st]))
    elif op == 'pg':
        pr.pgval = rng.uniform(-.6, .6, pr.npg)
        s.set_p_global_and_precompute_dependencies(pr.pgval.copy())
    return op


def run(case, ob):
    warnings.simplefilter('ignore')
    if case['fam'].startswith('reb'):
        return rebuild(case, ob)
    rng = np.random.default_rng(case['seed'] + 11)
    fix = dict(case['fix'])
    pr = Prob(case['seed'], **fix)
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP_RTI'
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    so.qp_solver_cond_N = pr.N
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact']:
        opt['constr'] = so.exact_hess_constr
    numhess = case['fam'] == 'num'
    if numhess:
        so.ext_cost_num_hess = 1
    s = make_solver(ocp)
    if numhess:
        for k in range(pr.N + 1):
            pr.st[k].num_hess = spd(rng, pr.st[k].nu + pr.nx)
            s.cost_set(k, 'ext_cost_num_hess', pr.st[k].num_hess.copy(), api='new')
    for rep in range(4):
        names = []
        for _ in range(int(rng.integers(2, 9))):
            k = int(rng.choice([0, pr.N, int(rng.integers(pr.N + 1))]))
            op = change(pr, s, k, rng, numhess)
            names.append('%s@%d' % (op, k))
            ob.state(op, pr.kind(k), pr.ck[pr.kind(k)].type, pr.hk[pr.kind(k)].phi, pr.f_hess, pr.f_integrator)
            ob.count('changes')
        it = pr.random_iterate(rng, 0.6)
        # multipliers of bounds that are switched off are zero
        pr.set_iterate(s, it)
        what = 'after %s' % ' '.join(names)
        ref = pr.kkt(it)
        got = s.get_residuals(recompute=True)
        for i, nm in enumerate(('stat', 'eq', 'ineq', 'comp')):
            ob.close(got[i], ref.norms[i], 1e-8, 'res_' + nm, 'res_%s %s: %s' % (nm, what, pr.tag()))
        if not pr.nz:
            ob.close(s.get_cost(), ref.cost, 1e-9, 'cost', 'cost %s: %s' % (what, pr.tag()))
        s.reset_qp() if hasattr(s, 'reset_qp') else None
        st = s.solve()
        sg = [pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k]) for k in range(pr.N + 1)]
        Hs = [p03.hessian(pr, sg[k], k, opt, 0.0) for k in range(pr.N + 1)]
        for k in range(pr.N + 1):
            p03.compare(pr, ob, s, k, sg[k], Hs[k], it)
        if st == 0 and int(np.ravel(s.get_stats('qp_stat'))[-1]) == 0:
            ob.count('steps_judged')
            p03.step_kkt(pr, ob, sg, Hs, it, pr.get_iterate(s))
        else:
            ob.count('qp_not_solved')
            s.reset()
        if pr.npg:
            # reset also restores the global parameters of the formulation
            s.set_p_global_and_precompute_dependencies(pr.pgval.copy())
        if st != 0:
            # reset also restores the parameters of the formulation
            for k in range(pr.N + 1):
                s.set(k, 'p', pr.st[k].p.copy()) if pr.np else None


# ------------------------------------------------------------------ rebuild
def mutate(pr, rng):
    """change the data of the formulation uniformly over the stages of each kind"""
    pd, f = pr.pd, pr.f
    for kd in 'p0e':
        o, c = pd[kd], pr.ck[kd]
        if kd == '0' and c is pr.ck['p']:
            o.yref, o.W = pd['p'].yref.copy(), pd['p'].W.copy()
            if hasattr(pd['p'], 'V'):
                o.V = pd['p'].V.copy()
        else:
            if c.type != 'EXTERNAL':
                o.yref = rng.uniform(-.8, .8, c.ny)
            if c.type in ('LINEAR_LS', 'NONLINEAR_LS'):
                o.W = spd(rng, c.ny, bool(rng.integers(2)))
            if c.type == 'LINEAR_LS':
                c.Vx = c.Vx + .1 * rng.normal(size=c.Vx.shape)
                c.Vu = c.Vu + .1 * rng.normal(size=c.Vu.shape)
                c.Vz = c.Vz + .1 * rng.normal(size=c.Vz.shape)
                o.V = np.hstack([c.Vu, c.Vx, c.Vz])
        for a in ('zl', 'zu', 'Zl', 'Zu'):
            setattr(o, a, rng.uniform(3, 15, o.ns))
        for a in ('h',) + (('bx',) if kd != '0' else ()) + (('bu', 'g') if kd == 'p' else ('g',) if kd == 'e' else ()):
            n = len(getattr(o, 'l' + a))
            sh = rng.uniform(-.2, .2, n)
            for b in 'lu':
                v = getattr(o, b + a)
                setattr(o, b + a, np.where(np.abs(v) < BIG, v + sh + (0.1 if b == 'u' else -0.1), v))
    Z, P = pd['0'], pd['p']
    if len(Z.lbx):
        d = rng.uniform(-.2, .2, len(Z.lbx))
        Z.lbx, Z.ubx = [np.where(np.abs(v) < BIG, v + d, v) for v in (Z.lbx, Z.ubx)]
    for kd in 'pe':
        pd[kd].C = pd[kd].C + 0.2 * rng.normal(size=pd[kd].C.shape)
    P.D = P.D + 0.2 * rng.normal(size=P.D.shape)
    for a in ('lbu', 'ubu', 'lg', 'ug', 'C', 'D'):
        setattr(Z, a, getattr(P, a).copy())
    if not f['own0'] and Z.ns == P.ns:
        for a in ('zl', 'zu', 'Zl', 'Zu'):
            setattr(Z, a, getattr(P, a).copy())
    pr.pval = rng.uniform(-.5, .5, pr.np)
    pr.pgval = rng.uniform(-.5, .5, pr.npg)
    pr.scal = rng.uniform(.3, 2, pr.N + 1)
    f['scaling'] = 'random'
    for k in range(pr.N + 1):
        o, s = pd[pr.kind(k)], pr.st[k]
        for a in ('yref', 'W', 'zl', 'zu', 'Zl', 'Zu', 'lbu', 'ubu', 'lbx', 'ubx', 'lg', 'ug', 'lh', 'uh', 'C', 'D'):
            setattr(s, a, np.array(getattr(o, a)))
        if hasattr(o, 'V'):
            s.V = o.V.copy()
        s.p, s.scal = pr.pval.copy(), pr.scal[k]


def push(pr, s, rng):
    """bring a solver to the data of pr, in random order"""
    ops = []
    for k in range(pr.N + 1):
        st, kd = pr.st[k], pr.kind(k)
        c = pr.ck[kd]
        add = lambda f, v, how, k=k: ops.append((k, f, np.array(v), how))
        add('scaling', [st.scal], 'cost')
        if c.type != 'EXTERNAL':
            add('yref', st.yref, 'cost')
        if c.type in ('LINEAR_LS', 'NONLINEAR_LS'):
            add('W', st.W, 'cost')
        if c.type == 'LINEAR_LS':
            add('Vx', c.Vx, 'cost')
            if c.Vu.size and k < pr.N:
                add('Vu', c.Vu, 'cost')
            if c.Vz.size and k < pr.N:
                add('Vz', c.Vz, 'cost')
        if st.ns:
            for a in ('zl', 'zu', 'Zl', 'Zu'):
                add(a, getattr(st, a), 'cost')
        for a, n in (('bu', st.nbu), ('bx', st.nbx), ('g', st.ng)):
            if n:
                add('l' + a, getattr(st, 'l' + a), 'con')
                add('u' + a, getattr(st, 'u' + a), 'con')
        if st.nh:
            if pr.hk[kd].phi:
                add('uphi', st.uh, 'con')
            else:
                add('lh', st.lh, 'con')
                add('uh', st.uh, 'con')
        if st.ng:
            add('C', st.C, 'con')
            if k < pr.N:
                add('D', st.D, 'con')
        if pr.np:
            add('p', st.p, 'set')
    if pr.npg:
        ops.append((0, '', pr.pgval.copy(), 'pg'))
    for i in rng.permutation(len(ops)):
        k, f, v, how = ops[i]
        if how == 'cost':
            s.cost_set(k, f, v, **(dict(api='new') if v.ndim == 2 else {}))
        elif how == 'con':
            s.constraints_set(k, f, v, **(dict(api='new') if v.ndim == 2 else {}))
        elif how == 'set':
            s.set(k, f, v)
        else:
            s.set_p_global_and_precompute_dependencies(v)
    return len(ops)


QPF = ('A', 'B', 'b', 'Q', 'R', 'S', 'q', 'r', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu', 'zl', 'zu', 'Zl', 'Zu')


def rebuild(case, ob):
    rng = np.random.default_rng(case['seed'] + 23)
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp(name='old%d' % case['seed'])
    rti = bool(rng.integers(2))

    def opts(so):
        so.nlp_solver_type = 'SQP_RTI' if rti else 'SQP'
        so.nlp_solver_max_iter = 15
        so.qp_solver_cond_N = pr.N
        so.qp_tol = 1e-9
        so.qp_solver_iter_max = 200
    opts(ocp.solver_options)
    ocp.solver_options.cost_scaling = pr.scal.copy()
    A = make_solver(ocp)
    for _ in range(2):
        pr.set_iterate(A, pr.random_iterate(rng, 0.5, 0.5))
        A.solve()
    mutate(pr, rng)
    ocp2 = pr.make_ocp(name='new%d' % case['seed'])
    opts(ocp2.solver_options)
    B = make_solver(ocp2)
    A.reset()
    ob.count('changes', push(pr, A, rng))
    for rep in range(3):
        it = pr.random_iterate(rng, 0.4, 0.4)
        sts = []
        for s in (A, B):
            pr.set_iterate(s, it)
        ra, rb = [s.get_residuals(recompute=True) for s in (A, B)]
        ob.close(ra, rb, 1e-10, 'rebuild_res', 'residuals of the changed and the rebuilt solver: %s' % pr.tag())
        ob.close(A.get_cost(), B.get_cost(), 1e-10, 'rebuild_cost', 'cost of the changed and the rebuilt solver: %s' % pr.tag())
        for s in (A, B):
            sts.append(s.solve())
        ob.check(sts[0] == sts[1], 'rebuild_status', lambda: 'status %d (changed) and %d (rebuilt): %s' % (sts[0], sts[1], pr.tag()))
        if sts[0] in (0, 2) and sts[0] == sts[1]:
            for k in range(pr.N + 1):
                for f in ('x', 'u', 'sl', 'su', 'pi', 'lam'):
                    if (f in ('u', 'pi') and k == pr.N):
                        continue
                    a, b = A.get(k, f), B.get(k, f)
                    if sts[0] == 0 or rti:
                        ob.close(a, b, 1e-6, 'rebuild_' + f, '%s of stage %d, changed and rebuilt solver: %s' % (f, k, pr.tag()))
            ob.count('rebuild_solves')
        else:
            A.reset()
            B.reset()
            for s in (A, B):
                if pr.np:
                    s.set_flat('p', np.concatenate([q.p for q in pr.st]))
                if pr.npg:
                    s.set_p_global_and_precompute_dependencies(pr.pgval.copy())
        if rti:
            for k in range(pr.N + 1):
                for f in QPF:
                    if k == pr.N and f in ('A', 'B', 'b', 'R', 'S', 'r', 'D', 'lbu', 'ubu'):
                        continue
                    a, b = A.get_from_qp_in(k, f), B.get_from_qp_in(k, f)
                    ob.close(a, b, 1e-9, 'rebuild_qp', 'QP %s of stage %d, changed and rebuilt solver: %s' % (f, k, pr.tag()))
        ob.state('rebuild', rti, pr.tag())
