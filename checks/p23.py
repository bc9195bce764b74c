"""penalty: random problems (nonlinear least squares, convex-over-nonlinear and external costs) get sequences of quadratic and Huber
penalties (one- and two-sided, initial/path/terminal, XGN or exact Hessians, minimal Hessian).  At random points the value and gradient
of every stage cost have to be the old ones plus the documented penalties computed in numpy, and the outer Hessian handed to the solver
has to be the documented block matrix; everything else stays.  solver: the same with a compiled solver (cost, QP gradient and
Gauss-Newton Hessian at random iterates).  feas: feasibility problems (x0 kept, parametric or penalised, cost kept or dropped, all
kinds of constraints) have the cost 1/2 of the squared violations, no constraints left, and are consistent.  detect: the constraint set
described by nonlinear constraints and by the bounds and linear constraints detected from them is compared at random points around its
boundary, for both constraint signs, offsets, existing bounds, soft constraints, parametric and nonlinear rows.  add: stacked general
linear constraints; removed constraints; values of bad calls."""
import contextlib
import copy
import io
import warnings
import numpy as np
import casadi as ca
import p19
import p22
from prob import Prob, make_solver
from p22 import SUF, Point, expression, agree

PROPERTY = 'P23'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['points are drawn at random, so the kinks of the penalties are not hit', 'the Huber penalty is defined in acados for convex-over-nonlinear costs and upper or two-sided bounds only']
RULE = 'distinct (cost type, penalty kind, sides, stage, Hessian); (constraint row kind, stage, outcome)'
FAM = [('penalty', 90), ('feas', 50), ('detect', 80), ('add', 20), ('solver', 14)]
INF = 1e10


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1900009 * seed + 103 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    globals()[case['fam']](case, ob, np.random.default_rng(case['seed']))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------------------------------------- reference penalties
def huber1(v, d, w):
    """value, slope, curvature, XGN curvature of the one-sided Huber penalty of v <= 0"""
    if v <= 0:
        return 0., 0., 0., 2 * w * d / (2 * abs(v - d))
    if v < 2 * d:
        return w * v * v / 2, w * v, w, w
    return w * 2 * d * d + 2 * w * d * (v - 2 * d), 2 * w * d, 0., 2 * w * d / (2 * abs(v - d))


class Penalty:
    """one penalty on a scalar expression"""
    def __init__(self, rng, kind, stage, expr, tol):
        self.kind, self.stage, self.e = kind, stage, expr
        c = float(rng.uniform(-.6, .6))
        side = int(rng.integers(3)) if kind == 'l2' else int(rng.integers(2))
        self.lb = c - float(rng.uniform(.1, .6)) if side != 0 else None
        self.ub = c if side != 2 else None
        self.w = float(rng.uniform(.3, 4.))
        self.d = float(rng.uniform(.1, .8))
        self.xgn = bool(rng.random() < .6)
        self.mh = float(rng.choice([0., 0., .2]))

    def apply(self, o, rng):
        kw = dict(constraint_type=self.stage) if self.stage != 'path' or rng.random() < .5 else {}
        if rng.random() < .5:
            kw['residual_name'] = 'res%d' % int(rng.integers(10))
        if self.kind == 'l2':
            o.formulate_constraint_as_L2_penalty(self.e, self.w, self.ub, self.lb, **kw)
        else:
            o.formulate_constraint_as_Huber_penalty(self.e, weight=self.w, upper_bound=self.ub, lower_bound=self.lb, huber_delta=self.d, use_xgn=self.xgn, min_hess=self.mh, **kw)

    def terms(self, h):
        """value and derivative with respect to the constraint value; curvature entries of the outer Hessian (exact, XGN) and the inner residual"""
        if self.kind == 'l2':
            v = max(0., h - self.ub if self.ub is not None else 0., self.lb - h if self.lb is not None else 0.)
            s = 1. if self.ub is not None and h > self.ub else -1.
            return self.w * v * v / 2, self.w * v * s, self.w, self.w, s if v > 0 else 0.
        if self.lb is None:
            v, g, H, X = huber1(h - self.ub, self.d, self.w)
            return v, g, max(H, self.mh), max(X, self.mh), 1.
        wd = self.ub - self.lb
        u = 2 * (h - (self.ub + self.lb) / 2) / wd
        v, g, H, X = huber1(abs(u) - 1, self.d, self.w * wd ** 2 / 4)     # weight is the Hessian with respect to the constraint value
        return v, g * np.sign(u) * 2 / wd, max(H, self.mh), max(X, self.mh), 2 / wd


def fun(o, e, stage):
    """value and gradient (x, u, z) of an expression"""
    return lambda p: p22.values(e, o, p)


def draw(rng, pr, o):
    out = []
    for _ in range(int(rng.integers(1, 5))):
        stage = str(rng.choice(list(SUF)))
        if stage == 'initial' and o.cost.cost_type_0 is None:
            stage = 'path'
        kind = str(rng.choice(['l2', 'huber'])) if getattr(o.cost, 'cost_type' + SUF[stage]) == 'CONVEX_OVER_NONLINEAR' else 'l2'
        e = pr.nl(stage == 'terminal')
        if rng.random() < .3:
            e = pr.x[int(rng.integers(pr.nx))]
        out.append(Penalty(rng, kind, stage, e, 0))
    return out


def outer(o, stage, pens, point):
    """documented outer Hessian of a convex-over-nonlinear stage cost after the penalties: exact for the old part; None if the solver computes it"""
    xgn = any(p.kind == 'huber' and p.xgn for p in pens)
    return xgn


def penalty(case, ob, rng):
    types = ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL')
    fix = p22.pick(rng, types if rng.random() < .5 else ('CONVEX_OVER_NONLINEAR',), hess='GAUSS_NEWTON')
    pr = Prob(case['seed'], npg=int(rng.integers(0, 2)), **fix)
    o = quiet(pr.make_ocp, 'pe%d' % case['i'])
    t = copy.deepcopy(o)
    pens = draw(rng, pr, o)
    who = '%s, %s' % ([(p.kind, p.stage, 'two-sided' if None not in (p.lb, p.ub) else 'upper' if p.ub is not None else 'lower') + ((p.xgn,) if p.kind == 'huber' else ()) for p in pens], pr.tag())
    for p in pens:
        quiet(p.apply, t, rng)
        ob.state(p.kind, p.stage, getattr(o.cost, 'cost_type' + SUF[p.stage]), p.lb is None, p.ub is None, p.xgn, pr.f['sym'])
    ob.count('penalties', len(pens))
    p22.untouched(ob, o, t, who, False)
    judge(ob, o, t, pens, who, Point(rng), Point(rng))
    quiet(t.make_consistent)
    if o.cost.cost_type_0 is None:
        o.copy_path_cost_to_stage_0()
        ps = [p for p in pens if p.stage == 'path']
        for p in ps:
            q = copy.copy(p)
            q.stage = 'initial'
            pens.append(q)
    judge(ob, o, t, pens, who + ', consistent', Point(rng))


def judge(ob, o, t, pens, who, *points):
    for stage, s in SUF.items():
        mine = [p for p in pens if p.stage == stage]
        e, f = expression(o, stage), expression(t, stage)
        if e is None:
            continue
        ct = getattr(o.cost, 'cost_type' + s)
        ob.check(getattr(t.cost, 'cost_type' + s) == ct, 'penalty/type', '%s: type of %s cost changes' % (who, stage))
        for pt in points:
            want = p22.values(e, o, pt)[:2]
            H, C = [], []
            for p in mine:
                h = p22.values(p.e, o, pt)
                v, g, hx, xx, j = p.terms(float(h[0][0]))
                want = [want[0] + v, want[1] + g * h[1]]
                H.append((hx, xx))
            agree(ob, want, p22.values(f, t, pt)[:2], 'penalty', '%s: cost of %s stage (%s)' % (who, stage, ct))
            if ct != 'CONVEX_OVER_NONLINEAR' or not mine:
                continue
            c = getattr(t.model, 'cost_conl_custom_outer_hess' + s)
            need = any(p.kind == 'huber' and p.xgn for p in mine)
            ob.check(p19.empty(c) == (not need), 'penalty/hess', '%s: outer Hessian of %s stage %s' % (who, stage, 'missing' if need else 'set without need'))
            if p19.empty(c):
                continue
            # the block of every penalty is exact until an XGN penalty appears, from then on as requested
            psi, r = getattr(o.model, 'cost_psi_expr' + s), getattr(o.model, 'cost_r_in_psi_expr' + s)
            ny = r.numel()
            tr = getattr(t.model, 'cost_r_in_psi_expr' + s)
            y = getattr(t.model, 'cost_y_expr' + s) - getattr(t.cost, 'yref' + s)
            sy = ca.symvar(y)
            sy += [q for q in ca.symvar(psi) + ca.symvar(c) if q.name() not in {z.name() for z in sy + ca.symvar(tr) + ca.symvar(r)}]
            sy = list({q.name(): q for q in sy}.values())
            yv = ca.Function('y', sy, [ca.densify(y)]).call([ca.DM(pt(q)) for q in sy])[0]
            got = np.array(at(c, tr, yv, pt))
            old = np.array(at(ca.hessian(psi, r)[0], r, yv[:ny], pt))
            want = np.zeros((ny + len(mine), ny + len(mine)))
            want[:ny, :ny] = old
            seen = False
            for i, p in enumerate(mine):
                want[ny + i, ny + i] = H[i][1] if p.kind == 'huber' and p.xgn else H[i][0]
            # penalties added before the first XGN one become part of the exact Hessian of the cost defined until then
            for i, p in enumerate(mine):
                if p.kind == 'huber' and p.xgn:
                    break
                want[ny + i, ny + i] = H[i][0] if p.kind == 'l2' else huber_exact(p, float(p22.values(p.e, o, pt)[0][0]))
            ob.close(got, want, 1e-8, 'penalty/outer_hessian', '%s: outer Hessian of %s stage' % (who, stage))


def huber_exact(p, h):
    q = copy.copy(p)
    q.mh = 0.
    return q.terms(h)[2]


def at(e, r, rv, pt):
    """value of an expression whose residual symbols r take the values rv"""
    rs = ca.symvar(r)
    names = [q.name() for q in rs]
    # residual symbols by position: primitives of r in order
    f = ca.Function('p', rs, [ca.densify(r)])
    pos = np.array(f.call([ca.DM(np.arange(sum(z.numel() for z in rs[:i]), sum(z.numel() for z in rs[:i + 1]))) for i in range(len(rs))])[0]).ravel().astype(int)
    flat = np.zeros(len(pos))
    flat[pos] = np.array(rv).ravel()
    vals, k = [], 0
    for q in rs:
        vals.append(ca.DM(flat[k:k + q.numel()]))
        k += q.numel()
    others = []
    for q in ca.symvar(e):
        if not any(ca.is_equal(q, z) for z in rs):
            others.append(q)
    g = ca.Function('g', rs + others, [ca.densify(e)])
    return g.call(vals + [ca.DM(pt(q)) for q in others])[0]


# ------------------------------------------------------------------------------------------------- compiled solvers
def solver(case, ob, rng):
    types = ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR')
    pr = Prob(case['seed'], nz=0, npg=0, hess='GAUSS_NEWTON', cost_disc='EULER', soft=0, **p22.pick(rng, types))
    o = quiet(pr.make_ocp, 'so')
    o.solver_options.nlp_solver_type = 'SQP_RTI'
    t = copy.deepcopy(o)
    pens = draw(rng, pr, o)
    for p in pens:
        quiet(p.apply, t, rng)
    who = '%s, %s' % ([(p.kind, p.stage, p.lb is None, p.ub is None, p.xgn) for p in pens], pr.tag())
    if o.cost.cost_type_0 is None:
        pens += [copy.copy(p) for p in pens if p.stage == 'path']
        for p in pens[len(pens) - sum(p.stage == 'path' for p in pens) // 2:] if any(p.stage == 'path' for p in pens) else []:
            p.stage = 'initial'
    t.name, t.model.name = 'ocp_st', 'st'
    t.code_gen_options.code_export_directory, t.code_gen_options.json_file = 'translated', 't.json'
    A, B = make_solver(o), make_solver(t)
    ob.count('solver pairs')
    ob.state('solver', pr.f['cost_0'], pr.f['cost'], pr.f['cost_e'], len(pens))
    for r in range(3):
        it = pr.random_iterate(rng)
        for s in (A, B):
            pr.set_iterate(s, it)
        total = A.get_cost()
        cb = B.get_cost()
        for s in (A, B):
            s.solve()
        for k in range(pr.N + 1):
            stage = 'initial' if k == 0 else 'path' if k < pr.N else 'terminal'
            mine = [p for p in pens if p.stage == stage]
            q = lambda s, f: s.get_from_qp_in(k, f)
            nu = pr.st[k].nu
            G = np.concatenate([q(A, 'r').ravel(), q(A, 'q').ravel()]) if nu else q(A, 'q').ravel()
            Hs = lambda s: np.block([[q(s, 'R'), q(s, 'S')], [q(s, 'S').T, q(s, 'Q')]]) if nu else q(s, 'Q')
            H = Hs(A)
            custom = any(p.kind == 'huber' and p.xgn for p in mine)
            first = next((i for i, p in enumerate(mine) if p.kind == 'huber' and p.xgn), len(mine))
            for i, p in enumerate(mine):
                val = {str(pr.x): it.x[k]}
                sy = [pr.x] + ([pr.u] if nu else []) + ([pr.p] if pr.np else [])
                args = [it.x[k]] + ([it.u[k]] if nu else []) + ([pr.st[k].p] if pr.np else [])
                f = ca.Function('f', sy, [p.e] + [ca.jacobian(p.e, v) for v in ([pr.u] if nu else []) + [pr.x]])
                out = [np.array(v) for v in f.call([ca.DM(v) for v in args])]
                h, J = float(out[0].ravel()[0]), np.concatenate([v.ravel() for v in out[1:]])
                v, g, hx, xx, j = p.terms(h)
                if p.kind == 'huber':
                    hx = xx if p.xgn else (huber_exact(p, h) if i < first else hx)
                total += pr.scal[k] * v
                G = G + pr.scal[k] * g * J
                H = H + pr.scal[k] * hx * j * j * np.outer(J, J)
            ob.close(np.concatenate([q(B, 'r').ravel(), q(B, 'q').ravel()]) if nu else q(B, 'q').ravel(), G, 1e-8, 'solver/gradient', 'QP gradient at stage %d with penalties %s' % (k, who))
            ob.close(Hs(B), H, 1e-8, 'solver/hessian', 'QP Hessian at stage %d with penalties %s' % (k, who))
        ob.close(cb, total, 1e-9, 'solver/cost', 'cost with penalties %s' % who)


# ------------------------------------------------------------------------------------------------- feasibility problems
def viol(v, l, u):
    return np.maximum(0, np.maximum(np.where(l <= -INF, 0, l) - v if False else l - v, v - u))


def rows(o, stage, xs, us):
    """constraint expressions and bounds of a stage"""
    q, m = o.constraints, o.model
    s = SUF[stage]
    out = [(m.x, getattr(q, 'idxbx' + s), getattr(q, 'lbx' + s), getattr(q, 'ubx' + s))]
    if stage != 'terminal':
        out.append((m.u, q.idxbu, q.lbu, q.ubu))
        if q.C.shape[0]:
            out.append((ca.mtimes(ca.DM(q.C), m.x) + ca.mtimes(ca.DM(q.D), m.u), None, q.lg, q.ug))
    elif q.C_e.shape[0]:
        out.append((ca.mtimes(ca.DM(q.C_e), m.x), None, q.lg_e, q.ug_e))
    if not p19.empty(getattr(m, 'con_h_expr' + s)):
        out.append((getattr(m, 'con_h_expr' + s), None, getattr(q, 'lh' + s), getattr(q, 'uh' + s)))
    if not p19.empty(getattr(m, 'con_phi_expr' + s)):
        out.append((ca.substitute(getattr(m, 'con_phi_expr' + s), getattr(m, 'con_r_in_phi' + s), getattr(m, 'con_r_expr' + s)), None, getattr(q, 'lphi' + s), getattr(q, 'uphi' + s)))
    return [(e, ix, np.asarray(l, float), np.asarray(u, float)) for e, ix, l, u in out]


def feas(case, ob, rng):
    keep_cost = bool(rng.random() < .4)
    fix = p22.pick(rng, ('NONLINEAR_LS', 'EXTERNAL', 'CONVEX_OVER_NONLINEAR'), hess='GAUSS_NEWTON')
    pr = Prob(case['seed'], **fix)
    o = quiet(pr.make_ocp, 'fe%d' % case['i'])
    t = copy.deepcopy(o)
    x0 = o.constraints.has_x0
    mode = int(rng.integers(3)) if x0 else 0
    kw = dict(keep_x0=mode == 1, parametric_x0=mode == 2, keep_cost=keep_cost)
    who = '%s, %s' % (kw, pr.tag())
    quiet(t.translate_to_feasibility_problem, **kw)
    ob.count('problems')
    ob.state(mode, keep_cost, pr.f['cost'], pr.f['constr'], pr.f['sym'], pr.f['soft'] > 0, o.constraints.C.shape[0] > 0, o.constraints.C_e.shape[0] > 0)
    if mode == 2:
        n = pr.nx
        ob.check(t.model.p.numel() == pr.np + n and np.array_equal(t.parameter_values, np.concatenate([np.ravel(o.parameter_values), o.constraints.lbx_0])), 'feas/param', '%s: parameters of the initial state' % who)
    else:
        ob.check(p19.eq(o.parameter_values, t.parameter_values), 'feas/param', '%s: parameters changed' % who)
    u = copy.deepcopy(t)
    quiet(u.make_consistent)
    for T, w in ((t, who), (u, who + ', consistent')):
        for stage, s in SUF.items():
            f = expression(T, stage)
            for rep in range(3):
                pt = Point(rng, scale=(.7, 4., 12.)[rep])
                if mode == 2:
                    names = ca.symvar(T.model.p)
                    pt.put('x0', o.constraints.lbx_0, sy=T.model.p[pr.np:] if isinstance(T.model.p, ca.SX) else names[-1])
                e = expression(o, stage if stage != 'initial' or o.cost.cost_type_0 else 'path')
                want = p22.values(e, o, pt)[0] if keep_cost else np.zeros(1)
                for ex, ix, l, ub in rows(o, stage, None, None):
                    v = p22.values(ex, o, pt)[0] if False else full(ex, pt)
                    v = v[np.asarray(ix, int)] if ix is not None else v
                    if len(v):
                        want = want + .5 * np.sum(np.maximum(0, np.maximum(l - v, v - ub)) ** 2)
                got = p22.values(f, T, pt)[0]
                got = got if len(got) else np.zeros(1)
                ob.count('points')
                ob.check(np.all(np.abs(got - want) <= 1e-9 * (1 + np.abs(want))), 'feas/cost', '%s: cost of %s stage is %s, half the squared violations%s are %s' % (w, stage, got, ' plus cost' if keep_cost else '', want))
    q = t.constraints
    ref = p19.quiet(type(q))
    if mode == 1:
        ref.x0 = o.constraints.lbx_0
    for k in p19.props(q):
        a, b = p19.get(ref, k), p19.get(q, k)
        ob.check(p19.eq(a, b) or (p19.empty(a) and p19.empty(b)), 'feas/constraints', '%s: constraints.%s is %s afterwards' % (who, k, p19.show(b)))
    for k in p19.props(t.model):
        if k.startswith('con_'):
            ob.check(p19.empty(getattr(t.model, k)), 'feas/expressions', '%s: model.%s is left' % (who, k))
    d = u.dims
    ob.check((d.ns, d.ns_0, d.ns_e, d.ng, d.ng_e, d.nh, d.nh_0, d.nh_e, d.nbu, d.nbx, d.nbx_e, d.nbx_0) == (0,) * 11 + (pr.nx * (mode == 1),), 'feas/dims', '%s: constraints left' % who)


def full(e, pt):
    s = ca.symvar(e)
    return np.array(ca.Function('f', s, [ca.densify(e)]).call([ca.DM(pt(v)) for v in s])[0]).ravel()


# ------------------------------------------------------------------------------------------------- detection of affine constraints
def detect(case, ob, rng):
    from acados_template import AcadosOcp
    from acados_template.mpc_utils import detect_constraint_structure
    S = (ca.SX if rng.random() < .6 else ca.MX).sym
    o = AcadosOcp()
    m, q = o.model, o.constraints
    nx, nu, nz = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(0, 2))
    m.name = 'de'
    m.x, m.u, m.xdot = S('x', nx), S('u', nu), S('xdot', nx)
    if nz:
        m.z = S('z', nz)
    if rng.random() < .5:
        m.p = S('p', 2)
    if rng.random() < .3:
        m.p_global = S('pg', 1)
    if rng.random() < .3:
        m.t = S('t', 1)
    if rng.random() < .5:
        quiet(m.make_consistent, o.dims) if False else None
    stages = list(rng.permutation(list(SUF)))[:int(rng.integers(1, 4))]
    stages = [st for st in ('initial', 'path', 'terminal') if st in stages]
    info = {}
    val = lambda n: rng.normal(size=n)
    for st in stages:
        s = SUF[st]
        terminal = st == 'terminal'
        es, kinds = [], []
        for _ in range(int(rng.integers(1, 6))):
            pool = ['x', 'x', '-x', 'gx', 'nl'] + ([] if terminal else ['u', '-u', 'g', 'bilinear']) + (['z'] if nz and not terminal else []) + (['p'] if not p19.empty(m.p) else []) \
                + (['pg'] if not p19.empty(m.p_global) else []) + (['t'] if not p19.empty(m.t) and not terminal else [])
            k = str(rng.choice(pool))
            i, j = int(rng.integers(nx)), int(rng.integers(nu))
            a = float(rng.uniform(.4, 3.)) * (-1 if k[0] == '-' else 1)
            c = float(rng.choice([0., rng.uniform(-1, 1)]))
            e = {'x': lambda: a * m.x[i] + c, '-x': lambda: c + a * m.x[i], 'u': lambda: a * m.u[j] + c, '-u': lambda: c + a * m.u[j], 'gx': lambda: ca.dot(ca.DM(val(nx)), m.x) + c,
                 'g': lambda: ca.dot(ca.DM(val(nx)), m.x) + ca.dot(ca.DM(val(nu)), m.u) + c, 'nl': lambda: ca.sin(m.x[i]) + c * m.x[0], 'bilinear': lambda: m.x[i] * m.u[j] + c,
                 'z': lambda: m.z[0] + a * m.x[i], 'p': lambda: m.p[0] + m.x[i], 'pg': lambda: a * m.x[i] * m.p_global[0], 't': lambda: m.t + a * m.x[i]}[k]()
            es.append(e)
            kinds.append('x' if k == 'gx' and nx == 1 else k)
        n = len(es)
        setattr(m, 'con_h_expr' + s, ca.vertcat(*es))
        lb, ub = rng.uniform(-1.5, -.2, n), rng.uniform(.2, 1.5, n)
        for i in range(n):
            r = rng.random()
            if r < .2:
                lb[i] = -INF
            elif r < .4:
                ub[i] = INF
            elif r < .5:
                lb[i] = ub[i]
                ub[i] = lb[i] + .05
        setattr(q, 'lh' + s, lb)
        setattr(q, 'uh' + s, ub)
        soft = np.sort(rng.choice(n, int(rng.integers(0, n + 1)), replace=False)) if rng.random() < .3 else np.zeros(0, int)
        if len(soft):
            setattr(q, 'idxsh' + s, soft)
        if rng.random() < .4:
            k = int(rng.integers(1, nx + 1))
            setattr(q, 'idxbx' + s, np.sort(rng.choice(nx, k, replace=False)))
            setattr(q, 'lbx' + s, rng.uniform(-2, -1, k))
            setattr(q, 'ubx' + s, rng.uniform(1, 2, k))
        if terminal and rng.random() < .4:
            q.C_e, q.lg_e, q.ug_e = val((1, nx)), np.array([-1.]), np.array([1.])
        info[st] = (kinds, soft)
    if rng.random() < .4:
        q.idxbu, q.lbu, q.ubu = np.array([nu - 1]), np.array([-1.4]), np.array([1.3])
    if rng.random() < .4:
        q.C, q.D, q.lg, q.ug = val((2, nx)), val((2, nu)), np.array([-1., -1.2]), np.array([1., 1.2])
    before = copy.deepcopy(o)
    who = '%s nx=%d nu=%d %s' % (type(m.x).__name__, nx, nu, {a: (b, list(c)) for a, (b, c) in info.items()})
    for st in stages:
        quiet(detect_constraint_structure, m, q, st)
    ob.count('descriptions')
    for st, s in SUF.items():
        A, B = softrows(before, st), softrows(o, st)
        ob.check(A == B, 'detect/soft', '%s: %s softened constraints of the %s stage' % (who, 'order or data of' if len(A) == len(B) else 'number of', st))
        inside = 0
        for _ in range(60):
            pt = Point(np.random.default_rng(int(rng.integers(1 << 30))))
            sc = float(rng.choice([.3, .8, 1.5, 4.]))
            for v in (m.x, m.u):
                pt.put('v', val(v.numel()) * sc, sy=v)
            a, b = [[(full(e, pt)[np.asarray(ix, int)] if ix is not None else full(e, pt), l, u) for e, ix, l, u in rows(d, st, None, None) if len(l)] for d in (before, o)]
            lim = lambda l, u: (np.where(l <= -INF, -np.inf, l), np.where(u >= INF, np.inf, u))
            ok = [all(np.all(v >= lim(l, u)[0]) and np.all(v <= lim(l, u)[1]) for v, l, u in z) for z in (a, b)]
            # the smallest distance to a bound must not be a matter of rounding
            gap = min([np.min(np.abs(np.concatenate([v - l, u - v]))) for v, l, u in a] or [1.])
            if gap < 1e-9:
                continue
            ob.count('points')
            inside += ok[0]
            if st == 'initial' and 'path' in stages and ok[0]:
                # bounds on u and general linear constraints of the path also hold at the initial stage
                (h, _, l, u), = [z for z in rows(before, 'path', None, None) if len(z[2]) and z[0] is before.model.con_h_expr]
                v = full(h, pt)
                shared = [i for i, k in enumerate(info['path'][0]) if i not in info['path'][1] and k not in ('nl', 'bilinear', 'z', 'p', 'pg', 't')]
                l, u = (w[shared] for w in lim(l, u))
                v = v[shared]
                if np.any((v < l) | (v > u)):
                    continue
            ob.check(ok[0] == ok[1], 'detect/set', '%s: point is %s the %s constraints before and %s after' % (who, 'in' if ok[0] else 'not in', st, 'in' if ok[1] else 'not in'))
        ob.count('feasible points', inside)
        if st not in info:
            continue
        kinds, soft = info[st]
        # affine constraints have to be found (bounds only once per variable)
        nh = 0 if p19.empty(getattr(m, 'con_h_expr' + s)) else getattr(m, 'con_h_expr' + s).numel()
        ob.check(nh == np.size(getattr(q, 'lh' + s)) == np.size(getattr(q, 'uh' + s)), 'detect/nh', '%s: sizes of %s nonlinear constraints' % (who, st))
        must = sum(k in ('nl', 'bilinear', 'z', 'p', 'pg', 't') or i in soft for i, k in enumerate(kinds))
        if st != 'initial':
            ob.check(nh == must, 'detect/found', '%s: %d nonlinear constraints left at %s stage, should be %d' % (who, nh, st, must))
        else:
            ob.check(nh >= must, 'detect/found', '%s: %d nonlinear constraints left at %s stage, at least %d needed' % (who, nh, st, must))
        ix = getattr(q, 'idxbx' + s)
        ob.check(len(set(ix)) == len(ix), 'detect/unique', '%s: index twice in idxbx%s: %s' % (who, s, ix))
        for k, i in zip(kinds, range(len(kinds))):
            ob.state(st, k, i in soft, nh)
    if 'terminal' not in stages and rng.random() < .5:      # terminal constraints of controls are refused
        m.con_h_expr_e, q.lh_e, q.uh_e = m.u[0] + m.x[0], np.array([0.]), np.array([1.])
        try:
            quiet(detect_constraint_structure, m, q, 'terminal')
            ob.check(False, 'detect/terminal', 'terminal constraint with control accepted')
        except ValueError:
            ob.count('refused')


def softrows(o, st):
    """(bounds, value at a fixed point) of softened nonlinear constraints, in the order of the slacks"""
    s = SUF[st]
    ix = np.asarray(getattr(o.constraints, 'idxsh' + s), int)
    if not len(ix):
        return []
    v = full(getattr(o.model, 'con_h_expr' + s), Point(np.random.default_rng(7)))
    return [(float(getattr(o.constraints, 'lh' + s)[i]), float(getattr(o.constraints, 'uh' + s)[i]), round(float(v[i]), 10)) for i in ix]


# ------------------------------------------------------------------------------------------------- linear constraints, removal
def add(case, ob, rng):
    pr = Prob(case['seed'])
    o = quiet(pr.make_ocp, 'ad%d' % case['i'])
    t = copy.deepcopy(o)
    C, D, l, u = (getattr(o.constraints, k).copy() for k in ('C', 'D', 'lg', 'ug'))
    who = pr.tag()
    for r in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 4))
        a = [rng.normal(size=(n, pr.nx)), rng.normal(size=(n, pr.nu)), rng.uniform(-1, 0, n), rng.uniform(0, 1, n)]
        if len(l) == 0:
            C, D = np.zeros((0, pr.nx)), np.zeros((0, pr.nu))
        C, D, l, u = np.vstack([C, a[0]]), np.vstack([D, a[1]]), np.concatenate([l, a[2]]), np.concatenate([u, a[3]])
        t.add_linear_constraint(*[v.copy() for v in a])
        for k, v in zip(('C', 'D', 'lg', 'ug'), (C, D, l, u)):
            w = getattr(t.constraints, k)
            ob.count('matrices')
            ob.check(isinstance(w, np.ndarray) and w.shape == v.shape and np.array_equal(w, v), 'add/' + k, lambda: '%s: %s is %s after adding %d rows %d times, should be %s' % (who, k, p19.show(w), n, r + 1, p19.show(v)))
        for bad in range(3):
            b = [v.copy() for v in a]
            b[1 + bad] = b[1 + bad][:-1] if rng.random() < .5 else np.concatenate([b[1 + bad], b[1 + bad][:1]])
            x = copy.deepcopy(t)
            try:
                x.add_linear_constraint(*b)
                ob.check(False, 'add/refused', '%s: mismatching rows accepted' % who)
            except Exception:
                ob.count('refused')
    ob.state('add', pr.f['ng'] and True, n)
    if not len(o.constraints.idxsg) and p19.empty(o.constraints.idxs_rev) and p19.empty(o.constraints.idxs_rev_0):
        quiet(t.make_consistent)
        ob.check(t.dims.ng == len(l), 'add/dims', '%s: ng is %d, %d constraints were added' % (who, t.dims.ng, len(l)))
    # removal
    for keep in (False, True):
        t = copy.deepcopy(o)
        if keep and not o.constraints.has_x0:
            try:
                t.remove_all_constraints(keep_x0=True)
                ob.check(False, 'remove/refused', '%s: keeping x0 without x0' % who)
            except NotImplementedError:
                ob.count('refused')
            continue
        t.remove_all_constraints(keep_x0=keep)
        quiet(t.make_consistent)
        d = t.dims
        got = {k: getattr(d, k) for k in ('nbx_0', 'nbu', 'nbx', 'nbx_e', 'ng', 'ng_e', 'nh', 'nh_0', 'nh_e', 'nphi', 'nphi_0', 'nphi_e', 'ns', 'ns_0', 'ns_e')}
        ob.check(all(v == (pr.nx if keep and k == 'nbx_0' else 0) for k, v in got.items()), 'remove/dims', '%s: constraints left: %s' % (who, got))
        if keep:
            ob.check(np.array_equal(t.constraints.lbx_0, o.constraints.lbx_0) and np.array_equal(t.constraints.ubx_0, o.constraints.lbx_0) and t.constraints.has_x0, 'remove/x0', '%s: initial state changed' % who)
        for stage in SUF:
            e, f = expression(o, stage if stage != 'initial' or o.cost.cost_type_0 else 'path'), expression(t, stage)
            pt = Point(rng)
            agree(ob, p22.values(e, o, pt), p22.values(f, t, pt), 'remove', '%s: cost of %s stage' % (who, stage))
    # wrong uses
    e = pr.x[0]
    for w, f in (('no bound', lambda x: x.formulate_constraint_as_L2_penalty(e, 1., None, None)), ('crossed bounds', lambda x: x.formulate_constraint_as_L2_penalty(e, 1., 0., 1.)),
                 ('unknown stage', lambda x: x.formulate_constraint_as_L2_penalty(e, 1., 1., 0., constraint_type='last')), ('Huber: no bound', lambda x: x.formulate_constraint_as_Huber_penalty(e, 1.)),
                 ('Huber: unknown stage', lambda x: x.formulate_constraint_as_Huber_penalty(e, 1., 1., constraint_type='last'))):
        x = copy.deepcopy(o)
        try:
            quiet(f, x)
            ob.check(False, 'refused', '%s: %s accepted' % (who, w))
        except Exception:
            ob.count('refused')
    if o.cost.cost_type != 'CONVEX_OVER_NONLINEAR':
        try:
            quiet(copy.deepcopy(o).formulate_constraint_as_Huber_penalty, e, 1., 1.)
            ob.check(False, 'refused', '%s: Huber penalty accepted for %s' % (who, o.cost.cost_type))
        except ValueError:
            ob.count('refused')
