"""translate: problems with random least squares, nonlinear least squares and convex-over-nonlinear costs (all stages, with z, time,
parameters) are translated with every translation function (whole problem or single terms; EXACT and GAUSS_NEWTON Hessians; numeric or
symbolic references and weights that become new stage-wise or global parameters; least squares to convex-over-nonlinear).  The cost of
every stage, its gradient and Hessian (and the Gauss-Newton Hessian handed over) are evaluated at random points and compared with the
original definition, evaluated by an independent reader of the description; everything else in the description must be unchanged; the
expressions returned by get_*_cost_expression must agree, too.  auto: random quadratic (definite, singular, indefinite, shifted,
scattered over many variables, zero), affine, parametric, time dependent and non-quadratic costs in SX and MX with automatic cost type:
making the problem consistent has to keep value and derivatives, find the least squares form of strictly convex quadratics, and use
EXTERNAL otherwise.  solver: solvers of the original and the translated problem get the same iterates and (as data or parameters) the
same references and weights; cost value, QP gradients and Hessians have to agree."""
import contextlib
import copy
import io
import warnings
import numpy as np
import casadi as ca
import p19
from prob import Prob, make_solver, spd

PROPERTY = 'P22'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['Gauss-Newton Hessians of translated costs are judged for problems without algebraic variables (documented as covering u and x only)']
RULE = 'distinct (cost types, translation, symbolic inputs, features)'
FAM = [('translate', 90), ('auto', 90), ('solver', 16)]
SUF = {'initial': '_0', 'path': '', 'terminal': '_e'}


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1700003 * seed + 101 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    globals()[case['fam']](case, ob, np.random.default_rng(case['seed']))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------------------------------------- independent reader of costs
def expression(o, stage):
    """cost of a stage as the documentation defines it, from the fields of the description"""
    s, m, c = SUF[stage], o.model, o.cost
    ct = getattr(c, 'cost_type' + s)
    if ct is None:
        return None
    if ct in ('EXTERNAL', 'AUTO'):
        return ca.DM(getattr(m, 'cost_expr_ext_cost' + s)) if isinstance(getattr(m, 'cost_expr_ext_cost' + s), (int, float)) else getattr(m, 'cost_expr_ext_cost' + s)
    yref = getattr(c, 'yref' + s)
    if ct == 'LINEAR_LS':
        y = ca.DM.zeros(np.size(yref))
        for V, v in (('Vx', m.x), ('Vu', m.u), ('Vz', m.z)):
            V = getattr(c, V + s, None)
            if V is not None and np.size(V):
                y = y + ca.mtimes(ca.DM(V), v)
    else:
        y = getattr(m, 'cost_y_expr' + s)
        if p19.empty(y):
            return ca.DM(0)
    r = y - yref
    if ct == 'CONVEX_OVER_NONLINEAR':
        return ca.substitute(getattr(m, 'cost_psi_expr' + s), getattr(m, 'cost_r_in_psi_expr' + s), r)
    W = getattr(c, 'W' + s)
    return ca.mtimes([r.T, W if isinstance(W, (ca.SX, ca.MX)) else ca.DM(W), r]) / 2 if np.size(yref) or not isinstance(yref, np.ndarray) else ca.DM(0)


def values(e, o, point, stage='path'):
    """value, gradient and Hessian with respect to (x, u, z) at a point {name of symbol: value}"""
    if isinstance(e, (int, float, np.ndarray)):
        e = ca.DM(e)
    w = [v for v in (o.model.x, o.model.u, o.model.z) if not p19.empty(v)]
    if isinstance(e, ca.DM):
        n = sum(v.numel() for v in w)
        return [np.array(e).ravel(), np.zeros(n), np.zeros((n, n))]
    g = ca.vertcat(*[ca.jacobian(e, v).T for v in w])
    H = ca.horzcat(*[ca.jacobian(g, v) for v in w])
    s = ca.symvar(ca.veccat(e, *w))
    f = ca.Function('f', s, [e, ca.densify(g), ca.densify(H)])
    r = [np.array(v) for v in f.call([ca.DM(point(v)) for v in s])]
    return [r[0].ravel(), r[1].ravel(), r[2]]


class Point:
    """random values by name of symbol, the same for every expression asked"""
    def __init__(self, rng, given=(), scale=.7):
        self.scale = scale
        self.seed, self.v, self.sy = int(rng.integers(1 << 30)), dict(given), {}

    def put(self, nm, v, sy=None):
        """value of a vector symbol; vectors of type SX consist of scalar symbols"""
        v = np.ravel(v, order='F')
        if sy is not None:
            self.sy[nm] = sy
        e = self.sy[nm]
        for i, q in enumerate(ca.vertsplit(e)) if isinstance(e, ca.SX) else [(None, e)]:
            self.v[q.name()] = v.reshape(-1, 1) if i is None else v[i].reshape(1, 1)

    def __call__(self, s):
        if s.name() not in self.v:
            self.v[s.name()] = np.random.default_rng([self.seed] + list(s.name().encode())).normal(size=s.shape) * self.scale
        return self.v[s.name()]


def agree(ob, a, b, key, what, hess=True):
    for nm, p, q in zip(('value', 'gradient', 'Hessian'), a, b):
        if nm == 'Hessian' and not hess:
            continue
        ob.count('values compared', np.size(p))
        ob.check(p.shape == q.shape and np.all(np.abs(p - q) <= 1e-9 * (1 + np.max(np.abs(p), initial=0) + abs(a[0][0]))), key + '/' + nm, lambda: '%s: %s is %s, was %s' % (what, nm, np.ravel(q)[:6], np.ravel(p)[:6]))


COSTF = {p + s for s in SUF.values() for p in ('cost_type', 'W', 'Vx', 'Vu', 'Vz', 'yref', 'cost_ext_fun_type')}
MODELF = {p + s for s in SUF.values() for p in ('cost_y_expr', 'cost_expr_ext_cost', 'cost_expr_ext_cost_custom_hess', 'cost_psi_expr', 'cost_r_in_psi_expr', 'cost_conl_custom_outer_hess')}


def untouched(ob, a, b, who, newp):
    for part, skip in (('cost', COSTF), ('model', MODELF | ({'p', 'p_global'} if newp else set())), ('constraints', set()), ('solver_options', set())):
        A, B = getattr(a, part), getattr(b, part)
        for k in p19.props(A):
            if k in skip:
                continue
            v, w = p19.get(A, k), p19.get(B, k)
            ob.count('fields compared')
            if p19.expr(v):
                ob.check(p19.expr(w) and len(v.shape) == len(w.shape) and np.all([np.array_equal(p, q) for p, q in zip(p19.evaluate(A, k, 3), p19.evaluate(B, k, 3)) if not isinstance(p, list)]), 'untouched/' + k, '%s: %s.%s changed' % (who, part, k))
            else:
                ob.check(p19.eq(v, w) or (p19.empty(v) and p19.empty(w)), 'untouched/' + k, '%s: %s.%s changed: %s -> %s' % (who, part, k, p19.show(v), p19.show(w)))


LS = ('LINEAR_LS', 'NONLINEAR_LS')
ALL = LS + ('CONVEX_OVER_NONLINEAR',)


def pick(rng, types, **fix):
    c0 = str(rng.choice(list(types) + ['same']))
    return dict(cost_0=c0, cost=str(rng.choice(types)), cost_e=str(rng.choice(types)), **fix)


def translation(rng, o, how, point):
    """apply a translation to o; returns (description, {stage: expected Hessian kind}, new parameters?)"""
    m, c = o.model, o.cost
    if how == 'conl':
        o.translate_nls_cost_to_conl()
        return False
    hess = 'GAUSS_NEWTON' if how.startswith('gn') else 'EXACT'
    if how.endswith('single'):
        order = [o.translate_initial_cost_term_to_external, o.translate_intermediate_cost_term_to_external, o.translate_terminal_cost_term_to_external]
        for i in rng.permutation(3)[:int(rng.integers(1, 4))]:
            order[i](cost_hessian=hess)
        return False
    kw = dict(cost_hessian=hess)
    newp = False
    if how.endswith('sym'):
        S = type(m.x).sym
        parts, vals = {'p': [], 'p_global': []}, {'p': [], 'p_global': []}
        for s in SUF.values():
            ct = getattr(c, 'cost_type' + s)
            if ct is None:
                continue
            for f in ('yref', 'W'):
                if rng.random() < .4 or (f == 'W' and ct not in LS):
                    continue
                v = getattr(c, f + s)
                to = 'p' if rng.random() < .6 else 'p_global'
                q = S('new_%s_%s' % (f, s or '_p'), v.size)
                kw[f + s] = q if f == 'yref' else ca.reshape(q, *v.shape)
                parts[to].append(q)
                vals[to].append(np.ravel(v, order='F'))
                point.put('new_' + f + s, v, q)
        for to in parts:
            if parts[to]:
                q = ca.vertcat(*parts[to])
                kw[to], kw[to + '_values'] = q, np.concatenate(vals[to])
                newp = True
    o.translate_cost_to_external_cost(**kw)
    return newp


HOW = ['conl', 'exact', 'exact sym', 'exact single', 'gn', 'gn sym', 'gn single']


def translate(case, ob, rng):
    how = HOW[case['i'] % len(HOW)]
    types = ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR') if how == 'conl' else LS if how.startswith('gn') else ALL
    fix = pick(rng, types, **({'nz': 0} if how.startswith('gn') else {}))
    if 'CONVEX_OVER_NONLINEAR' in fix.values() or how == 'conl':
        fix['hess'] = 'GAUSS_NEWTON'
    pr = Prob(case['seed'], npg=int(rng.integers(0, 2)), **fix)
    o = quiet(pr.make_ocp, 'tr%d' % case['i'])
    if rng.random() < .5:
        quiet(o.make_consistent)
    elif pr.np == 0:
        o.parameter_values = np.zeros(0)
    t = copy.deepcopy(o)
    points = [Point(rng) for _ in range(3)]
    shared = Point(rng)
    who = '%s, %s' % (how, pr.tag())
    newp = quiet(translation, rng, t, how, shared)
    ob.count('descriptions')
    ob.state(how, pr.f['cost_0'], pr.f['cost'], pr.f['cost_e'], pr.f['sym'], pr.nz > 0, pr.np > 0, pr.f['time'])
    untouched(ob, o, t, who, newp)
    ob.check((newp or p19.eq(o.parameter_values, t.parameter_values)) and (newp or p19.eq(o.p_global_values, t.p_global_values)), 'untouched/values', '%s: parameter values changed' % who)
    if newp:
        for f, v in (('parameter_values', 'p'), ('p_global_values', 'p_global')):
            sy, val = getattr(t.model, v), np.ravel(getattr(t, f))
            n = 0 if p19.empty(sy) else sy.numel()
            ob.check(n == val.size, 'parameters/size', '%s: %d values for %d entries of %s' % (who, val.size, n, v))
            old = np.ravel(getattr(o, f))
            ob.check(np.array_equal(val[:old.size], old), 'parameters/old', '%s: values of earlier parameters changed' % who)
            if n and n == val.size:     # every new parameter carries the value it stands for
                sl = ca.symvar(sy)
                g = ca.Function('g', sl, [ca.densify(sy)])
                got = np.array(g.call([ca.DM(shared.v.get(q.name(), np.nan * np.ones(q.shape))) for q in sl])[0]).ravel()
                k = old.size
                ob.check(np.array_equal(got[k:], val[k:]), 'parameters/values', '%s: values of new %s are %s, should be %s' % (who, v, val[k:], got[k:]))
    for stage, s in SUF.items():
        e, f = expression(o, stage), expression(t, stage)
        ob.check((e is None) == (f is None), 'cost/missing', '%s: cost of %s stage appears or disappears' % (who, stage))
        if e is None or f is None:
            continue
        a, b = getattr(o.cost, 'cost_type' + s), getattr(t.cost, 'cost_type' + s)
        if how == 'conl':
            ob.check(b == 'CONVEX_OVER_NONLINEAR', 'cost/type', '%s: cost type of %s stage is %s' % (who, stage, b))
        elif 'single' not in how:
            ob.check(b == 'EXTERNAL', 'cost/type', '%s: cost type of %s stage is %s' % (who, stage, b))
        for p in points:
            p.v.update(shared.v)
            x = values(e, o, p)
            agree(ob, x, values(f, t, p), 'cost', '%s, %s stage, %s -> %s' % (who, stage, a, b))
            for d in (o, t):
                agree(ob, x, values(getattr(d, 'get_%s_cost_expression' % stage)(), d, p), 'get_cost_expression', '%s, %s stage, %s' % (who, stage, getattr(d.cost, 'cost_type' + s)))
            h = getattr(t.model, 'cost_expr_ext_cost_custom_hess' + s)
            ob.check(p19.empty(h) == (not (how.startswith('gn') and a == 'NONLINEAR_LS' and b == 'EXTERNAL')), 'cost/custom_hess', '%s, %s stage, %s -> %s: custom Hessian %s' % (who, stage, a, b, 'missing' if p19.empty(h) else 'set'))
            if not p19.empty(h):
                w = ca.vertcat(o.model.x) if stage == 'terminal' else ca.vertcat(o.model.u, o.model.x)
                y, W = getattr(o.model, 'cost_y_expr' + s), getattr(o.cost, 'W' + s)
                J = ca.horzcat(*[ca.jacobian(y, v) for v in ([] if stage == 'terminal' else [o.model.u]) + [o.model.x]])
                sy = ca.symvar(ca.veccat(J, h))
                Jv, hv = [np.array(v) for v in ca.Function('j', sy, [ca.densify(J), ca.densify(h)]).call([ca.DM(p(v)) for v in sy])]
                ob.close(hv, Jv.T @ W @ Jv, 1e-9, 'cost/gauss_newton', '%s, %s stage: Gauss-Newton Hessian' % (who, stage))
    # a second translation has nothing left to do
    if how in ('exact', 'exact sym', 'conl'):
        u = copy.deepcopy(t)
        if how == 'conl':
            quiet(u.translate_nls_cost_to_conl)
        else:
            quiet(u.translate_cost_to_external_cost)
        for stage in SUF:
            e, f = expression(t, stage), expression(u, stage)
            if e is not None:
                agree(ob, values(e, t, points[0]), values(f, u, points[0]), 'twice', '%s, %s stage, translated twice' % (who, stage))
    quiet(t.make_consistent)
    quiet(o.make_consistent)
    for stage in SUF:
        agree(ob, values(expression(o, stage), o, points[1]), values(expression(t, stage), t, points[1]), 'consistent', '%s, %s stage, after make_consistent' % (who, stage))


# ------------------------------------------------------------------------------------------------- automatic detection
KINDS = ['definite', 'definite', 'subset', 'singular', 'indefinite', 'affine', 'constant', 'zero', 'bilinear', 'quartic', 'mixed', 'parametric', 'global', 'time', 'sine', 'linear', 'tiny']


def form(rng, kind, w, m):
    n = w.numel()
    v = rng.uniform(-1, 1, n)
    q = lambda W, d: ca.mtimes([d.T, ca.DM(W), d]) / 2
    if kind in ('definite', 'subset', 'tiny'):
        ix = np.sort(rng.choice(n, n if kind == 'definite' else int(rng.integers(1, n + 1)), replace=False))
        d = ca.vertcat(*[w[int(i)] - v[i] for i in ix])
        W = spd(rng, len(ix), bool(rng.random() < .3)) * (1e-3 if kind == 'tiny' else 1)
        return (q(W, d) if rng.random() < .5 else sum(W[i, j] * d[i] * d[j] / 2 for i in range(len(ix)) for j in range(len(ix)))), True
    base = q(spd(rng, n), w - v) if rng.random() < .6 else ca.sumsqr(w)
    if kind == 'singular':
        a = rng.normal(size=n)
        return ca.sumsqr(ca.dot(ca.DM(a), w) - .3), False
    if kind == 'indefinite':
        A = spd(rng, n)
        A[0, 0] = -1.5
        return q(A, w), False
    if kind == 'affine':
        return w[0] ** 2 + (w[n - 1] if n > 1 else 3.), False
    if kind == 'constant':
        return base + 1.7, False
    if kind == 'zero':
        return 0 * w[0], None
    if kind == 'linear':
        return ca.dot(ca.DM(v), w), False
    if kind == 'bilinear':
        return base + w[0] * w[n - 1] * (w[0] if n < 3 else w[1]), False
    if kind == 'quartic':
        return base + w[0] ** 2 * w[n - 1] ** 2, False
    if kind == 'mixed':
        return base + .1 * w[0] ** 4, False
    if kind == 'sine':
        return base + ca.sin(w[n - 1]), False
    s = {'parametric': m.p, 'global': m.p_global, 'time': m.t}[kind]
    return (base * (1 + s[0] ** 2) if rng.random() < .5 else base + s[0] * w[0]), False


def auto(case, ob, rng):
    from acados_template import AcadosOcp
    S = (ca.SX if rng.random() < .5 else ca.MX).sym
    o = AcadosOcp()
    m = o.model
    m.name = 'au%d' % case['i']
    nx, nu, nz = int(rng.choice([1, 2, 3, 5, 11, 17])), int(rng.choice([0, 1, 2, 3, 9])), int(rng.choice([0, 0, 1, 2]))
    m.x, m.u = S('x', nx), S('u', nu) if nu else []
    m.xdot = S('xdot', nx)
    if nz:
        m.z = S('z', nz)
    if rng.random() < .5:
        m.p = S('p', 2)
        o.parameter_values = rng.normal(size=2)
    if rng.random() < .4:
        m.p_global = S('pg', 1)
        o.p_global_values = rng.normal(size=1)
    m.t = S('t', 1) if rng.random() < .4 else []
    m.f_impl_expr = ca.vertcat(m.xdot + m.x, *([m.z - m.x[0]] if nz else []))
    o.solver_options.integrator_type = 'IRK'
    o.solver_options.N_horizon = 3
    o.solver_options.tf = 1.
    o.solver_options.hessian_approx = 'EXACT'
    kinds = {}
    for stage, s in SUF.items():
        if stage == 'initial' and rng.random() < .4:
            continue
        ok = [k for k in KINDS if not (k == 'parametric' and p19.empty(m.p)) and not (k == 'global' and p19.empty(m.p_global)) and not (k == 'time' and (p19.empty(m.t) or stage == 'terminal'))]
        kind = ok[(case['i'] + int(rng.integers(3))) % len(ok)]
        w = m.x if stage == 'terminal' else ca.vertcat(m.x, *([m.u] if nu else []), *([m.z] if nz else []))
        e, ls = form(rng, kind, w, m)
        kinds[stage] = (kind, ls)
        setattr(o.cost, 'cost_type' + s, 'AUTO')
        setattr(m, 'cost_expr_ext_cost' + s, e)
    if 'initial' not in kinds:
        kinds['initial'] = kinds['path']
    before = {st: expression(o, st if st != 'initial' or o.cost.cost_type_0 else 'path') for st in SUF}
    ref = {st: [values(before[st], o, Point(np.random.default_rng([case['seed'], j]))) for j in range(3)] for st in SUF}
    who = '%s nx=%d nu=%d nz=%d %s' % (S.__self__.__name__ if hasattr(S, '__self__') else type(m.x).__name__, nx, nu, nz, kinds)
    quiet(o.make_consistent, verbose=bool(rng.random() < .5))
    ob.count('descriptions')
    for stage, s in SUF.items():
        kind, ls = kinds[stage]
        ct = getattr(o.cost, 'cost_type' + s)
        ob.state(stage, kind, ct, type(m.x).__name__, nz > 0, nx > 8)
        ob.check(ct in ('LINEAR_LS', 'EXTERNAL'), 'auto/type', '%s: %s stage has cost type %s' % (who, stage, ct))
        if ls:
            ob.check(ct == 'LINEAR_LS', 'auto/found', '%s: strictly convex quadratic cost of %s stage becomes %s' % (who, stage, ct))
        if kind in ('parametric', 'global', 'time', 'quartic', 'mixed', 'sine', 'bilinear'):
            ob.check(ct == 'EXTERNAL', 'auto/external', '%s: %s cost of %s stage becomes %s' % (who, kind, stage, ct))
        if ct == 'LINEAR_LS':
            ny = np.size(getattr(o.cost, 'yref' + s))
            ob.check(getattr(o.dims, 'ny' + s) == ny == np.shape(getattr(o.cost, 'W' + s))[0], 'auto/ny', '%s: dimensions of %s stage inconsistent' % (who, stage))
        for j in range(3):
            agree(ob, ref[stage][j], values(expression(o, stage), o, Point(np.random.default_rng([case['seed'], j]))), 'auto', '%s, %s stage becomes %s' % (who, stage, ct))


# ------------------------------------------------------------------------------------------------- compiled solvers
def layout(sy, old):
    """entries of a parameter vector behind the first `old` ones: list of (name, index in the new symbol)"""
    sl = ca.symvar(sy)
    f = ca.Function('f', sl, [ca.densify(sy)])
    tag, n = [], 0
    for q in sl:
        tag.append(np.arange(n, n + q.numel()).reshape(q.shape, order='F'))
        n += q.numel()
    pos = np.array(f(*tag)).ravel().astype(int)
    flat = [(q.name(), j) for q in sl for j in range(q.numel())]
    return [flat[i] for i in pos[old:]]


def solver(case, ob, rng):
    how = HOW[case['i'] % len(HOW)]
    gn = how.startswith('gn')
    types = ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR') if how == 'conl' else LS if gn else ALL
    fix = pick(rng, types)
    conl = 'CONVEX_OVER_NONLINEAR' in fix.values()
    fix['hess'] = 'GAUSS_NEWTON' if gn or conl or how == 'conl' else 'EXACT'
    judge = not (conl and how != 'conl')      # Gauss-Newton Hessian of the original against the exact one of the translated cost
    pr = Prob(case['seed'], nz=0, npg=0, constr='BGH', cost_disc='EULER', **fix)
    o = quiet(pr.make_ocp, 'so')
    o.solver_options.nlp_solver_type = 'SQP_RTI'
    o.solver_options.qp_solver_cond_N = pr.N
    t = copy.deepcopy(o)
    shared = Point(rng)
    quiet(translation, rng, t, how, shared)
    who = '%s, %s' % (how, pr.tag())
    t.name = 'ocp_st'
    t.model.name = 'st'
    t.code_gen_options.code_export_directory = 'translated'
    t.code_gen_options.json_file = 't.json'
    first = o.cost.cost_type_0 is not None
    A, B = make_solver(o), make_solver(t)
    ob.count('solver pairs')
    ob.state('solver', how, pr.f['cost_0'], pr.f['cost'], pr.f['cost_e'], pr.f['hess'])
    newp = layout(t.model.p, np.size(o.parameter_values)) if not p19.empty(t.model.p) else []
    newg = layout(t.model.p_global, 0) if not p19.empty(t.model.p_global) else []
    for r in range(3):
        if r:           # new references and weights: data of the original, parameters of the translation
            for s, ks in (('_0', [0] if first else []), ('', range(1 if first else 0, pr.N)), ('_e', [pr.N])):
                for f in ('yref', 'W'):
                    nm = 'new_' + f + s
                    if nm not in shared.sy:
                        continue
                    n = np.size(getattr(o.cost, 'yref' + s))
                    v = rng.uniform(-.5, .5, n) if f == 'yref' else spd(rng, n)
                    shared.put(nm, v)
                    for k in ks:
                        A.cost_set(k, f, v, api='new')
            for k in range(pr.N + 1):
                if newp:
                    B.set(k, 'p', np.concatenate([pr.st[k].p, [shared.v[nm][j, 0] for nm, j in newp]]))
            if newg:
                B.set_p_global_and_precompute_dependencies(np.array([shared.v[nm][j, 0] for nm, j in newg]))
        it = pr.random_iterate(rng)
        for s in (A, B):
            pr.set_iterate(s, it)
        ob.close(B.get_cost(), A.get_cost(), 1e-9, 'solver/cost', 'iterate %d, new %s: ' % (r, sorted(shared.sy)) + 'cost of the translated problem: ' + who)
        st = [s.solve() for s in (A, B)]
        for k in range(pr.N + 1):
            for nm in ('q', 'r', 'Q', 'R', 'S', 'zl', 'zu', 'Zl', 'Zu', 'A', 'B', 'b', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu'):
                if (k == pr.N and nm in 'ABb') or (nm in 'QRS' and not judge):
                    continue
                ob.close(B.get_from_qp_in(k, nm), A.get_from_qp_in(k, nm), 1e-8, 'solver/' + nm, 'QP field %s, stage %d: %s' % (nm, k, who))
        if judge and st == [0, 0] and not np.any(A.get_stats('qp_stat')) and not np.any(B.get_stats('qp_stat')):
            ob.count('steps compared')
            for nm in ('x', 'u'):
                a, b = A.get_flat(nm), B.get_flat(nm)
                ob.check(np.all(np.abs(a - b) <= 1e-3 * (1 + np.abs(a))), 'solver/step', lambda: '%s: %s after a step differs by %.1e' % (who, nm, np.max(np.abs(a - b))))
