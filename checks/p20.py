"""keep: random consistent formulations are made consistent; every derived dimension has to equal the one counted independently from
the given data, every field that was given has to keep its value (expressions are compared by evaluation), stage 0 costs that were
not given have to equal the path cost, and making the description consistent a second time changes nothing.  bad: every applicable
mutation from a table (one dimension of one field wrong in either direction, part missing, index out of range, expression of wrong
shape or depending on a variable it must not depend on, conflicting options) is applied to a copy; it has to be refused with an
exception, by the setter or by make_consistent.  good: option combinations on the allowed side of the same limits are accepted.
sim, mocp: the same for simulation and multi-phase descriptions."""
import contextlib
import copy
import io
import json
import warnings
import numpy as np
import casadi as ca
import p19
from prob import Prob

PROPERTY = 'P20'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['a mutation counts as refused if any exception is raised before a solver could be created',
               'index sets with duplicates and decreasing time grids are not judged: no documentation forbids them']
RULE = 'distinct (mutation, cost types, constraint type, slack variant)'
FAM = [('keep', 60), ('bad', 60), ('mocp', 16), ('sim', 8)]
SUF = ('_0', '', '_e')


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1700021 * seed + 101 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    globals()[case['fam']](case, ob, np.random.default_rng(case['seed']))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def ne(v):
    return not p19.empty(v)


def n_(v):
    return 0 if not ne(v) else int(np.prod(v.shape)) if hasattr(v, 'shape') else len(v)


def rows(v):
    return 0 if v is None else np.shape(v)[0] if np.ndim(v) else 0


# ------------------------------------------------------------------------------------------------- dimensions
def dimensions(o):
    m, c, k, so = o.model, o.constraints, o.cost, o.solver_options
    d = dict(nx=n_(m.x), nu=n_(m.u), nz=n_(m.z), np=n_(m.p), np_global=n_(m.p_global), N=so.N_horizon)
    d['nx_next'] = n_(m.disc_dyn_expr) if ne(m.disc_dyn_expr) else d['nx']
    for s in SUF:
        t = getattr(k, 'cost_type' + s)
        src = s
        if s == '_0' and t is None:
            t, src = k.cost_type, ''
        if t in ('LINEAR_LS', 'NONLINEAR_LS'):
            d['ny' + s] = rows(getattr(k, 'W' + src))
        elif t == 'CONVEX_OVER_NONLINEAR':
            d['ny' + s] = n_(getattr(m, 'cost_y_expr' + src))
        d['nh' + s] = n_(getattr(m, 'con_h_expr' + s))
        d['nphi' + s] = n_(getattr(m, 'con_phi_expr' + s))
        d['nr' + s] = n_(getattr(m, 'con_r_expr' + s)) if d['nphi' + s] else 0
        d['nbx' + s] = n_(getattr(c, 'idxbx' + s))
    d['nbxe_0'] = n_(c.idxbxe_0)
    d['nbu'] = n_(c.idxbu)
    d['ng'], d['ng_e'] = n_(c.lg), n_(c.lg_e)
    rev0 = ne(c.idxs_rev) or ne(c.idxs_rev_0)
    for s in SUF:
        rev = getattr(c, 'idxs_rev' + s)
        if ne(rev):
            d['ns' + s] = int(np.max(rev)) + 1
        else:
            h, p = n_(getattr(c, 'idxsh' + s)), n_(getattr(c, 'idxsphi' + s))
            d['nsh' + s], d['nsphi' + s] = h, p
            if s == '':
                d['nsbx'], d['nsbu'], d['nsg'] = n_(c.idxsbx), n_(c.idxsbu), n_(c.idxsg)
                d['ns'] = h + p + d['nsbx'] + d['nsbu'] + d['nsg']
            elif s == '_0':
                d['ns_0'] = h + p + n_(c.idxsbu) + n_(c.idxsg)
            else:
                d['nsbx_e'], d['nsg_e'] = n_(c.idxsbx_e), n_(c.idxsg_e)
                d['ns_e'] = h + p + d['nsbx_e'] + d['nsg_e']
    return d


PARTS = ('model', 'cost', 'constraints', 'solver_options', 'code_gen_options')
BROADCAST = ('sim_method_num_steps', 'sim_method_num_stages', 'sim_method_jac_reuse')
DERIVED = {'Tsim', 'json_file', 'code_export_directory', 'generate_hess', 'casadi_code_gen_options', 'shooting_nodes', 'constr_type', 'constr_type_0', 'constr_type_e',
           'acados_lib_path', 'acados_include_path', 'acados_version', 'acados_link_libs', 'shared_lib_ext', 'cython_include_dirs', 'os', 'code_gen_opts', 'tol', 'qp_tol', 'tf'}


def preserved(ob, a, b, who, key='keep'):
    """a: before, b: after make_consistent"""
    for part in PARTS:
        x, y = getattr(a, part), getattr(b, part)
        for k in p19.props(x):
            v, w = p19.get(x, k), p19.get(y, k)
            if not ne(v) or k in DERIVED or (isinstance(v, str) and v.startswith('raises')):
                continue
            ob.count('fields kept')
            if p19.expr(v):
                ok = p19.expr(w) and v.shape == w.shape
                if ok:
                    ea, eb = p19.evaluate(x, k, 5), p19.evaluate(y, k, 5)
                    ok = ea[:2] == eb[:2] and all(np.array_equal(q, r, equal_nan=True) for q, r in zip(ea[2:], eb[2:]))
                ob.check(ok, key + '/' + k, '%s: %s.%s changes when made consistent' % (who, part, k))
            elif k in BROADCAST and not isinstance(v, np.ndarray):
                ob.check(isinstance(w, np.ndarray) and w.shape == (b.solver_options.N_horizon,) and bool(np.all(w == v)), key + '/' + k, lambda: '%s: %s %r becomes %r' % (who, k, v, w))
            elif type(v).__name__ == 'GnsfModel':
                ob.check(w is not None, key + '/' + k, who + ': GNSF model vanishes')
            else:
                ok = p19.eq(v, w)
                if not ok and isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and v.size == w.size:
                    ok = np.allclose(np.ravel(v), np.ravel(w), rtol=1e-12, atol=0)      # integer arrays, averaged time steps
                ob.check(ok, key + '/' + k, lambda: '%s: %s.%s is %s after make_consistent, was %s' % (who, part, k, p19.show(w), p19.show(v)))
    for k in ('parameter_values', 'p_global_values'):
        ob.check(p19.eq(getattr(a, k), getattr(b, k)), key + '/' + k, '%s: %s changes when made consistent' % (who, k))


def text(o):
    return json.dumps(o.to_dict(), default=lambda v: v.tolist() if isinstance(v, np.ndarray) else np.array(v).tolist() if isinstance(v, ca.DM) else v.item() if isinstance(v, np.generic) else repr(v), sort_keys=True)


def keep(case, ob, rng):
    pr = Prob(case['seed'], **(dict(idxs_rev=True, soft=2) if case['i'] % 6 == 2 else {}))
    o = quiet(pr.make_ocp, 'kp%d' % case['i'])
    so = o.solver_options
    who = pr.tag()
    r = rng.random()
    if r < .25 and pr.N > 1:       # grid given by shooting nodes
        so.time_steps, so.shooting_nodes = None if False else np.array([]), np.concatenate([[0.], np.cumsum(rng.uniform(.1, .5, pr.N))])
        so.tf = float(so.shooting_nodes[-1])
    elif r < .5:
        so.time_steps = rng.uniform(.1, .5, pr.N)
        so.tf = float(np.sum(so.time_steps))
    if rng.random() < .3:
        so.sim_method_num_steps = rng.integers(1, 4, pr.N)
    before = copy.deepcopy(o)
    want = dimensions(o)
    quiet(o.make_consistent)
    ob.count('descriptions')
    ob.state(pr.f['integrator'], pr.f['cost_0'], pr.f['cost'], pr.f['cost_e'], pr.f['constr'], pr.f['soft'])
    for k, v in want.items():
        ob.count('dimensions')
        ob.check(getattr(o.dims, k) == v, 'dims/' + k, lambda: '%s: dimension %s is %r, the data has %r' % (who, k, getattr(o.dims, k), v))
    preserved(ob, before, o, who)
    t = so.time_steps
    ob.check(t.shape == (pr.N,) and abs(np.sum(t) - so.tf) <= 1e-12 * so.tf, 'keep/time_steps', '%s: time steps %s for tf = %s' % (who, t, so.tf))
    nodes = np.concatenate([[0.], np.cumsum(t)])
    ob.check(np.allclose(so.shooting_nodes, nodes, rtol=1e-12, atol=1e-14), 'keep/shooting_nodes', '%s: shooting nodes %s, time steps %s' % (who, so.shooting_nodes, t))
    if ne(before.solver_options.shooting_nodes) and not ne(before.solver_options.time_steps):
        ob.check(np.allclose(before.solver_options.shooting_nodes, nodes, rtol=1e-9, atol=1e-12), 'keep/nodes', '%s: shooting nodes %s given, %s used' % (who, before.solver_options.shooting_nodes, nodes))
    elif not ne(before.solver_options.time_steps):
        ob.check(np.allclose(t, so.tf / pr.N, rtol=1e-12), 'keep/uniform', '%s: time steps %s without a given grid' % (who, t))
    if before.solver_options.cost_scaling is None:
        ob.check(np.allclose(so.cost_scaling, np.append(t, 1.0), rtol=1e-12), 'keep/cost_scaling', '%s: default cost scaling %s for time steps %s' % (who, so.cost_scaling, t))
    if before.cost.cost_type_0 is None:
        for k in ('cost_type', 'W', 'Vx', 'Vu', 'Vz', 'yref', 'cost_ext_fun_type'):
            ob.check(p19.eq(getattr(o.cost, k + '_0'), getattr(o.cost, k)), 'keep/stage0', '%s: initial cost not given, %s_0 is not the one of the path' % (who, k))
        for k in ('cost_y_expr', 'cost_expr_ext_cost', 'cost_psi_expr', 'cost_r_in_psi_expr', 'cost_expr_ext_cost_custom_hess', 'cost_conl_custom_outer_hess'):
            v, w = getattr(o.model, k), getattr(o.model, k + '_0')
            ok = (not ne(v) and not ne(w)) or (ne(v) and ne(w) and p19.expr(v) and v.shape == w.shape and [q.tolist() for q in p19.evaluate(o.model, k, 3)[2:]] == [q.tolist() for q in p19.evaluate(o.model, k + '_0', 3)[2:]])
            ob.check(ok, 'keep/stage0', '%s: initial cost not given, %s_0 is not the one of the path' % (who, k))
    t1 = text(o)
    quiet(o.make_consistent)
    t2 = text(o)
    if t1 != t2:
        a, b = json.loads(t1), json.loads(t2)
        diff = [(p, k) for p in a for k in (a[p] if isinstance(a[p], dict) else {}) if a[p][k] != b[p].get(k)] + [(p, '') for p in a if not isinstance(a[p], dict) and a[p] != b.get(p)]
        ob.check(False, 'repeat', '%s: making it consistent again changes %s' % (who, diff[:4]))
    ob.count('repetitions')


# ------------------------------------------------------------------------------------------------- refusals
def grow(v, ax=0):
    v = np.asarray(v)
    if v.ndim == 2:
        return np.concatenate([v, np.ones((1, v.shape[1]))], 0) if ax == 0 else np.concatenate([v, np.ones((v.shape[0], 1))], 1)
    return np.append(v, v[-1] if v.size else 0).astype(v.dtype if v.size else float)


def shrink(v, ax=0):
    v = np.asarray(v)
    return v[:-1] if ax == 0 else v[:, :-1]


def table(o, rng):
    """applicable mutations: (name, function applied to a deep copy)"""
    m, c, k, so = o.model, o.constraints, o.cost, o.solver_options
    N, nx, nu, nz = so.N_horizon, n_(m.x), n_(m.u), n_(m.z)
    T = []

    def put(part, f, val, name=None):
        def act(q):
            setattr(getattr(q, part), f, val(getattr(getattr(q, part), f)) if callable(val) else val)
        T.append((name or f, act))

    def sizes(part, f, axes=(0,), need=0, both=True):
        v = getattr(getattr(o, part), f)
        for ax in axes:
            put(part, f, lambda v, ax=ax: grow(v, ax), '%s with one more %s' % (f, 'row column'.split()[ax]))
            if v is not None and np.ndim(v) > ax and np.shape(v)[ax] > need and both:
                put(part, f, lambda v, ax=ax: shrink(v, ax), '%s with one %s less' % (f, 'row column'.split()[ax]))

    for s in SUF:
        t = getattr(k, 'cost_type' + s)
        if t is None:
            continue
        e = 'cost_y_expr' + s
        if t in ('LINEAR_LS', 'NONLINEAR_LS'):
            ny = rows(getattr(k, 'W' + s))
            put('cost', 'W' + s, lambda v: np.eye(len(v) + 1), 'larger W' + s)
            if ny > 1:
                put('cost', 'W' + s, lambda v: np.eye(len(v) - 1), 'smaller W' + s)
                put('cost', 'W' + s, lambda v: v[:, :-1], 'non-square W' + s)
                put('cost', 'W' + s, lambda v: v + np.triu(np.ones_like(v), 1), 'unsymmetric W' + s)
            if ny:
                put('cost', 'W' + s, lambda v: -np.eye(len(v)), 'negative W' + s)
            sizes('cost', 'yref' + s)
        if t == 'LINEAR_LS' and ny:
            sizes('cost', 'Vx' + s, (0, 1))
            if s != '_e' and nu:
                sizes('cost', 'Vu' + s, (0, 1))
            if s != '_e' and nz:
                sizes('cost', 'Vz' + s, (0, 1))
        if t == 'NONLINEAR_LS' and ny:
            put('model', e, lambda v: ca.vertcat(v, m.x[0]), 'longer ' + e)
            put('model', e, None, 'missing ' + e)
            if ny > 1:
                put('model', e, lambda v: v[:-1], 'shorter ' + e)
        if t == 'CONVEX_OVER_NONLINEAR':
            sizes('cost', 'yref' + s)
            put('model', e, lambda v: ca.vertcat(v, m.x[0]), 'longer ' + e)
            put('model', e, None, 'missing ' + e)
            put('model', 'cost_psi_expr' + s, lambda v: ca.vertcat(v, v), 'vector valued cost_psi_expr' + s)
            put('model', 'cost_psi_expr' + s, None, 'missing cost_psi_expr' + s)
            put('model', 'cost_r_in_psi_expr' + s, None, 'missing cost_r_in_psi_expr' + s)
            put('model', 'cost_r_in_psi_expr' + s, lambda v: type(v).sym('rr', v.shape[0] + 1), 'longer cost_r_in_psi_expr' + s)
            T.append(('exact Hessian with convex-over-nonlinear cost' + s, lambda q: (setattr(q.solver_options, 'hessian_approx', 'EXACT'), setattr(q.solver_options, 'exact_hess_cost', 1))))
        if t == 'EXTERNAL':
            f = 'cost_expr_ext_cost' + s
            put('model', f, lambda v: ca.vertcat(v, v), 'vector valued ' + f)
            put('model', f, None, 'missing ' + f)
            n = nx + (nu if s != '_e' else 0)
            put('model', 'cost_expr_ext_cost_custom_hess' + s, type(m.x).zeros(n + 1, n + 1), 'custom Hessian of wrong shape' + s)
            put('model', 'cost_expr_ext_cost_custom_hess' + s, type(m.x).zeros(n, n + 1), 'non-square custom Hessian' + s)
    # bounds
    for l, u, i, lim, cond in (('lbx', 'ubx', 'idxbx', nx, True), ('lbx_0', 'ubx_0', 'idxbx_0', nx, True), ('lbx_e', 'ubx_e', 'idxbx_e', nx, True), ('lbu', 'ubu', 'idxbu', nu, True)):
        for f in (l, u):
            sizes('constraints', f)
        nb = n_(getattr(c, i))
        if nb:
            put('constraints', i, lambda v: v[:-1], i + ' with one entry less')
            put('constraints', i, lambda v, lim=lim: np.append(v[:-1], lim).astype(int), i + ' out of range')
            put('constraints', i, lambda v, lim=lim: np.append(v[:-1], lim + 3).astype(int), i + ' far out of range')
    sizes('constraints', 'lg'), sizes('constraints', 'ug')
    sizes('constraints', 'lg_e'), sizes('constraints', 'ug_e')
    if n_(c.lg):
        sizes('constraints', 'C', (0, 1))
        if nu:
            sizes('constraints', 'D', (0, 1))
    if n_(c.lg_e):
        sizes('constraints', 'C_e', (0, 1))
    for s in SUF:
        sizes('constraints', 'lh' + s), sizes('constraints', 'uh' + s)
        h = getattr(m, 'con_h_expr' + s)
        if ne(h):
            put('model', 'con_h_expr' + s, lambda v: ca.vertcat(v, m.x[0]), 'longer con_h_expr' + s)
            put('model', 'con_h_expr' + s, None, 'missing con_h_expr' + s)
        if ne(getattr(m, 'con_phi_expr' + s)):
            sizes('constraints', 'lphi' + s), sizes('constraints', 'uphi' + s)
            put('model', 'con_phi_expr' + s, lambda v: ca.vertcat(v, v[0]), 'longer con_phi_expr' + s)
            put('model', 'con_r_expr' + s, None, 'missing con_r_expr' + s)
            put('model', 'con_r_in_phi' + s, None, 'missing con_r_in_phi' + s)
            put('model', 'con_r_in_phi' + s, lambda v: type(v).sym('rr', v.shape[0] + 1), 'longer con_r_in_phi' + s)
    # slacks
    rev = {s: ne(getattr(c, 'idxs_rev' + s)) for s in SUF}
    for s in SUF:
        groups = {'_0': ['h', 'phi'], '': ['bx', 'bu', 'g', 'h', 'phi'], '_e': ['bx', 'g', 'h', 'phi']}[s]
        for f in ('zl', 'zu', 'Zl', 'Zu'):
            if ne(getattr(k, f + s)):
                sizes('cost', f + s)
        if rev[s]:
            put('constraints', 'idxs_rev' + s, lambda v: grow(v).astype(int), 'longer idxs_rev' + s)
            if n_(getattr(c, 'idxs_rev' + s)) > 1:
                put('constraints', 'idxs_rev' + s, lambda v: shrink(v), 'shorter idxs_rev' + s)
            put('constraints', 'idxs_rev' + s, lambda v: np.append(v[:-1], len(v) + 2).astype(int), 'idxs_rev%s out of range' % s)
            put('constraints', 'idxs_rev' + s, lambda v: np.append(v[:-1], -2).astype(int), 'idxs_rev%s below -1' % s)
            for f in ('ls', 'us'):
                put('constraints', f + s, lambda v, s=s: np.zeros(int(np.max(getattr(c, 'idxs_rev' + s))) + 2), 'longer ' + f + s)
                if np.max(getattr(c, 'idxs_rev' + s)) > 0:
                    put('constraints', f + s, lambda v, s=s: np.zeros(int(np.max(getattr(c, 'idxs_rev' + s)))), 'shorter ' + f + s)
            if s != '_e':
                for g, dim in (('bu', n_(c.idxbu)), ('g', n_(c.lg)), ('h', n_(c.lh))):
                    if dim:
                        put('constraints', 'idxs' + g, np.array([0]), 'idxs%s besides idxs_rev' % g)
        else:
            for g in groups:
                i = 'idxs' + g + s
                dim = n_(getattr(c, dict(bx='idxbx', bu='idxbu', g='lg', h='lh', phi='lphi')[g] + s))
                if ne(getattr(c, i)):
                    put('constraints', i, lambda v, dim=dim: np.append(v[:-1], dim).astype(int), i + ' out of range')
                    put('constraints', i, lambda v: v[:-1], i + ' with one entry less')
                    put('constraints', 'ls' + g + s, lambda v, n=n_(getattr(c, i)): np.zeros(n + 1), 'longer ls' + g + s)
                    put('constraints', 'us' + g + s, lambda v, n=n_(getattr(c, i)): np.zeros(n + 1), 'longer us' + g + s)
                    if n_(getattr(c, i)) > 1:
                        for f in 'lu':
                            put('constraints', f + 's' + g + s, lambda v, n=n_(getattr(c, i)): np.zeros(n - 1), 'shorter %ss%s%s' % (f, g, s))
                elif not (s == '' and (rev['_0'] or rev[''])):
                    put('constraints', i, lambda v, dim=dim: np.array([dim]), i + ' beyond the constraints')
    # parameters
    T.append(('parameter_values longer', lambda q: setattr(q, 'parameter_values', grow(q.parameter_values))))
    T.append(('p_global_values longer', lambda q: setattr(q, 'p_global_values', grow(q.p_global_values))))
    if n_(m.p):
        T.append(('parameter_values shorter', lambda q: setattr(q, 'parameter_values', q.parameter_values[:-1])))
        T.append(('no parameter_values', lambda q: setattr(q, 'parameter_values', np.array([]))))
    if n_(m.p_global):
        T.append(('p_global_values shorter', lambda q: setattr(q, 'p_global_values', q.p_global_values[:-1])))
    # model
    S = type(m.x)
    put('model', 'x', None, 'no x')
    put('model', 'x', lambda v: 2 * v, 'x is an expression')
    put('model', 'xdot', S.sym('xdot', nx + 1), 'longer xdot')
    if nu:
        put('model', 'u', lambda v: v * v, 'u is an expression')
    it = so.integrator_type
    if it == 'DISCRETE':
        put('model', 'disc_dyn_expr', None, 'no disc_dyn_expr')
        if N > 1:
            put('model', 'disc_dyn_expr', lambda v: ca.vertcat(v, v[0]), 'longer disc_dyn_expr')
            if nx > 1:
                put('model', 'disc_dyn_expr', lambda v: v[:-1], 'shorter disc_dyn_expr')
        put('model', 'disc_dyn_custom_jac_ux_expr', S.zeros(nx, nx + nu + 1), 'custom Jacobian of wrong shape')
    elif it == 'ERK':
        put('model', 'f_expl_expr', None, 'no f_expl_expr')
        put('model', 'f_expl_expr', lambda v: ca.vertcat(v, v[0]), 'longer f_expl_expr')
        if nx > 1:
            put('model', 'f_expl_expr', lambda v: v[:-1], 'shorter f_expl_expr')
    elif it == 'IRK':
        put('model', 'f_impl_expr', None, 'no f_impl_expr')
        put('model', 'f_impl_expr', lambda v: ca.vertcat(v, v[0]), 'longer f_impl_expr')
        if nx + nz > 1:
            put('model', 'f_impl_expr', lambda v: v[:-1], 'shorter f_impl_expr')
    dep = [('u', m.u[0])] if nu else []
    dep += [('z', m.z[0])] if nz else []
    for nm, d in dep:
        if k.cost_type_e == 'EXTERNAL':
            put('model', 'cost_expr_ext_cost_e', lambda v, d=d: v + d * d, 'terminal cost depends on ' + nm)
        if k.cost_type_e in ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR') and ne(m.cost_y_expr_e):
            put('model', 'cost_y_expr_e', lambda v, d=d: v + d, 'terminal residual depends on ' + nm)
        if ne(m.con_h_expr_e):
            put('model', 'con_h_expr_e', lambda v, d=d: v + d, 'terminal constraint depends on ' + nm)
        if ne(m.con_phi_expr_e):
            put('model', 'con_r_expr_e', lambda v, d=d: v + d, 'terminal con_r_expr depends on ' + nm)
    # options
    def opt(name, **kw):
        def act(q):
            for f, v in kw.items():
                setattr(q.code_gen_options if f in ('sens_forw_p', 'xx') else q.solver_options, f, v)
        T.append((name, act))
    tf = so.tf
    T.append(('no tf', lambda q: q.solver_options.__dict__.__setitem__('_AcadosOcpOptions__tf', None)))
    T.append(('no N_horizon', lambda q: q.solver_options.__dict__.__setitem__('_AcadosOcpOptions__N_horizon', None)))
    opt('time steps sum above tf', time_steps=np.full(N, tf / N * 1.1))
    opt('too many time steps', time_steps=np.full(N + 1, tf / (N + 1)))
    if N > 1:
        opt('too few time steps', time_steps=np.full(N - 1, tf / (N - 1)))
    none = np.array([])
    opt('too many shooting nodes', time_steps=none, shooting_nodes=np.linspace(0, tf, N + 2))
    opt('too few shooting nodes', time_steps=none, shooting_nodes=np.linspace(0, tf, N))
    opt('shooting nodes end after tf', time_steps=none, shooting_nodes=np.linspace(0, 1.2 * tf, N + 1))
    opt('cost_scaling too long', cost_scaling=np.ones(N + 2))
    opt('cost_scaling too short', cost_scaling=np.ones(N))
    for f in BROADCAST:
        opt(f + ' too long', **{f: np.ones(N + 1, int)})
        if N > 2:
            opt(f + ' too short', **{f: np.ones(N - 1, int)})
    opt('cond_N above N', qp_solver_cond_N=N + 1)
    opt('cond_block_size with wrong sum', qp_solver_cond_N=1, qp_solver_cond_block_size=[N, 1])
    opt('cond_block_size with wrong length', qp_solver_cond_N=N, qp_solver_cond_block_size=[N])
    ct = [k.cost_type_0 or k.cost_type, k.cost_type, k.cost_type_e]
    if any(q != 'LINEAR_LS' for q in ct):
        opt('fixed_hess with nonlinear cost', fixed_hess=1, hessian_approx='GAUSS_NEWTON')
    opt('fixed_hess with exact Hessian', fixed_hess=1, hessian_approx='EXACT')
    if any(n_(getattr(c, q)) for q in ('idxbu', 'idxbx', 'lg', 'lh', 'lphi', 'lg_e', 'lh_e', 'lphi_e')):
        opt('DDP with constraints', nlp_solver_type='DDP', qp_solver='PARTIAL_CONDENSING_HPIPM')
    else:
        opt('DDP with condensing', nlp_solver_type='DDP', qp_solver='FULL_CONDENSING_HPIPM')
    opt('DDP with OSQP', nlp_solver_type='DDP', qp_solver='PARTIAL_CONDENSING_OSQP')
    opt('funnel with RTI', nlp_solver_type='SQP_RTI', globalization='FUNNEL_L1PEN_LINESEARCH')
    opt('funnel with DDP', nlp_solver_type='DDP', globalization='FUNNEL_L1PEN_LINESEARCH')
    opt('RTI with QP scaling', nlp_solver_type='SQP_RTI', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN')
    opt('RTI with constraint scaling', nlp_solver_type='SQP_RTI', qpscaling_scale_constraints='INF_NORM')
    opt('RTI with adaptive QP tolerance', nlp_solver_type='SQP_RTI', nlp_qp_tol_strategy='ADAPTIVE_CURRENT_RES_JOINT')
    opt('adaptive QP scaling tolerance without scaling', nlp_qp_tol_strategy='ADAPTIVE_QPSCALING', qpscaling_scale_objective='NO_OBJECTIVE_SCALING', qpscaling_scale_constraints='NO_CONSTRAINT_SCALING')
    opt('tau_min with OSQP', tau_min=1e-3, qp_solver='PARTIAL_CONDENSING_OSQP')
    opt('tau_min with DAQP', tau_min=1e-3, qp_solver='FULL_CONDENSING_DAQP')
    opt('QP warm start from NLP with full condensing', nlp_solver_warm_start_first_qp_from_nlp=True, qp_solver='FULL_CONDENSING_HPIPM')
    if N > 1:
        opt('QP warm start from NLP with partial condensing', nlp_solver_warm_start_first_qp_from_nlp=True, qp_solver='PARTIAL_CONDENSING_HPIPM', qp_solver_cond_N=N - 1)
    opt('Anderson acceleration with line search', with_anderson_acceleration=True, globalization='MERIT_BACKTRACKING')
    if not n_(m.p_global):
        opt('solution sensitivities without p_global', with_solution_sens_wrt_params=True)
        opt('value sensitivities without p_global', with_value_sens_wrt_params=True)
    if it != 'DISCRETE':
        opt('solution sensitivities with continuous dynamics', with_solution_sens_wrt_params=True)
        opt('value sensitivities with continuous dynamics', with_value_sens_wrt_params=True)
    if any(q not in ('EXTERNAL', 'LINEAR_LS') for q in ct):
        opt('solution sensitivities with least squares cost', with_solution_sens_wrt_params=True)
        opt('value sensitivities with least squares cost', with_value_sens_wrt_params=True)
    opt('solution sensitivities with OSQP', with_solution_sens_wrt_params=True, qp_solver='PARTIAL_CONDENSING_OSQP')
    if any(q not in ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR') for q in ct[:2]):
        opt('cost integration of unsupported cost', cost_discretization='INTEGRATOR')
    opt('cost integration with feasible QP', cost_discretization='INTEGRATOR', nlp_solver_type='SQP_WITH_FEASIBLE_QP')
    if any(q.endswith('LINEAR_LS') for q in ct):
        opt('AS-RTI level B with least squares', nlp_solver_type='SQP_RTI', as_rti_level=1)
        opt('AS-RTI level C with least squares', nlp_solver_type='SQP_RTI', as_rti_level=2)
    if it in ('DISCRETE', 'GNSF'):
        opt('parameter sensitivities of unsupported integrator', sens_forw_p=True)
    if any(rev.values()):
        opt('idxs_rev with OSQP', qp_solver='PARTIAL_CONDENSING_OSQP')
        opt('idxs_rev with DAQP', qp_solver='FULL_CONDENSING_DAQP')
        opt('idxs_rev with feasible QP', nlp_solver_type='SQP_WITH_FEASIBLE_QP')
    for f in ('lbx', 'lbu', 'lg', 'lh', 'lbx_e', 'lg_e', 'lh_e', 'lphi', 'lphi_e', 'lbx_0'):
        if n_(getattr(c, f)) and not any(rev.values()):
            def act(q, f=f):
                v = np.array(getattr(q.constraints, f), float)
                v[int(rng.integers(v.size))] = -1e10
                setattr(q.constraints, f, v)
                if f == 'lbx_0':
                    pass
                q.solver_options.qp_solver = 'PARTIAL_CONDENSING_OSQP'
            T.append(('one-sided %s with OSQP' % f, act))
    if c.has_x0:
        T.append(('x0 too long', lambda q: setattr(q.constraints, 'x0', np.zeros(nx + 1))))
        if nx > 1:
            T.append(('x0 too short', lambda q: setattr(q.constraints, 'x0', np.zeros(nx - 1))))
    elif n_(c.idxbx_0):
        put('constraints', 'idxbxe_0', lambda v: np.array([n_(c.idxbx_0)]), 'idxbxe_0 out of range')
    return T


def bad(case, ob, rng):
    pr = Prob(case['seed'], **(dict(idxs_rev=True, soft=2) if case['i'] % 6 == 2 else {}))
    o = quiet(pr.make_ocp, 'bd%d' % case['i'])
    who = pr.tag()
    T = table(o, rng)
    quiet(copy.deepcopy(o).make_consistent)      # the formulation itself is accepted
    for nm, act in T:
        q = copy.deepcopy(o)
        ob.count('mutations')
        ob.state(nm, pr.f['cost'], pr.f['constr'], pr.f['soft'])
        try:
            act(q)
            quiet(q.make_consistent)
            ok = False
        except Exception as e:
            ok = True
            ob.state('refused', nm, type(e).__name__)
        ob.check(ok, 'bad/' + nm, '%s: accepted although inconsistent: %s' % (who, nm))


def mocp(case, ob, rng):
    mo, prs, Ns = p19.phases(rng, case['seed'])
    who = ' | '.join(p.tag() for p in prs)[:150]
    n = len(Ns)
    before = copy.deepcopy(mo)
    quiet(mo.make_consistent)
    ob.count('descriptions')
    so = mo.solver_options
    N = sum(Ns)
    ob.check(so.N_horizon == N and mo.N_horizon == N, 'mocp/N', '%s: horizon %s for phases of length %s' % (who, so.N_horizon, Ns))
    e = np.cumsum([0] + Ns).tolist()
    ob.check(list(mo.start_idx) == e[:-1] and list(mo.end_idx) == e[1:], 'mocp/idx', '%s: phases %s start at %s and end at %s' % (who, Ns, mo.start_idx, mo.end_idx))
    for i in range(n):
        for k, v in dict(nx=n_(mo.model[i].x), nu=n_(mo.model[i].u), np=n_(mo.model[i].p), nh=n_(mo.model[i].con_h_expr), nbx=n_(mo.constraints[i].idxbx), nbu=n_(mo.constraints[i].idxbu), ng=n_(mo.constraints[i].lg),
                         nphi=n_(mo.model[i].con_phi_expr)).items():
            ob.check(getattr(mo.phases_dims[i], k) == v, 'mocp/dims/' + k, '%s: phase %d has %s = %s, the data %s' % (who, i, k, getattr(mo.phases_dims[i], k), v))
        for part in ('cost', 'constraints'):
            for k in p19.props(getattr(before, part)[i]):
                v, w = p19.get(getattr(before, part)[i], k), p19.get(getattr(mo, part)[i], k)
                if ne(v) and k not in DERIVED and not (isinstance(v, str) and v.startswith('raises')):
                    ob.count('fields kept')
                    ob.check(p19.eq(v, w), 'mocp/keep/' + k, lambda: '%s: phase %d %s is %s after make_consistent, was %s' % (who, i, k, p19.show(w), p19.show(v)))
    if mo.p_global_values.size or True:
        ob.check(p19.eq(before.p_global_values, mo.p_global_values), 'mocp/keep/p_global_values', who + ': p_global_values changed')
    t1 = text(mo)
    quiet(mo.make_consistent)
    ob.check(t1 == text(mo), 'mocp/repeat', who + ': making it consistent again changes the description')
    M = []
    M.append(('too few integrator types', lambda q: setattr(q.mocp_opts, 'integrator_type', ['ERK'] * (n - 1))))
    M.append(('too many collocation types', lambda q: setattr(q.mocp_opts, 'collocation_type', ['GAUSS_LEGENDRE'] * (n + 1))))
    M.append(('unknown integrator', lambda q: setattr(q.mocp_opts, 'integrator_type', ['XX'] * n)))
    M.append(('same cost object in two phases', lambda q: q.cost.__setitem__(1, q.cost[0])))
    M.append(('same model object in two phases', lambda q: q.model.__setitem__(1, q.model[0])))
    M.append(('same constraints object in two phases', lambda q: q.constraints.__setitem__(1, q.constraints[0])))
    M.append(('parameter values of one phase too long', lambda q: q.parameter_values.__setitem__(n - 1, grow(q.parameter_values[n - 1]))))
    M.append(('parameter values list too short', lambda q: setattr(q, 'parameter_values', q.parameter_values[:-1])))
    M.append(('p_global_values too long', lambda q: setattr(q, 'p_global_values', grow(q.p_global_values))))
    M.append(('time steps too long', lambda q: (setattr(q.solver_options, 'time_steps', np.ones(N + 1)), setattr(q.solver_options, 'tf', N + 1.))))
    M.append(('time steps above tf', lambda q: setattr(q.solver_options, 'time_steps', np.full(N, 2 * q.solver_options.tf / N))))
    M.append(('bounds of one phase', lambda q: setattr(q.constraints[n - 1], 'lbx', grow(q.constraints[n - 1].lbx))))
    M.append(('phase index', lambda q: q.set_phase(quiet(prs[0].make_ocp, 'zz'), n)))
    M.append(('p_global different', lambda q: setattr(q.model[1], 'p_global', type(q.model[1].x).sym('other', max(1, n_(q.model[0].p_global))))))

    def wrongnx(q):
        p = Prob(case['seed'] + 5, npg=0, nx=prs[0].nx + 1, sym='SX', integrator='ERK', x0='box', idxs_rev=False)
        oo = quiet(p.make_ocp, 'nx')
        q.set_phase(oo, n - 1)
        q.mocp_opts.integrator_type[n - 1] = 'ERK'
        q.p_global_values = np.array([])
        for j in range(n):
            q.model[j].p_global = None
    if not n_(before.model[0].p_global):
        M.append(('phases with different number of states', wrongnx))
    for nm, act in M:
        q = copy.deepcopy(before)
        ob.count('mutations')
        ob.state('mocp', nm)
        try:
            act(q)
            quiet(q.make_consistent)
            ok = False
        except Exception as e:
            ok = True
        ob.check(ok, 'mocp/bad/' + nm, '%s: accepted although inconsistent: %s' % (who, nm))


def sim(case, ob, rng):
    from acados_template import AcadosSim
    pr = Prob(case['seed'], integrator=['ERK', 'IRK'][case['i'] % 2], npg=0)
    o = quiet(pr.make_ocp, 'sm')
    s = AcadosSim()
    s.model = o.model
    s.parameter_values = o.parameter_values
    so = s.solver_options
    so.T = float(rng.uniform(.05, .5))
    so.integrator_type = pr.f['integrator']
    who = pr.tag()
    before = copy.deepcopy(s)
    quiet(s.make_consistent)
    ob.count('descriptions')
    for k, v in dict(nx=pr.nx, nu=pr.nu, nz=pr.nz, np=pr.np).items():
        ob.check(getattr(s.dims, k) == v, 'sim/dims/' + k, '%s: dimension %s is %s instead of %s' % (who, k, getattr(s.dims, k), v))
    t1 = text(s)
    quiet(s.make_consistent)
    ob.check(t1 == text(s), 'sim/repeat', who + ': making it consistent again changes the description')
    S = type(pr.x)
    M = [('no T', lambda q: q.solver_options.__dict__.__setitem__('_AcadosSimOptions__Tsim', None)),
         ('parameter_values too long', lambda q: setattr(q, 'parameter_values', grow(q.parameter_values))),
         ('no x', lambda q: setattr(q.model, 'x', None)), ('x an expression', lambda q: setattr(q.model, 'x', 2 * q.model.x)),
         ('longer xdot', lambda q: setattr(q.model, 'xdot', S.sym('xdot', pr.nx + 1))),
         ('p_global', lambda q: setattr(q.model, 'p_global', S.sym('pg', 2)))]
    f = 'f_expl_expr' if so.integrator_type == 'ERK' else 'f_impl_expr'
    M += [('no ' + f, lambda q: setattr(q.model, f, None)), ('longer ' + f, lambda q: setattr(q.model, f, ca.vertcat(getattr(q.model, f), getattr(q.model, f)[0])))]
    if pr.np:
        M.append(('parameter_values missing', lambda q: setattr(q, 'parameter_values', np.array([]))))
    for nm, act in M:
        q = copy.deepcopy(before)
        ob.count('mutations')
        ob.state('sim', nm)
        try:
            act(q)
            quiet(q.make_consistent)
            ok = False
        except Exception:
            ok = True
        ob.check(ok, 'sim/bad/' + nm, '%s: accepted although inconsistent: %s' % (who, nm))
