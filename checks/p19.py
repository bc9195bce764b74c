"""ocp: random problem descriptions (all cost and constraint types, slack variants, parameters, nonuniform grids, labels, GNSF models,
ROS, Simulink and zoRO descriptions, and an accepted random value of every solver and code generation option) are made consistent,
dumped and loaded again.  Every property of every part of the loaded description is compared with the original: value, type of
container and shape; model expressions are compared by evaluating them at random points.  Dumping the loaded description has to give
the same file, also after making it consistent again.  mocp: the same for multi-phase descriptions.  solve: a solver generated from
the loaded description and one from the original are driven with the same inputs; QP data, iterates and statuses have to be bitwise
equal.  iterate: iterates stored to JSON files and loaded again are the same."""
import inspect
import io
import contextlib
import copy
import json
import os
import warnings
import numpy as np
import casadi as ca
import p21
from prob import Prob, make_solver

PROPERTY = 'P19'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['descriptions are made consistent before dumping, as the documentation of from_json asks for',
               'paths, link libraries and the version string describe the machine and are not compared; None and an empty value are the same',
               'simulation descriptions can only be dumped (there is no loader), so only the content of the file is judged']
RULE = 'distinct (part, field, kind of value); problem features'
FAM = [('ocp', 50), ('mocp', 20), ('sim', 10), ('iterate', 6), ('solve', 14)]
PATHS = {'acados_lib_path', 'acados_include_path', 'acados_link_libs', 'acados_version', 'json_file', 'code_export_directory', 'cython_include_dirs', 'os', 'shared_lib_ext', 'hash', 'code_gen_opts',
         'qp_tol', 'tol'}
PARTS = ('dims', 'model', 'cost', 'constraints', 'solver_options', 'code_gen_options')


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 8 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1500007 * seed + 97 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    globals()[case['fam']](case, ob, np.random.default_rng(case['seed']))


# ------------------------------------------------------------------------------------------------- comparison
def props(o):
    return [k for k, _ in inspect.getmembers(type(o), lambda v: isinstance(v, property))]


def get(o, k):
    try:
        return getattr(o, k)
    except Exception as e:
        return 'raises ' + type(e).__name__


def empty(v):
    return v is None or (isinstance(v, (list, dict, tuple, str)) and len(v) == 0) or (isinstance(v, np.ndarray) and v.size == 0) or (isinstance(v, (ca.SX, ca.MX, ca.DM)) and v.numel() == 0)


def expr(v):
    return isinstance(v, (ca.SX, ca.MX))


def eq(a, b):
    if empty(a) and empty(b):
        return True
    if empty(a) or empty(b):
        return False
    if isinstance(a, ca.DM) or isinstance(b, ca.DM):
        a, b = np.array(ca.DM(a)), np.array(ca.DM(b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int, np.integer)) and isinstance(b, (bool, int, np.integer)) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b
    return type(a) is type(b) and (a == b or vars(a) == vars(b) if hasattr(a, '__dict__') else a == b)


SYM = ('x', 'xdot', 'u', 'z', 'p', 'p_global', 't', 'p_slack', 'pi', 'lam', 'r_in_psi_expr')


def symbols(m, ks):
    out, names = [], []
    for k in ks:
        v = get(m, k)
        if expr(v) and v.numel() > 0 and v.is_valid_input():
            out.append(v)
            names.append(k)
    return out, names


def evaluate(m, k, rng_seed):
    """values of expression k of the model at random points; independent variables are all symbolic primitives it is built from"""
    e = getattr(m, k)
    s = ca.symvar(e)
    s = sorted(s, key=lambda v: v.name())
    f = ca.Function('f', s, [e])
    r = np.random.default_rng(rng_seed)
    out = [[v.name() for v in s], [v.shape for v in s]]
    for _ in range(3):
        out.append(np.array(f.call([ca.DM(r.normal(size=v.shape)) for v in s])[0]))
    return out


def model(ob, a, b, who, key):
    ks = [k for k in props(a) if expr(get(a, k))]
    kb = [k for k in props(b) if expr(get(b, k))]
    na = [k for k in ks if not empty(get(a, k))]
    ob.check(na == [k for k in kb if not empty(get(b, k))], key + '/model/expressions', lambda: '%s: expressions %s loaded as %s' % (who, na, kb))
    for k in na:
        if k not in kb:
            continue
        va, vb = get(a, k), get(b, k)
        ob.count('expressions')
        ob.check(type(va) is type(vb) and va.shape == vb.shape, key + '/model/' + k, lambda: '%s: model.%s has type %s shape %s after loading' % (who, k, type(vb).__name__, vb.shape))
        ea, eb = evaluate(a, k, 5), evaluate(b, k, 5)
        same = ea[:2] == eb[:2] and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(ea[2:], eb[2:]))
        ob.check(same, key + '/model/' + k, lambda: '%s: model.%s evaluates differently after loading' % (who, k))
    # all expressions of the loaded model are functions of the loaded symbols
    def free(m):
        s, _ = symbols(m, SYM)
        other = [get(m, k) for k in ('cost_r_in_psi_expr_0', 'cost_r_in_psi_expr', 'cost_r_in_psi_expr_e', 'con_r_in_phi_0', 'con_r_in_phi', 'con_r_in_phi_e')]
        s = s + [v for v in other if expr(v) and v.numel() > 0]
        bad = {}
        for k in props(m):
            v = get(m, k)
            if expr(v) and not empty(v):
                try:
                    f = ca.Function('f', [ca.vertcat(*[ca.vec(q) for q in s])] if isinstance(v, ca.SX) else s, [v], dict(allow_free=True))
                    n = len(ca.symvar(v)) and f.has_free()
                    if n:
                        bad[k] = sorted(str(q) for q in f.get_free())
                except Exception as e:
                    bad[k] = repr(e)[:80]
        return bad
    fa, fb = free(a), free(b)
    ob.check(sorted(fa) == sorted(fb), key + '/model/free', lambda: '%s: loaded expressions depend on other symbols: %s, before %s' % (who, {k: fb[k] for k in fb if k not in fa}, fa))


def compare(ob, a, b, who, key):
    for k in props(a):
        if k in PATHS:
            continue
        va, vb = get(a, k), get(b, k)
        if expr(va) or expr(vb):
            continue
        ob.count('fields')
        if type(va).__name__ == 'GnsfModel':
            if ob.check(type(vb) is type(va), key + '/gnsf_model', '%s: gnsf_model is %s after loading' % (who, type(vb).__name__)) is not False and type(vb) is type(va):
                compare(ob, va, vb, who + ' gnsf_model', key + '/gnsf')
                for q in [q for q in props(va) if expr(get(va, q)) and not empty(get(va, q))]:
                    ea, eb = evaluate(va, q, 7), evaluate(vb, q, 7) if expr(get(vb, q)) else None
                    ob.check(eb is not None and ea[:2] == eb[:2] and all(np.array_equal(x, y) for x, y in zip(ea[2:], eb[2:])), key + '/gnsf/' + q, '%s: gnsf_model.%s evaluates differently after loading' % (who, q))
            continue
        if type(va).__name__ == 'GnsfDims':
            ob.check(type(vb) is type(va) and vars(va) == vars(vb), key + '/' + k, lambda: '%s: %s is %r after loading, was %r' % (who, k, getattr(vb, '__dict__', vb), vars(va)))
            continue
        ob.state(key, k, 'empty' if empty(va) else type(va).__name__)
        ob.check(eq(va, vb), '%s/%s' % (key, k), lambda: '%s: %s is %s after loading, was %s' % (who, k, show(vb), show(va)))


def show(v):
    return ('%s%s ' % (type(v).__name__, np.shape(v)) + repr(v).replace('\n', ' '))[:160]


def files(ob, t1, t2, who, key, skip=()):
    def walk(x, y, p):
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y)):
                if k not in PATHS and k not in skip:
                    walk(x.get(k), y.get(k), p + [k])
            return
        ob.count('file entries')
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and any(isinstance(q, dict) for q in x):
            for i, (q, r) in enumerate(zip(x, y)):
                walk(q, r, p + [str(i)])
            return
        none = lambda v: v in (None, [], {}, '') or (isinstance(v, list) and all(none(q) for q in v))
        ob.check(x == y or (none(x) and none(y)), '%s/file/%s' % (key, p[-1]), lambda: '%s: %s is %.120r in the file written after loading, %.120r before' % (who, '/'.join(p), y, x))
    walk(json.loads(t1), json.loads(t2), [])


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def content(ob, obj, d, who, key):
    """the file holds what the object holds"""
    for k in props(obj):
        if k in PATHS or k not in d:
            continue
        v = get(obj, k)
        if expr(v) or type(v).__name__ in ('GnsfModel', 'GnsfDims') or (isinstance(v, str) and v.startswith('raises')):
            continue
        w = v.tolist() if isinstance(v, np.ndarray) else np.array(v).tolist() if isinstance(v, ca.DM) else v
        if isinstance(w, np.generic):
            w = w.item()
        ok = (empty(v) and d[k] in (None, [], {}, '') or (empty(v) and isinstance(d[k], list))) or json.loads(json.dumps(w)) == d[k]
        ob.count('file fields')
        ob.check(ok, '%s/content/%s' % (key, k), lambda: '%s: the file holds %.100r for %s, the description %s' % (who, d[k], k, show(v)))


# ------------------------------------------------------------------------------------------------- random descriptions
def options(rng, so, cg, skip=()):
    """after make_consistent: an accepted value of every option, kept if the setter takes it"""
    for obj, tab in ((so, p21.OCP), (cg, p21.CG)):
        for k, d in tab.items():
            if k in skip or k in PATHS or not isinstance(getattr(type(obj), k, None), property) or rng.random() < .25:
                continue
            try:
                setattr(obj, k, d.good(rng))
            except Exception:
                pass


def decorate(rng, pr, ocp):
    m = ocp.model
    if rng.random() < .5:
        m.x_labels = ['state %d' % i for i in range(pr.nx)]
    if rng.random() < .5 and pr.nu:
        m.u_labels = ['$u_{%d}$' % i for i in range(pr.nu)]
    if rng.random() < .4:
        m.t_label = 'time'
    if rng.random() < .3:
        from acados_template.ros2 import AcadosOcpRosOptions
        r = AcadosOcpRosOptions()
        r.package_name, r.node_name, r.namespace = 'some_package', 'a_node', 'ns%d' % rng.integers(9)
        r.control_topic, r.state_topic, r.parameters_topic, r.reference_topic = ['t%d_%d' % (i, rng.integers(99)) for i in range(4)]
        r.threads, r.publish_control_sequence = int(rng.integers(1, 5)), bool(rng.integers(2))
        ocp.ros_opts = r


def late(rng, pr, ocp):
    """parts for which make_consistent asks for a certain solver set up"""
    from acados_template import AcadosOcpSimulinkOptions, ZoroDescription
    if rng.random() < .4:
        o = AcadosOcpSimulinkOptions()
        for part in (o.inputs, o.outputs):
            for k, v in list(vars(part).items()):
                if type(v) is int and rng.random() < .3:
                    setattr(part, k, 1 - v)
        o.samplingtime = ['t0', '-1'][int(rng.integers(2))]
        for k, v in list(vars(o).items()):
            if type(v) is int and rng.random() < .4:
                setattr(o, k, 1 - v)
        ocp.simulink_opts = o
    if rng.random() < .3 and pr.nu:
        z = ZoroDescription()
        z.backoff_scaling_gamma = float(rng.uniform(.5, 3))
        z.fdbk_K_mat = rng.normal(size=(pr.nu, pr.nx))
        nw = int(rng.integers(1, pr.nx + 1))
        z.unc_jac_G_mat = rng.normal(size=(pr.nx, nw))
        z.W_mat = np.diag(rng.uniform(.1, 1, nw))
        z.P0_mat = np.diag(rng.uniform(.1, 1, pr.nx))
        z.input_P0 = bool(rng.integers(2))
        z.input_W_diag = bool(rng.integers(2))
        nbu = np.size(ocp.constraints.lbu)
        if nbu:
            z.idx_lbu_t = [int(q) for q in range(nbu) if rng.random() < .5]
        ocp.zoro_description = z


def others(ob, a, b, who, key):
    """top level fields of the description"""
    for k in ('name', 'parameter_values', 'p_global_values', 'N_list', 'n_phases'):
        if hasattr(type(a), k) or k in vars(a):
            va, vb = get(a, k), get(b, k)
            ob.count('fields')
            ob.state(key, k, 'empty' if empty(va) else type(va).__name__)
            ob.check(eq(va, vb), '%s/%s' % (key, k), lambda: '%s: %s is %s after loading, was %s' % (who, k, show(vb), show(va)))
    for k in ('simulink_opts', 'ros_opts', 'zoro_description'):
        if not hasattr(a, k):
            continue
        va, vb = get(a, k), get(b, k)
        ob.state(key, k, type(va).__name__)
        if va is None:
            ob.check(empty(vb), '%s/%s' % (key, k), '%s: %s appears on loading' % (who, k))
            continue
        ob.check(type(va) is type(vb), '%s/%s' % (key, k), '%s: %s is %s after loading' % (who, k, type(vb).__name__))
        if type(va) is type(vb):
            def deep(x, y, p):
                if hasattr(x, '__dict__') and type(x) is type(y) and not isinstance(x, np.ndarray):
                    for q in sorted(set(vars(x)) | set(vars(y))):
                        deep(vars(x).get(q), vars(y).get(q), p + [q])
                    return
                ob.count('fields')
                ob.check(eq(x, y), '%s/%s/%s' % (key, k, p[-1]), lambda: '%s: %s %s is %s after loading, was %s' % (who, k, '.'.join(p), show(y), show(x)))
            deep(va, vb, [k])


def dump(o):
    d = os.path.dirname(o.code_gen_options.json_file)
    if d:
        os.makedirs(d, exist_ok=True)
    o.dump_to_json()
    return open(o.code_gen_options.json_file).read()


def whole(ob, a, b, who, key):
    for part in PARTS:
        if part == 'model':
            model(ob, a.model, b.model, who, key)
        compare(ob, getattr(a, part), getattr(b, part), who + ' ' + part, key + '/' + part)
    others(ob, a, b, who, key)


def ocp(case, ob, rng):
    from acados_template import AcadosOcp
    pr = Prob(case['seed'], **(dict(idxs_rev=True, soft=2) if case['i'] % 6 == 2 else {}))
    o = quiet(pr.make_ocp, 'rt%d' % case['i'])
    o.code_gen_options.json_file = 'a.json'
    decorate(rng, pr, o)
    sh = rng.random()
    if pr.N > 1 and sh < .5:
        o.solver_options.cost_scaling = rng.uniform(.2, 2, pr.N + 1)
    who = pr.tag()
    quiet(o.make_consistent)
    plain = rng.random() < .3
    if not plain:
        late(rng, pr, o)
        options(rng, o.solver_options, o.code_gen_options, skip=('N_horizon', 'tf', 'Tsim'))
    ob.state(pr.f.get('integrator'), pr.f.get('cost'), pr.f.get('constr'), pr.f.get('soft'), plain)
    before = copy.deepcopy(o)
    t1 = dump(o)
    whole(ob, before, o, who + ' (dumping changed the description)', 'dump')
    d = json.loads(t1)
    for part in PARTS:
        if part != 'model':
            content(ob, getattr(o, part), d[part], who + ' ' + part, part)
    fn = o.code_gen_options.json_file
    b = quiet(AcadosOcp.from_json, fn)
    ob.count('descriptions')
    whole(ob, o, b, who, 'load')
    b.code_gen_options.json_file = 'b.json'
    t2 = dump(b)
    files(ob, t1, t2, who, 'dump again')
    if plain:
        quiet(b.make_consistent)
        files(ob, t1, dump(b), who + ' (made consistent)', 'consistent')


def phases(rng, seed):
    """a multi-phase description: phases with different problems, same parameters p_global"""
    from acados_template import AcadosMultiphaseOcp
    n = int(rng.integers(2, 4))
    Ns = [int(q) for q in rng.integers(1, 4, n)]
    mo = AcadosMultiphaseOcp(N_list=Ns)
    prs, ocps, k = [], [], 0
    npg, nx = int(rng.integers(0, 3)), int(rng.integers(1, 4))
    while len(prs) < n:
        k += 1
        pr = Prob(seed * 31 + k, npg=npg, nx=nx, sym='SX', integrator=['ERK', 'IRK', 'DISCRETE'][int(rng.integers(3))], idxs_rev=False, x0=['box', 'fixed'][not prs], N=2)
        prs.append(pr)
        ocps.append(quiet(pr.make_ocp, 'mp%d' % len(prs)))
    for i, o in enumerate(ocps):
        if i and npg:
            o.model.substitute(o.model.p_global, ocps[0].model.p_global)
            o.model.p_global = ocps[0].model.p_global
            o.p_global_values = ocps[0].p_global_values
        o.model.name = 'phase%d' % i
        mo.set_phase(o, i)
    mo.mocp_opts.integrator_type = [o.solver_options.integrator_type for o in ocps]
    mo.mocp_opts.collocation_type = [str(rng.choice(['GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE'])) for o in ocps]
    mo.mocp_opts.cost_discretization = ['EULER'] * n
    if npg:
        mo.p_global_values = ocps[0].p_global_values
    mo.name = 'mp'
    so = mo.solver_options
    so.tf = float(rng.uniform(.5, 3))
    if rng.random() < .6:
        t = rng.uniform(.1, .4, sum(Ns))
        so.time_steps, so.tf = t, float(np.sum(t))
    return mo, prs, Ns


def mocp(case, ob, rng):
    from acados_template import AcadosMultiphaseOcp
    mo, prs, Ns = phases(rng, case['seed'])
    mo.code_gen_options.json_file = 'a.json'
    quiet(mo.make_consistent)
    who = ' | '.join(p.tag() for p in prs)[:200]
    plain = rng.random() < .5
    if not plain:
        options(rng, mo.solver_options, mo.code_gen_options, skip=('N_horizon', 'tf', 'Tsim', 'integrator_type', 'collocation_type', 'cost_discretization'))
    t1 = dump(mo)
    b = quiet(AcadosMultiphaseOcp.from_json, mo.code_gen_options.json_file)
    ob.count('descriptions')
    ob.state('mocp', len(Ns), tuple(p.f.get('cost') for p in prs))
    for i in range(len(Ns)):
        w = '%s phase %d' % (who, i)
        model(ob, mo.model[i], b.model[i], w, 'mocp')
        for part, l in (('model', 'model'), ('cost', 'cost'), ('constraints', 'constraints'), ('dims', 'phases_dims')):
            compare(ob, getattr(mo, l)[i], getattr(b, l)[i], w + ' ' + part, 'mocp/' + part)
    for part in ('solver_options', 'mocp_opts', 'code_gen_options'):
        if part == 'solver_options':
            for q in ('integrator_type', 'collocation_type', 'cost_discretization'):
                setattr(b.solver_options, q, getattr(mo.solver_options, q))
        compare(ob, getattr(mo, part), getattr(b, part), who + ' ' + part, 'mocp/' + part)
    others(ob, mo, b, who, 'mocp')
    pg = [m.p_global for m in b.model]
    skip = () if empty(pg[0]) else ('serialized_expressions',)      # global parameters are substituted on loading
    if skip:
        ob.check(all(ca.is_equal(pg[0][j], q[j], 0) for q in pg[1:] for j in range(pg[0].numel())), 'mocp/p_global', who + ': phases have different global parameter symbols after loading')
    b.code_gen_options.json_file = 'b.json'
    files(ob, t1, dump(b), who, 'mocp dump again', skip)
    if plain:
        quiet(b.make_consistent)
        files(ob, t1, dump(b), who + ' (made consistent)', 'mocp consistent', skip)


def sim(case, ob, rng):
    from acados_template import AcadosSim
    pr = Prob(case['seed'], integrator=['ERK', 'IRK'][case['i'] % 2])
    o = quiet(pr.make_ocp, 'sm')
    s = AcadosSim()
    s.model = o.model
    s.parameter_values = o.parameter_values
    if pr.npg:
        s.p_global_values = o.p_global_values
    s.code_gen_options.json_file = 's.json'
    so = s.solver_options
    so.T = float(rng.uniform(.05, .5))
    so.integrator_type = pr.f['integrator']
    so.num_stages, so.num_steps = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    for k in ('sens_forw', 'sens_adj', 'sens_algebraic', 'sens_hess', 'output_z'):
        setattr(so, k, bool(rng.integers(2)))
    quiet(s.make_consistent)
    before = copy.deepcopy(s)
    quiet(s.dump_to_json)
    d = json.load(open(s.code_gen_options.json_file))
    for part in ('dims', 'solver_options', 'code_gen_options'):
        content(ob, getattr(s, part), d[part], pr.tag() + ' ' + part, 'sim/' + part)
        compare(ob, getattr(before, part), getattr(s, part), 'dumping', 'sim/dump/' + part)
    content(ob, s, d, pr.tag(), 'sim')
    from acados_template import AcadosModel
    m = quiet(AcadosModel.from_dict, d['model'])
    model(ob, s.model, m, pr.tag(), 'sim')
    compare(ob, s.model, m, pr.tag(), 'sim/model')
    ob.count('descriptions')
    ob.state('sim', so.integrator_type, so.sens_hess)


def iterate(case, ob, rng):
    from acados_template import AcadosOcpIterate
    pr = Prob(case['seed'])
    o = quiet(pr.make_ocp, 'it')
    S = make_solver(o)
    for r in range(6):
        pr.set_iterate(S, pr.random_iterate(rng))
        a = S.store_iterate_to_obj()
        fn = 'it%d.json' % r
        S.store_iterate(fn, overwrite=True, verbose=False)
        b = AcadosOcpIterate.from_json(fn)
        pr.set_iterate(S, pr.random_iterate(rng))
        S.load_iterate(fn, verbose=False)
        c = S.store_iterate_to_obj()
        ob.count('iterates')
        for k in vars(a):
            va = vars(a)[k]
            for nm, it in (('AcadosOcpIterate.from_json', b), ('load_iterate', c)):
                vb = vars(it)[k]
                ok = len(va) == len(vb) and all(np.array_equal(np.ravel(x), np.ravel(y)) for x, y in zip(va, vb))
                ob.check(ok, 'iterate/%s' % k, lambda: '%s gives another %s: %s instead of %s' % (nm, k, str(vb)[:100], str(va)[:100]))


def solve(case, ob, rng):
    from acados_template import AcadosOcp
    pr = Prob(case['seed'], uniform=case['i'] % 3 == 0)
    o = quiet(pr.make_ocp, 'sv')
    o.code_gen_options.json_file = 'a.json'
    quiet(o.make_consistent)
    dump(o)
    b = quiet(AcadosOcp.from_json, o.code_gen_options.json_file)
    b.name = 'ocp_svb'
    b.code_gen_options.code_export_directory = os.path.abspath('loaded')
    b.code_gen_options.json_file = 'b.json'
    S, T = make_solver(o), make_solver(b)
    ob.count('solver pairs')
    ob.state('solve', pr.f.get('integrator'), pr.f.get('cost'), pr.f.get('constr'))
    def same(a, c, what):
        ob.count('values', np.size(a))
        ob.check(np.shape(a) == np.shape(c) and np.array_equal(a, c, equal_nan=True), 'solve/' + what, lambda: '%s of the solver of the loaded description differs: %s instead of %s (%s)' % (what, str(c)[:100], str(a)[:100], pr.tag()))
    its = [S.store_iterate_to_obj(), T.store_iterate_to_obj()]
    for k in vars(its[0]):
        for x, y in zip(vars(its[0])[k], vars(its[1])[k]):
            same(np.ravel(x), np.ravel(y), 'initial ' + k)
    for r in range(3):
        it = pr.random_iterate(rng)
        for s in (S, T):
            pr.set_iterate(s, it)
        st = [s.solve() for s in (S, T)]
        same(st[0], st[1], 'status')
        for nm in ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'b', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu', 'Zl', 'Zu', 'zl', 'zu'):
            for k in range(pr.N + 1):
                if k == pr.N and nm in 'ABb':
                    continue
                same(S.get_from_qp_in(k, nm), T.get_from_qp_in(k, nm), 'QP ' + nm)
        for nm in ('x', 'u', 'pi', 'lam', 'sl', 'su', 'z'):
            same(S.get_flat(nm), T.get_flat(nm), nm)
        same(S.get_cost(), T.get_cost(), 'cost')
        same(S.get_stats('nlp_iter'), T.get_stats('nlp_iter'), 'iterations')
    if o.constraints.has_x0:
        x0 = rng.normal(size=pr.nx) * .1
        r = []
        for s in (S, T):
            s.reset()
            r.append(s.solve_for_x0(x0, fail_on_nonzero_status=False, print_stats_on_failure=False))
        same(r[0], r[1], 'solve_for_x0')
