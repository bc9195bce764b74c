"""ocp, mocp, sim: one field of a random problem description is changed (data, references, weights, bounds, index sets, parameters, initial
values, expressions, labels, solver and code generation options, zoRO, Simulink and ROS parts).  With the record of one description on disk the
solver interface is asked whether its code may be reused for the other one, in both directions.  If it says yes, the code of both is
generated and has to be the same in every file.  hist: histories of solver creations with changing descriptions and random
generate/build flags in one directory and under one name; every step runs in a new process, and the solver it gets has to give bitwise
the results of a solver built in an empty directory.  crash: the same with creations that are killed at a random point of code
generation or compilation, or whose compiler fails."""
import builtins
import glob
import os
import pickle
import shutil
import warnings
import numpy as np
import casadi as ca
import p19
import p21
import p26
from prob import Prob, make_solver
import simref

PROPERTY = 'P29'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['differences of arrays below the documented tolerance (1e-13) may be ignored by the interface; changes are larger here',
               'files the description only names (sources of generic functions, custom update code) do not change', 'nothing else writes to the directory']
RULE = 'distinct (part, field) changed; (kind of creation, flags, what happened before)'
FAM = [('ocp', 44), ('mocp', 8), ('sim', 10), ('hist', 12), ('simhist', 6), ('crash', 12), ('simcrash', 6)]
CASE_TIMEOUT = 200
quiet = p26.quiet


def cases(tier, seed):
    out = []
    for nm, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), fam=nm, i=i, seed=1900009 * seed + 101 * i + sum(map(ord, nm))))
    return out


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    f = dict(hist=hist, simhist=hist, crash=hist, simcrash=hist).get(case['fam'], mut)
    f(case, ob, rng)


# ------------------------------------------------------------------------------------------------- descriptions
def base(case):
    """deterministic: builds the same description each time it is called"""
    fam = case['fam']
    if fam == 'mocp':
        def make():
            r = np.random.default_rng(case['seed'])
            mo = quiet(p26.build, r, case['seed'], 'GAUSS_NEWTON')[1]
            mo.name = 'rep'
            return mo
        return make
    if fam.startswith('sim'):
        rng = np.random.default_rng(case['seed'])
        it = str(rng.choice(['ERK', 'IRK', 'GNSF']))
        pr = simref.draw(case['seed'], rng, it)

        def make():
            sim = simref.make_sim(pr, .3, True, False, name='rep')
            sim.name = 'rep'
            return sim
        make.pr = pr
        return make
    fix = {} if fam == 'ocp' else dict(N=3, nx=2)
    pr = Prob(case['seed'], **fix)

    def make():
        r = np.random.default_rng(case['seed'])
        o = quiet(pr.make_ocp, 'rep')
        o.name = 'rep'
        if fam == 'ocp':
            p19.decorate(r, pr, o)
            quiet(o.make_consistent)
            p19.late(r, pr, o)
        return o
    make.pr = pr
    return make


SKIP = {'json_file', 'code_export_directory', 'acados_lib_path', 'acados_include_path', 'acados_link_libs', 'acados_version', 'shared_lib_ext', 'cython_include_dirs', 'os', 'name', 'hash', 'tol', 'qp_tol',
        'custom_update_filename', 'custom_update_header_filename', 'custom_templates', 'custom_update_copy', 'ros_opts', 'model_external_shared_lib_name', 'model_external_shared_lib_dir',
        'ext_fun_compile_flags_deprecated', 'x', 'u', 'p', 'z', 'xdot', 't', 'pi', 'lam', 'p_global', 'p_slack', 'N_horizon'}


def parts(o):
    """(label, object) of the parts of a description"""
    out = []
    for nm in ('cost', 'constraints', 'model'):
        v = getattr(o, nm, None)
        if isinstance(v, list):
            out += [('%s[%d]' % (nm, i), q) for i, q in enumerate(v)]
        elif v is not None:
            out.append((nm, v))
    for nm in ('solver_options', 'code_gen_options', 'mocp_opts', 'zoro_description', 'ros_opts', 'simulink_opts'):
        v = getattr(o, nm, None)
        if v is not None:
            out.append((nm, v))
            if nm == 'simulink_opts':
                out += [('simulink_opts.inputs', v.inputs), ('simulink_opts.outputs', v.outputs)]
    return out


def targets(o):
    out = [('', k) for k in ('parameter_values', 'p_global_values') if hasattr(o, k)]
    for nm, q in parts(o):
        ks = p19.props(q) or [k for k in vars(q)]
        out += [(nm, k) for k in ks if k not in SKIP]
    return out


def find(o, nm):
    return o if nm == '' else dict(parts(o))[nm]


def change(rng, v, tab=None):
    """a different value of the same kind"""
    if tab is not None and rng.random() < .8:
        for _ in range(20):
            w = tab.good(rng)
            if not p19.eq(w, v):
                return w
    if isinstance(v, bool):
        return not v
    if isinstance(v, (ca.SX, ca.MX)):
        if p19.empty(v) or v.is_valid_input():
            return None
        return v * 1.01 if rng.random() < .5 else v + 1e-3
    if isinstance(v, (int, np.integer)):
        return int(v) + int(rng.choice([1, -1, 2])) if v not in (0, 1) or rng.random() < .4 else 1 - int(v)
    if isinstance(v, (float, np.floating)):
        return float(v) * float(rng.choice([1.5, 1 + 1e-9, .5])) + (0 if v else 1e-3)
    if isinstance(v, str):
        return v + '_b'
    if isinstance(v, ca.DM):
        return None if v.numel() == 0 else v + 1e-3
    if isinstance(v, np.ndarray) and v.size:
        w = v.copy()
        if rng.random() < .2 and w.ndim == 1 and w.size > 1 and len(set(w.tolist())) > 1:
            w = np.roll(w, 1)
            return w
        i = tuple(int(rng.integers(n)) for n in w.shape)
        if np.issubdtype(w.dtype, np.integer):
            w[i] += int(rng.choice([-1, 1]))
        elif w.dtype == bool:
            w[i] = not w[i]
        elif np.issubdtype(w.dtype, np.floating):
            d = float(rng.choice([1e-9, .1, 1.])) * max(1, min(abs(w[i]), 1e6))
            w[i] += d
            if w.ndim == 2 and w.shape[0] == w.shape[1] and i[0] != i[1]:
                w[i[::-1]] = w[i]
        else:
            return None
        return w
    if isinstance(v, list) and len(v):
        w = list(v)
        i = int(rng.integers(len(w)))
        n = change(rng, w[i])
        if n is None:
            return None
        w[i] = n
        return w
    return None


DIR = 'c_generated_code'


def cons(o):
    o.code_gen_options.json_file = 'rep.json'
    o.code_gen_options.code_export_directory = DIR
    quiet(o.make_consistent)


def tools(o):
    from acados_template import AcadosOcpSolver, AcadosSimSolver, AcadosSim
    if isinstance(o, AcadosSim):
        return AcadosSimSolver, lambda q: AcadosSimSolver.is_code_reuse_possible(q, verbose=False)
    return AcadosOcpSolver, lambda q: AcadosOcpSolver.is_code_reuse_possible(q, False, 1e-13)


def tree(o):
    shutil.rmtree(os.path.abspath(DIR), ignore_errors=True)
    cls, _ = tools(o)
    quiet(cls.generate, o, verbose=False)
    out = {}
    for f in glob.glob(DIR + '/**/*', recursive=True):
        if os.path.isfile(f) and not f.endswith('.json'):
            out[f] = open(f, 'rb').read()
    return out


def record(o):
    shutil.rmtree(os.path.abspath(DIR), ignore_errors=True)
    os.makedirs(DIR)
    quiet(o.dump_to_json)


def mut(case, ob, rng):
    make = base(case)
    try:
        A = make()
        cons(A)
    except Exception:
        ob.count('description not usable')
        return
    tg = targets(A)
    rng.shuffle(tg)
    cg = p21.CG
    done = 0
    _, reuse = tools(A)
    record(A)
    B = make()
    cons(B)
    ob.count('same description reused' if quiet(reuse, B) else 'same description not reused')
    for nm, k in tg:
        if done >= 30:
            break
        try:
            A, B = make(), make()
            q = find(B, nm)
            v = getattr(q, k)
            tab = {'solver_options': p21.SIM if case['fam'] == 'sim' else p21.OCP, 'code_gen_options': cg}.get(nm, {}).get(k)
            w = change(rng, v, tab)
            if w is None:
                continue
            setattr(q, k, w)
            cons(A)
            cons(B)
        except (Exception, SystemExit):
            ob.count('changes refused')
            continue
        done += 1
        ob.state(case['fam'], nm.split('[')[0], k)
        for i, (P, Q) in enumerate(((A, B), (B, A))):
            record(P)
            ans = quiet(reuse, Q)
            ob.check(ans in (True, False), 'answer', 'reuse is %s' % ans)
            ob.count('reuse decisions')
            if not ans:
                continue
            ob.count('reuse granted')
            try:
                tq = tree(Q)
                P = make()
                if i:
                    setattr(find(P, nm), k, w)
                cons(P)
                tp = tree(P)
            except (Exception, SystemExit) as e:
                ob.count('not generated')
                break
            bad = [f for f in sorted(set(tp) | set(tq)) if tp.get(f) != tq.get(f)]
            if bad:
                f = bad[0]
                a, b = [t.get(f, b'').decode(errors='replace').splitlines() for t in (tp, tq)]
                d = [(x, y) for x, y in zip(a, b) if x != y][:1]
                ob.check(False, 'stale/' + k, 'code of a description is reused after %s.%s changed from %.80s to %.80s (%s): %d files differ, e.g. %s: %.200s' % (nm, k, p19.show(v), p19.show(w), 'backwards' if i else 'forwards', len(bad), f, d))
            break


# ------------------------------------------------------------------------------------------------- histories
def child(f, *a):
    """run f in a new process; returns (result or None, exit code)"""
    out = os.path.abspath('child.out')
    if os.path.exists(out):
        os.remove(out)
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            r = f(*a)
            with open(out + '.tmp', 'wb') as h:
                pickle.dump(r, h)
            os.rename(out + '.tmp', out)
            code = 0
        except BaseException as e:
            with open(out + '.err', 'w') as h:
                h.write(repr(e)[:300])
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.path.exists(out):
        return pickle.load(open(out, 'rb')), 0
    return None, os.waitstatus_to_exitcode(st)


def results(o, pr, s):
    """what the solver computes"""
    rng = np.random.default_rng(5)
    r = []
    if hasattr(o.solver_options, 'N_horizon'):
        s.solve()
        for k in range(pr.N + 1):
            for f in ('x', 'u', 'pi', 'lam', 'sl', 'su', 'z', 'p'):
                if k < pr.N or f not in ('u', 'pi', 'z'):
                    r.append(np.array(s.get(k, f)))
        it = pr.random_iterate(rng, scale=.3)
        pr.set_iterate(s, it)
        r.append(np.array(s.get_cost()))
        s.options_set('max_iter', 1) if o.solver_options.nlp_solver_type != 'SQP_RTI' else None
        s.solve()
        for k in range(pr.N + 1):
            r += [np.array(s.get(k, 'x')), np.array(s.get(k, 'lam'))]
            for f in ('lbx', 'ubx', 'lbu', 'C', 'Q', 'R', 'q') + (('A', 'B', 'b') if k < pr.N else ()):
                if f not in ('R', 'lbu') or k < pr.N:
                    r.append(np.array(s.get_from_qp_in(k, f)))
    else:
        for _ in range(3):
            x, u = rng.normal(size=pr.nx) * .3, rng.normal(size=pr.nu) * .3
            s.set('x', x)
            s.set('u', u) if pr.nu else None
            s.solve()
            r += [np.array(s.get('x')), np.array(s.get('Sx')), np.array(s.get('Su'))]
    return r


def create(o, pr, kw, kill=None):
    cls, _ = tools(o)
    o.code_gen_options.json_file = 'rep.json'
    o.code_gen_options.code_export_directory = DIR
    if kill:
        arm(kill)
    s = quiet(cls, o, verbose=False, **kw)
    return s.generated, results(o, pr, s)


def arm(kill):
    """end this process at the n-th step of the given kind"""
    import acados_template.acados_ocp_solver as ms
    import acados_template.acados_sim_solver as ss
    import acados_template.utils as ut
    kind, n = kill
    cnt = [0]

    def tick():
        cnt[0] += 1
        if cnt[0] == n:
            os._exit(7)
    if kind == 'render':
        old = os.system

        def system(cmd):
            tick()
            return old(cmd)
        os.system = system
    elif kind == 'write':
        op = builtins.open

        def wopen(f, mode='r', *a, **k):
            h = op(f, mode, *a, **k)
            if 'w' in mode:
                tick()
            return h
        builtins.open = wopen
    elif kind == 'make':
        for m in (ms, ss):
            old = m.verbose_system_call

            def call(cmd, *a, old=old, **k):
                tick()
                return old(cmd, *a, **k)
            m.verbose_system_call = call
    elif kind == 'compiler':      # the compiler fails from the n-th call on
        d = os.path.abspath('failcc')
        os.makedirs(d, exist_ok=True)
        with builtins.open(d + '/cc.sh', 'w') as h:
            h.write('#!/bin/sh\necho x >> %s/n\n[ $(wc -l < %s/n) -ge %d ] && exit 1\nexec "$VP_CC" "$@"\n' % (d, d, n))
        os.chmod(d + '/cc.sh', 0o755)
        if os.path.exists(d + '/n'):
            os.remove(d + '/n')
        for m in (ms, ss):
            old = m.verbose_system_call

            def call(cmd, *a, old=old, **k):
                return old(list(cmd) + ['CC=' + d + '/cc.sh'], *a, **k)
            m.verbose_system_call = call


def hist(case, ob, rng):
    make = base(case)
    pr = make.pr
    # the descriptions of this history: data changes that keep all dimensions
    prob = make()
    tg = []
    for nm, k in targets(prob):
        v = getattr(find(prob, nm), k)
        ok = isinstance(v, np.ndarray) and v.size and np.issubdtype(v.dtype, np.floating) and k not in ('time_steps', 'shooting_nodes', 'cost_scaling') and not k.startswith('idx')
        if ok or (k in ('f_expl_expr', 'f_impl_expr', 'disc_dyn_expr', 'con_h_expr', 'cost_y_expr', 'cost_expr_ext_cost', 'T') and not p19.empty(v)) or (nm == '' and np.size(v)):
            tg.append((nm, k))
    descs = [[]]
    opts = ['levenberg_marquardt', 'nlp_solver_max_iter', 'qp_solver_tol_stat', 'reg_epsilon', 'regularize_method', 'sim_method_num_steps', 'sim_method_num_stages', 'nlp_solver_type', 'hessian_approx', 'tf',
            'collocation_type', 'globalization', 'exact_hess_dyn', 'qp_solver_warm_start', 'tau_min', 'globalization_fixed_step_length']
    for _ in range(3):
        nm, k = tg[int(rng.integers(len(tg)))]
        tab = None
        if not case['fam'].startswith('sim') and rng.random() < .4:
            nm, k = 'solver_options', str(rng.choice(opts))
            tab = p21.OCP[k]
        w = change(rng, getattr(find(make(), nm), k), tab)
        try:
            if w is not None:
                setattr(find(make(), nm), k, w)
                descs.append([(nm, k, w)])
        except Exception:
            ob.count('changes refused')

    def desc(i):
        o = make()
        for nm, k, w in descs[i]:
            setattr(find(o, nm), k, w)
        return o
    home = os.getcwd()
    fresh = {}

    def ref(i):
        if i not in fresh:
            os.makedirs('fresh%d' % i)
            os.chdir('fresh%d' % i)
            fresh[i], code = child(create, desc(i), pr, {})
            os.chdir(home)
        return fresh[i]
    past, retry = [], None
    for step in range(8):
        i = int(rng.integers(len(descs))) if retry is None or rng.random() < .2 else retry
        again, retry = retry is not None, None
        if ref(i) is None:
            ob.count('description not usable')
            continue
        kw = dict(generate=bool(rng.random() < .25), build=bool(rng.random() < .4))
        kill = None
        if 'crash' in case['fam'] and past and not again and rng.random() < .6:
            kw = dict(generate=bool(rng.random() < .7), build=True)
            kind = str(rng.choice(['render', 'write', 'make', 'compiler']))
            kill = (kind, int(rng.integers(1, {'render': 9, 'write': 20, 'make': 3, 'compiler': 6}[kind])))
        r, code = child(create, desc(i), pr, kw, kill)
        what = '%s description %d (%s) generate=%s build=%s%s' % (case['fam'], i, ', '.join('%s.%s' % q[:2] for q in descs[i]) or 'unchanged', kw['generate'], kw['build'], ', %s fails at %d' % kill if kill else '')
        past.append(what)
        if kill:
            ob.count('interrupted' if r is None else 'interruption too late')
            ob.state('crash', kill, kw['generate'])
            retry = i
        elif r is None and 'crash' in case['fam']:      # refused without a usable build
            ob.count('creation failed loudly')
        elif r is None:
            err = open('child.out.err').read() if os.path.exists('child.out.err') else ''
            ob.check(False, 'creation', 'creation failed with %s %s; history: %s' % (code, err, ' | '.join(past)))
            return
        if r is None:
            continue
        ob.count('creations')
        ob.count('reused' if not r[0] else 'generated')
        ob.state(case['fam'], kw['generate'], kw['build'], r[0])
        a, b = r[1], fresh[i][1]
        same = len(a) == len(b) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))
        ob.count('values', sum(x.size for x in b))
        if not same:
            j = [n for n, (x, y) in enumerate(zip(a, b)) if x.tobytes() != y.tobytes()][:1]
            other = [n for n in fresh if fresh[n] and len(fresh[n][1]) == len(a) and all(x.tobytes() == y.tobytes() for x, y in zip(a, fresh[n][1]))]
            ob.check(False, 'stale', 'the solver gives other results than one built from scratch (value %s)%s; history: %s' % (j, ', namely those of description %s' % other if other else '', ' | '.join(past)))
            return
