"""The library and all generated solvers and integrators are compiled with
AddressSanitizer and UndefinedBehaviorSanitizer.  Under these the workloads of the other
checks run - random problems of all formulations with random API histories: solves,
getters and setters, sensitivities, resets, grid and parameter changes, QP export,
iterates, batches, integrators, numerical utilities - and no access outside of an
object, use of freed memory, or undefined operation may be reported.  Life-cycle
runs create, use and destroy solvers and integrators repeatedly: the
number of allocated bytes has to come back to exactly the same value (leak accounting), with
several instances alive, after grid changes and after failed solves.  Program runs execute the generated
example program under valgrind's memcheck: no branch or output may depend on uninitialised memory and no block may be left behind."""
import ctypes
import gc
import glob
import importlib
import os
import random
import re
import subprocess
import warnings

import numpy as np

from prob import Prob
from vp import Inconclusive, Observer

PROPERTY = 'P07'
VARIANT = 'asan'
LEVEL = 'monitored'
ASSUMPTIONS = ['the installed BLASFEO, HPIPM and OSQP binaries are not instrumented; their reads of uninitialised panel padding are not judged',
               'memory handed out inside one solver allocation is checked by acados\' own size assertions, which are active, and by memcheck only for initialisation']
RULE = 'distinct (workload, family) executed under the sanitizers; life-cycle and memcheck configurations'
CASE_TIMEOUT = 240
SOFT_S = {'quick': 300, 'thorough': 3000}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {'p03': 6, 'p04': 5, 'p05': 8, 'p06': 5, 'p08': 6, 'p09': 5, 'p10': 6, 'p11': 5, 'p12': 4, 'p13': 3, 'p14': 3, 'p15': 3,
        'p16': 3, 'p18': 6, 'p27': 3, 'p30': 7, 'p31': 4}


def cases(tier, seed):
    out = []
    q = tier == 'quick'
    rng = random.Random(seed * 7919 + 3)
    for m, n in MODS.items():
        mod = importlib.import_module(m)
        cs = [c for c in mod.cases('quick' if q else tier, seed + 50) if c.get('fam') != 'race']
        fams = {}
        for c in cs:
            fams.setdefault(c.get('fam', c['id'].split('_')[0].rstrip('0123456789')), []).append(c)
        for v in fams.values():
            rng.shuffle(v)
        order = sorted(fams)
        rng.shuffle(order)
        sel, i = [], 0
        n = n if q else 14 * n
        while len(sel) < n and any(fams.values()):
            f = order[i % len(order)]
            if fams[f]:
                sel.append(fams[f].pop())
            i += 1
        for c in sel:
            out.append(dict(id='%s_%s' % (m, c['id']), fam='run', mod=m, inner=c, seed=c.get('seed', 0)))
    for i in range(12 if q else 120):
        out.append(dict(id='life%d_%d' % (seed, i), fam='life', seed=1700003 * seed + 911 * i))
    for i in range(3 if q else 20):
        out.append(dict(id='lifesim%d_%d' % (seed, i), fam='lifesim', seed=1700003 * seed + 913 * i))
    for i in range(8 if q else 60):
        out.append(dict(id='mem%d_%d' % (seed, i), fam='mem', seed=1700003 * seed + 917 * i))
    out.sort(key=lambda c: {'mem': 0, 'life': 1, 'lifesim': 1}.get(c['fam'], 2))
    return out


def prepare(tier):
    import acbuild
    acbuild.build('valgrind')


def run(case, ob):
    warnings.simplefilter('ignore')
    if case['fam'] == 'run':
        return run_inner(case, ob)
    return dict(life=run_life, lifesim=run_lifesim, mem=run_mem)[case['fam']](case, ob)


def run_inner(case, ob):
    mod = importlib.import_module(case['mod'])
    inner = Observer()
    try:
        mod.run(case['inner'], inner)
    except Inconclusive:
        pass
    except Exception as e:      # what the calls return is judged by the check the workload comes from
        ob.count('workload_exceptions')
        ob.sample(dict(exception=repr(e)[:200]))
    ob.count('oracle_evaluations')
    ob.count('workload_evaluations', inner.counts.get('oracle_evaluations', 0))
    ob.state('%s %s' % (case['mod'], case['inner'].get('fam', case['inner']['id'].rstrip('0123456789_'))))


# ---------------------------------------------------------------- life cycles
def counter():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f


def fn(lib, name, res=ctypes.c_int, args=None):
    f = getattr(lib, name)
    f.restype = res
    if args is not None:
        f.argtypes = args
    return f


def draw(rng):
    """a random problem that also generates simulation or sensitivity functions at times"""
    fix = {}
    t = rng.random()
    if t < .25:
        fix = dict(integrator='DISCRETE', hess='EXACT', constr='BGH', nonlin=.5)
    return Prob(int(rng.integers(1 << 30)), **fix), t < .25


def run_life(case, ob):
    from acados_template import AcadosOcpSolver
    rng = np.random.default_rng(case['seed'])
    pr, sens = draw(rng)
    ocp = pr.make_ocp('life')
    o = ocp.solver_options
    o.nlp_solver_type = str(rng.choice(['SQP', 'SQP_RTI', 'SQP', 'SQP_WITH_FEASIBLE_QP']))
    if o.nlp_solver_type == 'SQP_WITH_FEASIBLE_QP':
        if pr.f.get('scaling'):
            pass
        o.globalization = 'FUNNEL_L1PEN_LINESEARCH'
    o.nlp_solver_max_iter = 5
    o.store_iterates = bool(rng.random() < .3) and o.nlp_solver_type != 'SQP_RTI'
    if sens and o.nlp_solver_type in ('SQP', 'SQP_RTI') and pr.f.get('npg'):
        o.with_solution_sens_wrt_params = True
        o.with_value_sens_wrt_params = True
    if rng.random() < .2:
        o.qpscaling_scale_constraints = 'INF_NORM'
        o.with_solution_sens_wrt_params = o.with_value_sens_wrt_params = False
        if o.nlp_solver_type == 'SQP_RTI':
            o.nlp_solver_type = 'SQP'
    try:
        s = AcadosOcpSolver(ocp, verbose=False)
    except Exception as e:
        raise Inconclusive('not accepted: %r' % e)
    name = ocp.name
    lib = s.shared_lib
    P = ctypes.c_void_p
    cc = fn(lib, name + '_acados_create_capsule', P, [])
    cr = fn(lib, name + '_acados_create', ctypes.c_int, [P])
    crd = fn(lib, name + '_acados_create_with_discretization', ctypes.c_int, [P, ctypes.c_int, P])
    so = fn(lib, name + '_acados_solve', ctypes.c_int, [P])
    rs = fn(lib, name + '_acados_reset', ctypes.c_int, [P, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int])
    fr = fn(lib, name + '_acados_free', ctypes.c_int, [P])
    fc = fn(lib, name + '_acados_free_capsule', ctypes.c_int, [P])
    N = o.N_horizon
    grid = np.ascontiguousarray(np.array(o.time_steps, dtype=float)) if N else None
    gp = P(grid.ctypes.data) if N else None
    plan = [str(x) for x in rng.choice(['solve', 'reset', 'hardreset', 'two', 'grid'], size=4)]

    def cycle():
        caps = [cc()]
        if 'grid' in plan and N > 0:
            ok = crd(caps[0], N, gp)
        else:
            ok = cr(caps[0])
        if 'two' in plan:
            caps.append(cc())
            ok |= cr(caps[1])
        for a in plan:
            for c in caps:
                if a == 'reset':
                    rs(c, 1, 0, 0, 0)
                elif a == 'hardreset':
                    rs(c, 1, 1, 1, 0)
                else:
                    so(c)
        for c in caps:
            ok |= fr(c)
            ok |= fc(c)
        return ok
    allocated = counter()
    cycle()
    cycle()
    gc.collect()
    gc.disable()
    a = np.zeros(6, dtype=np.int64)
    for i in range(6):
        st = cycle()
        a[i] = allocated()
    gc.enable()
    ob.check(st == 0, 'status', 'create or free returned %d' % st)
    d = np.diff(a)
    ob.count('cycles', 6)
    ob.worst('bytes_per_cycle', float(min(abs(d))))
    ob.check((d == 0).any(), 'leak', 'every create/use/free cycle leaves %s bytes behind (%s, %s)' % (d.tolist(), o.nlp_solver_type, plan))
    # python life cycle: deleting a solver frees what it allocated in C
    from acados_template import AcadosOcpSolver as S
    kw = dict(generate=False, build=False, verbose=False)
    del s
    gc.collect()

    def pycycle():
        q = S(ocp, **kw)
        q.solve()
        q.get_stats('time_tot')
        del q
        gc.collect()
    pycycle()
    pycycle()
    a = np.zeros(6, dtype=np.int64)
    for i in range(6):
        pycycle()
        a[i] = allocated()
    d = np.diff(a)
    ob.worst('bytes_per_python_cycle', float(np.sort(abs(d))[0]))
    ob.check(np.sort(abs(d))[0] < 4096, 'pyleak', 'every creation and deletion of a solver in Python leaves %s bytes behind' % d.tolist())
    ob.state('life %s %s %s' % (o.nlp_solver_type, o.integrator_type, o.qp_solver))


def run_lifesim(case, ob):
    import simref
    rng = np.random.default_rng(case['seed'])
    it = str(rng.choice(['ERK', 'IRK', 'GNSF']))
    pr = simref.draw(int(rng.integers(1 << 30)), rng, it)
    s = simref.solver(simref.make_sim(pr, .1))
    lib = s.shared_lib
    name = s.acados_sim.name if hasattr(s, 'acados_sim') else s.model_name
    P = ctypes.c_void_p
    cc = fn(lib, name + '_acados_sim_solver_create_capsule', P, [])
    cr = fn(lib, name + '_acados_sim_create', ctypes.c_int, [P])
    so = fn(lib, name + '_acados_sim_solve', ctypes.c_int, [P])
    fr = fn(lib, name + '_acados_sim_free', ctypes.c_int, [P])
    fc = fn(lib, name + '_acados_sim_solver_free_capsule', ctypes.c_int, [P])

    def cycle():
        c = cc()
        cr(c)
        so(c)
        so(c)
        fr(c)
        fc(c)
    allocated = counter()
    cycle()
    cycle()
    gc.collect()
    gc.disable()
    a = np.zeros(6, dtype=np.int64)
    for i in range(6):
        cycle()
        a[i] = allocated()
    gc.enable()
    d = np.diff(a)
    ob.count('cycles', 6)
    ob.check((d == 0).any(), 'leak', 'every create/use/free cycle leaves %s bytes behind (%s)' % (d.tolist(), it))
    ob.state('lifesim %s' % it)


# ---------------------------------------------------------------- example program under memcheck
def run_mem(case, ob):
    from acados_template import AcadosOcpSolver
    rng = np.random.default_rng(case['seed'])
    pr, sens = draw(rng)
    ocp = pr.make_ocp('memc')
    o = ocp.solver_options
    o.nlp_solver_type = str(rng.choice(['SQP', 'SQP_RTI']))
    o.nlp_solver_max_iter = 4
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM' if o.qp_solver.endswith('OSQP') else o.qp_solver
    prefix = os.environ['VP_PREFIX'].replace('prefix-asan', 'prefix-valgrind')
    o.compile_interface = False
    os.environ['ACADOS_SOURCE_DIR'] = prefix
    ocp.code_gen_opts.acados_include_path = prefix + '/include'
    ocp.code_gen_opts.acados_lib_path = prefix + '/lib'
    try:
        AcadosOcpSolver.generate(ocp, verbose=False)
    except Exception as e:
        raise Inconclusive('not accepted: %r' % e)
    d = ocp.code_export_directory if hasattr(ocp, 'code_export_directory') else ocp.code_gen_opts.code_export_directory
    name = ocp.name
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS')}
    env['LD_LIBRARY_PATH'] = prefix + '/lib'
    env['CC'] = prefix + '/bin/vcc'
    src = [f for f in glob.glob(d + '/**/*.c', recursive=True) if not re.search(r'main_|_sim_solver', os.path.basename(f))]
    import acbuild
    obj = subprocess.run(['gcc', '-O0', '-g', '-w', '-std=gnu99', '-I' + d] + acbuild.inc_flags(prefix) + src + [d + '/main_%s.c' % name, '-o', 'prog', '-L' + prefix + '/lib',
                          '-lacados', '-L' + acbuild.CASADI, '-lhpipm', '-lblasfeo', '-lm', '-fopenmp', '-Wl,-rpath,%s/lib:%s' % (prefix, acbuild.CASADI), '-Wl,--allow-shlib-undefined'],
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if obj.returncode:
        ob.violation('compile', 'the generated example program does not compile: ' + obj.stdout[-600:])
        return
    r = subprocess.run(['valgrind', '--leak-check=full', '--show-leak-kinds=definite,indirect,possible', '--num-callers=12', '-q', '--error-limit=no', './prog'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if 'valgrind: ' in r.stderr and 'ERROR' in r.stderr and 'vex' in r.stderr:
        raise Inconclusive('valgrind does not know an instruction')
    bad = reports(r.stderr)
    ob.count('memcheck_blocks', len(re.split(r'==\d+== \n', r.stderr)))
    ob.check(not bad, 'memcheck', '%s: %s' % (pr.tag(), '\n'.join(bad[:2])))
    ob.state('mem %s %s %s %s' % (o.nlp_solver_type, o.integrator_type, o.qp_solver, o.hessian_approx))


def reports(text):
    """memcheck reports whose innermost known frame is acados or generated code"""
    out = []
    for b in re.split(r'==\d+== *\n', text):
        lines = [re.sub(r'^==\d+== ?', '', l) for l in b.split('\n')]
        lines = [l for l in lines if l.strip()]
        if not lines or not re.match(r'(Invalid|Conditional|Use of uninit|Syscall|Mismatched|Source and dest|\d[\d,]* .*bytes in .* lost)', lines[0].strip()):
            continue
        fr = [l for l in lines if re.match(r'\s*(at|by) 0x', l)]
        if 'lost' in lines[0]:
            if any('acados' in l or '.c:' in l for l in fr) and not any('libgomp' in l or 'hpipm_compat' in l for l in fr):
                out.append(' | '.join(x.strip() for x in lines[:9]))
            continue
        first = [l for l in fr if not re.search(r'vg_replace|libm\.|libm-|libc\.|printf|vfprintf', l)]
        if first and not re.search(r'in /.*lib(blasfeo|hpipm|osqp|gomp)', first[0]) and 'hpipm_compat' not in first[0]:
            out.append(' | '.join(x.strip() for x in lines[:9]))
    return out
