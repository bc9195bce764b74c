"""Globalization accepts exactly the steps its rule allows.

Generated problems are solved with every globalization (fixed step lengths, merit backtracking with and without sufficient descent and
second order correction, funnel with random parameters and with the merit function only, both with SQP and SQP_WITH_FEASIBLE_QP, and the
line search of DDP) from random and hostile initial guesses with the iterates stored.  From consecutive iterates and step sizes the monitor
recovers the QP solution; it must solve the reference QP at the iterate (independent linearization).  The monitor then replays the rule:
weights or funnel width, penalty parameter and predicted reductions come from the reference model, the merit function, cost and
infeasibility are evaluated at every trial step size, and the step size of the solver has to be the first one the rule accepts (trials
closer to the decision boundary than rounding may go either way).  Failed line searches have to be reported, step sizes stay within the
bounds, histories must not matter (several solves with one solver), and near a solution the globalized solver must converge to the same
point as the unglobalized one."""
import warnings
import ctypes, os
import numpy as np
from prob import Prob, Obj, make_solver
from p03 import step_kkt, hessian
from p12 import to_obj
from p16 import convex

PROPERTY = 'P13'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['QP solutions are judged where the QP Hessian blocks are positive semidefinite and condensing is not used (see P04, P14).',
               'For the second order correction the corrected QP itself is not judged, only the acceptance of its step.']
RULE = 'distinct (globalization, options, formulation, sequence of step kinds) replayed'
CASE_TIMEOUT = 120
BASE = dict(nz=0, idxs_rev=False)
FREE = dict(x0='fixed', bx=False, bu=False, ng=0, nh=0, nh_0=0, nh_e=0, soft=0, hess='GAUSS_NEWTON', nz=0)
FAM = [('fixed', {}, 10), ('merit', {}, 22), ('armijo', {}, 18), ('soc', {}, 12), ('funnel', {}, 26), ('penalty', {}, 12), ('feas', dict(soft=0, constr='BGH'), 10), ('ddp', FREE, 10), ('near', {}, 14)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 10 * n):
            fx = dict(BASE, **fix)
            if nm not in ('near', 'fixed') and i % 4:
                # strongly nonlinear: full steps fail
                fx.update(nonlin=(2.5, 5.0, 9.0)[i % 4 - 1], integrator=('DISCRETE', 'ERK')[i // 4 % 2])
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=7000003 * seed + 41 * i + 7 * sum(map(ord, nm)), fix=fx, fam=nm))
    return out


def at(pr, it, d=None, a=0.0):
    """cost, dynamics gaps, violations (masked, positive part) per stage at it + a d"""
    n = pr.N + 1
    y = Obj()
    for f in ('x', 'u', 'sl', 'su'):
        setattr(y, f, [getattr(it, f)[k] + (a * getattr(d, f)[k] if a else 0.0) for k in range(n)])
    c, dyn, vio = 0.0, [], []
    with np.errstate(all='ignore'):
        for k in range(n):
            o = pr.stage(k, y.x[k], y.u[k], sl=y.sl[k], su=y.su[k], z=None)
            c += o.l + o.lslack
            if k < pr.N:
                dyn.append(o.xn - y.x[k + 1])
            vio.append(np.maximum(o.fun, 0.0))
    return Obj(cost=c, dyn=dyn, vio=vio, l1=sum(np.sum(np.abs(v)) for v in dyn) + sum(np.sum(v) for v in vio))


def merit(e, w):
    return e.cost + sum(np.sum(np.abs(a) * np.abs(b)) for a, b in zip(w.pi, e.dyn)) + sum(np.sum(np.abs(a) * b) for a, b in zip(w.lam, e.vio))


def direction(pr, a, b, al):
    d = Obj()
    for f in ('x', 'u', 'sl', 'su'):
        setattr(d, f, [(q - p) / al for p, q in zip(getattr(a, f), getattr(b, f))])
    return d


def duals(a, b, al, full):
    if full or al == 1:
        return [np.array(v) for v in b.pi], [np.array(v) for v in b.lam]
    return [p + (q - p) / al for p, q in zip(a.pi, b.pi)], [p + (q - p) / al for p, q in zip(a.lam, b.lam)]


def judge_qp(pr, ob, it, d, pi, lam, opt, lm):
    """the recovered full step solves the reference QP at it"""
    it = Obj(**{f: [np.array(v) for v in getattr(it, f)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')})
    ref, Hs = [], []
    for k in range(pr.N + 1):
        o = pr.stage(k, it.x[k], it.u[k], pi=it.pi[k] if k < pr.N else None, lam=it.lam[k], sl=it.sl[k], su=it.su[k])
        ref.append(o)
        Hs.append(hessian(pr, o, k, opt, lm))
    if any(np.min(np.linalg.eigvalsh(H)) < 1e-9 for H in Hs):
        return False
    new = Obj(pi=pi, lam=lam)
    for f in ('x', 'u', 'sl', 'su'):
        setattr(new, f, [p + q for p, q in zip(getattr(it, f), getattr(d, f))])
    step_kkt(pr, ob, ref, Hs, it, new)
    ob.count('qps')
    return True


def slope(pr, it, d, w):
    """directional derivative of the merit function"""
    g = 0.0
    for k in range(pr.N + 1):
        o = pr.stage(k, it.x[k], it.u[k], sl=it.sl[k], su=it.su[k])
        s = pr.st[k]
        dz = np.concatenate([d.u[k], d.x[k]])
        g += o.g @ dz + o.gsl @ d.sl[k] + o.gsu @ d.su[k]
        if k < pr.N:
            e = o.xn - it.x[k + 1]
            de = o.B @ d.u[k] + o.A @ d.x[k] - d.x[k + 1]
            if np.any((np.abs(e) < 1e-12) & (np.abs(w.pi[k] * de) > 1e-12)):
                return None   # derivative depends on rounding
            g += np.sum(w.pi[k] * np.sign(e) * de)
        ni = s.ni
        J = o.J @ dz
        dl, du = -J, J.copy()
        for i in range(ni):
            if s.rev[i] >= 0:
                dl[i] -= d.sl[k][s.rev[i]]
                du[i] -= d.su[k][s.rev[i]]
        df = np.concatenate([dl, du, np.zeros(2 * s.ns)])   # slack bounds are not part of the rule
        f = o.fun
        if np.any((np.abs(f[:2 * ni]) < 1e-12) & (o.mask[:2 * ni] > 0) & (np.abs(w.lam[k] * df)[:2 * ni] > 1e-12)):
            return None
        g += np.sum((f > 0) * w.lam[k] * df)
    return g


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * (1 + abs(scale))


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 13)
    fam = case['fam']
    globals()['f_near' if fam == 'near' else 'f_ddp' if fam == 'ddp' else 'f_trace'](case, ob, rng, fam)


def options(so, rng, fam):
    p = Obj(full=int(fam in ('funnel', 'penalty', 'feas')))   # default of the options
    if fam == 'fixed':
        so.globalization = 'FIXED_STEP'
        so.globalization_fixed_step_length = p.step = float(rng.choice([1.0, rng.uniform(0.1, 1)]))
    elif fam in ('merit', 'armijo', 'soc', 'ddp'):
        so.globalization = 'MERIT_BACKTRACKING'
    else:
        so.globalization = 'FUNNEL_L1PEN_LINESEARCH'
    if fam == 'armijo' or fam == 'soc' and rng.random() < .5:
        so.globalization_line_search_use_sufficient_descent = 1
    if fam == 'soc':
        so.globalization_use_SOC = 1
    p.descent = so.globalization_line_search_use_sufficient_descent
    if rng.random() < .6:
        so.globalization_alpha_min = float(10 ** rng.uniform(-3, -0.5))
    if rng.random() < .6:
        so.globalization_alpha_reduction = float(rng.uniform(.3, .9))
    if rng.random() < .6:
        so.globalization_eps_sufficient_descent = float(10 ** rng.uniform(-4, -0.6) if rng.random() < .4 else rng.uniform(.3, .95))
    if rng.random() < .4:
        so.globalization_full_step_dual = p.full = int(rng.integers(2))
    if so.globalization.startswith('FUNNEL'):
        so.globalization_funnel_init_increase_factor = float(rng.uniform(1.01, 5))
        so.globalization_funnel_init_upper_bound = float(10 ** rng.uniform(-2, .5))
        so.globalization_funnel_sufficient_decrease_factor = float(rng.uniform(.5, .99))
        so.globalization_funnel_kappa = float(rng.uniform(.3, .95))
        so.globalization_funnel_fraction_switching_condition = float(10 ** rng.uniform(-4, 0))
        if rng.random() < .35:
            # provoke the penalty phase: tight funnel, strong decrease required, objective steps rare
            so.globalization_funnel_init_increase_factor, so.globalization_funnel_init_upper_bound = 1.05, 1e-3
            so.globalization_funnel_sufficient_decrease_factor, so.globalization_funnel_fraction_switching_condition = float(rng.uniform(.02, .3)), float(rng.uniform(.5, .99))
        so.globalization_funnel_initial_penalty_parameter = float(rng.choice([1.0, rng.uniform(0, 1)]))
        so.globalization_funnel_use_merit_fun_only = fam == 'penalty'
    return p


def f_trace(case, ob, rng, fam):
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'SQP' if fam != 'feas' else 'SQP_WITH_FEASIBLE_QP'
    p = options(so, rng, fam)
    so.nlp_solver_max_iter = int(rng.integers(2, 14))
    so.eval_residual_at_max_iter = True
    so.store_iterates = True
    so.qp_tol = 1e-10
    so.qp_solver_iter_max = 200
    so.qp_solver_cond_N = pr.N
    so.nlp_solver_tol_stat = so.nlp_solver_tol_eq = so.nlp_solver_tol_ineq = so.nlp_solver_tol_comp = 1e-5
    opt = dict(exact=pr.f_hess == 'EXACT', cost=1, dyn=1, constr=1)
    if opt['exact'] and rng.random() < .6:
        so.regularize_method = 'MIRROR'
    reg = so.regularize_method != 'NO_REGULARIZE'
    s = make_solver(ocp)
    for rep in range(3):
        it0 = pr.random_iterate(rng, float(rng.choice([0.2, 0.8, 2.0])), 0.3)
        pr.set_iterate(s, it0)
        if fam in ('funnel', 'penalty'):
            s.options_set('print_level', 1)
            st, so_rows = printed(s.solve)
            p.rows = so_rows
        else:
            st = s.solve()
        T = '%s %s %s' % (so.nlp_solver_type, so.globalization, pr.tag())
        S = s.get_stats('statistics')
        n = s.get_stats('nlp_iter')
        its = [to_obj(pr, i) for i in s.get_iterates().iterate_list]
        steps = len(its) - 1 if st != 4 else n - 1
        if st in (4,) and steps < 1:
            ob.count('qp_failures')
            s.reset()
            repair(pr, s)
            continue
        al = S[7 if fam != 'feas' else 11]
        if rep == 2 and st in (0, 2, 3):
            ob.close(s.get_cost(), pr.cost(its[-1]), 1e-8, 'cost', 'cost: ' + T)
        if fam == 'feas':
            feas(pr, ob, so, its, al, n, st, T)
        else:
            kinds = replay(pr, ob, so, s, its, al, S, n, st, opt, reg, p, fam, T)
            ob.state(fam, so.regularize_method, p.full, pr.tag(), kinds)
            for c in kinds:
                ob.count('step_%s_%s' % (fam, c))
        ob.count('status_%d' % st)
        if st in (1, 4):
            s.reset()
            repair(pr, s)


def printed(solve):
    """solve and return the columns of the iteration table by name, as far as it was understood"""
    libc = ctypes.CDLL(None)
    libc.fflush(None)
    name = os.path.realpath('/proc/self/fd/1')
    a = os.path.getsize(name) if os.path.isfile(name) else 0
    st = solve()
    libc.fflush(None)
    rows, head = {}, None
    if os.path.isfile(name):
        with open(name, errors='replace') as f:
            f.seek(a)
            for l in f.read().split('\n'):
                t = l.split()
                if 'funnel_w' in t:
                    head = [q for q in t if q != '#']
                elif head and len(t) == len(head) and t[0].isdigit():
                    try:
                        rows[int(t[0])] = {h: float(v) for h, v in zip(head, t) if h != 'it_type'}
                    except ValueError:
                        pass
    return st, rows


def repair(pr, s):
    if pr.np:
        s.set_flat('p', np.concatenate([q.p for q in pr.st]))
    if pr.npg:
        s.set_p_global_and_precompute_dependencies(pr.pgval)


def finite(it):
    return all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < 1e4 for f in ('x', 'u', 'sl', 'su') for v in getattr(it, f))


def replay(pr, ob, so, s, its, al, S, n, st, opt, reg, p, fam, T):
    w = None
    kinds = ''
    fun = None
    amin, r = so.globalization_alpha_min, so.globalization_alpha_reduction
    eps = so.globalization_eps_sufficient_descent
    done = len(its) - 1
    for i in range(done):
        a, b = its[i], its[i + 1]
        if S[5, i + 1] != 0 or not finite(a) or not finite(b):
            return kinds + '!'      # inexact QP solution: the trace is judged up to here
        alpha = al[i + 1]
        if fam == 'fixed':
            ob.check(alpha == p.step, 'step_length', lambda: 'step size %g instead of %g: %s' % (alpha, p.step, T))
            d, (pi, lam) = direction(pr, a, b, alpha), duals(a, b, alpha, p.full)
            if not reg:
                judge_qp(pr, ob, a, d, pi, lam, opt, 0.0)
            continue
        ob.check(0 < alpha <= 1, 'alpha', lambda: 'step size %g: %s' % (alpha, T))
        m = np.log(alpha) / np.log(r)
        ob.check(abs(m - round(m)) < 1e-9 * (1 + m), 'alpha', lambda: 'step size %.12g is not a power of %.12g: %s' % (alpha, r, T))
        ob.check(alpha >= amin * (1 - 1e-12), 'alpha_min', lambda: 'step size %g below the minimum %g: %s' % (alpha, amin, T))
        d, (pi, lam) = direction(pr, a, b, alpha), duals(a, b, alpha, p.full)
        if alpha < 1e-3:
            return kinds + '~'      # direction not recoverable to sufficient precision
        if not reg and fam != 'soc':
            judge_qp(pr, ob, a, d, pi, lam, opt, 0.0)
        e0 = at(pr, a)
        if fam in ('merit', 'armijo', 'soc'):
            if w is None:
                w = Obj(pi=[np.abs(v) for v in pi], lam=[v.copy() for v in lam])
            else:
                w = Obj(pi=[np.maximum(np.abs(v), .5 * (np.abs(v) + q)) for v, q in zip(pi, w.pi)], lam=[np.maximum(v, .5 * (v + q)) for v, q in zip(lam, w.lam)])
            m0 = merit(e0, w)
            g = slope(pr, a, d, w) if p.descent else 0.0
            if g is None:
                kinds += '?'
                continue
            g = min(g, 0.0)
            t, sure = 1.0, True
            while t * r > amin:
                e1 = at(pr, a, d, t)
                m1, lim = merit(e1, w), m0 + eps * t * g
                ok = np.isfinite(m1) and m1 < lim
                unsure = np.isfinite(m1) and abs(m1 - lim) <= 1e-7 * (1 + abs(m0))
                if fam == 'soc' and t == 1 and m1 < m0 + 1e-7 * (1 + abs(m0)):
                    unsure = unsure or not ok     # the preliminary test of the full step does not use the slope
                ob.count('trials')
                if near(t, alpha, 1):
                    ob.check(ok or unsure, 'accept', lambda: 'step size %g of iteration %d accepted, merit %.10g -> %.10g, limit %.10g: %s' % (alpha, i, m0, m1, lim, T))
                    kinds += '1' if t == 1 else 'a'
                    break
                ob.check(not ok or unsure, 'reject', lambda: 'step size %g of iteration %d rejected (%g taken), merit %.10g -> %.10g, limit %.10g: %s' % (t, i, alpha, m0, m1, lim, T))
                t *= r
            else:
                ob.check(near(t, alpha, 1), 'last', lambda: 'no step size acceptable, %g instead of %g taken: %s' % (alpha, t, T))
                kinds += 'm'
        else:
            if fun is None:
                fun = Obj(width=max(so.globalization_funnel_init_upper_bound, so.globalization_funnel_init_increase_factor * e0.l1), pen=so.globalization_funnel_initial_penalty_parameter,
                          mode=so.globalization_funnel_use_merit_fun_only)
            k = funnel(pr, ob, so, fun, a, d, alpha, e0, i, T)
            kinds += k
            if k == '?':
                return kinds
            if i + 1 in p.rows:
                ob.count('printed_rows')
                for name, v in (('funnel_w', fun.width), ('penalty', fun.pen)):
                    ob.close(p.rows[i + 1][name], v, 2e-4 * (1e-4 + abs(v)) / (1 + abs(v)), name, '%s after iteration %d (%s): %s' % (name, i, kinds, T))
        ob.count('steps')
    if st == 3 and fam in ('funnel', 'penalty') and not opt['exact'] and finite(its[-1]):
        # the failure must be justified: full step from an unglobalized solver, no step size may be acceptable
        a = its[-1]
        o2 = pr.make_ocp()
        q = o2.solver_options
        q.nlp_solver_type, q.nlp_solver_max_iter, q.store_iterates, q.qp_tol, q.qp_solver_iter_max, q.qp_solver_cond_N = 'SQP', 1, True, 1e-10, 200, pr.N
        q.levenberg_marquardt = so.levenberg_marquardt
        h = make_solver(o2)
        pr.set_iterate(h, a)
        if h.solve() == 2 and h.get_stats('statistics')[5, 1] == 0:
            d = direction(pr, a, to_obj(pr, h.get_iterates().iterate_list[1]), 1.0)
            if fun is None:
                fun = Obj(width=max(so.globalization_funnel_init_upper_bound, so.globalization_funnel_init_increase_factor * at(pr, a).l1), pen=so.globalization_funnel_initial_penalty_parameter,
                          mode=so.globalization_funnel_use_merit_fun_only)
            kinds += funnel(pr, ob, so, fun, a, d, 0.0, at(pr, a), done, T)
            ob.count('failed_line_searches')
    return kinds


def pred_cost(pr, it, d):
    g = 0.0
    for k in range(pr.N + 1):
        o = pr.stage(k, it.x[k], it.u[k], sl=it.sl[k], su=it.su[k])
        g += o.g @ np.concatenate([d.u[k], d.x[k]]) + o.gsl @ d.sl[k] + o.gsu @ d.su[k]
    return -g


def funnel(pr, ob, so, F, a, d, alpha, e0, i, T):
    G = lambda n: getattr(so, 'globalization_' + n)
    po, pin, eta = pred_cost(pr, a, d), e0.l1, 1e-6
    q = 0.0 if -1e-4 < po < 0 else po
    sens = 1e-7 * (1 + abs(e0.cost) + e0.l1)
    if abs(po) < sens or abs(po + 1e-4) < sens:
        q_alt = True
    else:
        q_alt = False
    lhs, rhs = F.pen * q + pin, eta * pin
    if abs(lhs - rhs) < sens and not (pin == 0 and q >= 0):
        return '?'
    if lhs < rhs:
        F.pen = max(0.0, min(G('funnel_penalty_contraction') if hasattr(so, 'globalization_funnel_penalty_contraction') and False else .5 * F.pen, (1 - eta) * pin / (-q + 1e-9)))
    if q_alt and lhs < rhs:
        return '?'
    m0 = F.pen * e0.cost + e0.l1
    t, eps, r, amin = 1.0, G('eps_sufficient_descent'), G('alpha_reduction'), G('alpha_min')
    while t > max(alpha * 1e-3, 0 if alpha else amin * (1 + 1e-9)):
        e1 = at(pr, a, d, t)
        ob.count('trials')
        unsure = False

        def dec(v):
            """decision v >= 0"""
            nonlocal unsure
            if abs(v) <= sens:
                unsure = True
            return v >= 0
        armijo = lambda red, pred: dec(red - eps * t * max(0.0, pred - 1e-9))
        kind = None
        nw, nmode = F.width, F.mode
        if np.isfinite(e1.l1) and np.isfinite(e1.cost) and (G('funnel_use_merit_fun_only') or dec(F.width - e1.l1)):
            mp = F.pen * po + pin
            m1 = F.pen * e1.cost + e1.l1
            if G('funnel_use_merit_fun_only') or F.mode:
                if armijo(m0 - m1, mp):
                    kind = 'p'
                    if dec(G('funnel_sufficient_decrease_factor') * F.width - e1.l1):
                        nw = (1 - G('funnel_kappa')) * e1.l1 + G('funnel_kappa') * F.width
                        nmode = False
            elif dec(t * po - G('funnel_fraction_switching_condition') * pin):
                if armijo(e0.cost - e1.cost, po):
                    kind = 'f'
            elif dec(G('funnel_sufficient_decrease_factor') * F.width - e1.l1):
                kind = 'h'
                nw = (1 - G('funnel_kappa')) * e1.l1 + G('funnel_kappa') * F.width
            elif dec(e0.l1 - e1.l1) and armijo(m0 - m1, mp):
                kind = 'b'
                nmode = True
        if near(t, alpha, 1):
            ob.check(kind is not None or unsure, 'accept', lambda: 'step size %g of iteration %d is not acceptable: cost %.8g -> %.8g, infeasibility %.8g -> %.8g, funnel %.8g, penalty %.8g, mode %s: %s' % (
                alpha, i, e0.cost, e1.cost, e0.l1, e1.l1, F.width, F.pen, F.mode, T))
            if unsure or kind is None:
                return '?'
            F.width, F.mode = nw, nmode
            return kind.upper() if t == 1 else kind
        ob.check(kind is None or unsure, 'reject', lambda: 'step size %g of iteration %d (%s) rejected, %g taken: cost %.8g -> %.8g, infeasibility %.8g -> %.8g, funnel %.8g, penalty %.8g, mode %s: %s' % (
            t, i, kind, alpha, e0.cost, e1.cost, e0.l1, e1.l1, F.width, F.pen, F.mode, T))
        t *= r
    return '?'


def feas(pr, ob, so, its, al, n, st, T):
    """bounds which hold whatever search direction was used"""
    r, amin = so.globalization_alpha_reduction, so.globalization_alpha_min
    e = at(pr, its[0])
    width = max(so.globalization_funnel_init_upper_bound, so.globalization_funnel_init_increase_factor * e.l1)
    for i in range(1, len(its)):
        if not finite(its[i]):
            return
        e = at(pr, its[i])
        ob.check(e.l1 <= width * (1 + 1e-7) + 1e-7, 'funnel_width', lambda: 'infeasibility %g outside of the initial funnel %g: %s' % (e.l1, width, T))
        if i < len(al) and al[i] != 0:
            m = np.log(al[i]) / np.log(r)
            ob.check(0 < al[i] <= 1 and abs(m - round(m)) < 1e-9 * (1 + m) and al[i] >= amin * (1 - 1e-12), 'alpha', lambda: 'step size %g: %s' % (al[i], T))
        ob.count('steps')
    ob.state('feas', st, pr.tag())


def f_ddp(case, ob, rng, fam):
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_type = 'DDP'
    so.globalization = 'MERIT_BACKTRACKING'
    if rng.random() < .5:
        so.with_adaptive_levenberg_marquardt = True
    so.nlp_solver_max_iter = 12
    so.eval_residual_at_max_iter = True
    so.store_iterates = True
    s = make_solver(ocp)
    for rep in range(3):
        pr.set_iterate(s, pr.random_iterate(rng, float(rng.choice([.2, 1])), .1))
        st = s.solve()
        T = 'DDP %s' % pr.tag()
        its = [to_obj(pr, i) for i in s.get_iterates().iterate_list]
        ev = [at(pr, i) for i in its if finite(i)]
        for i in range(1, len(ev)):
            scale = 1 + max(np.max(np.abs(v)) for v in its[i].x)
            ob.check(max(np.max(np.abs(v)) for v in ev[i].dyn) <= 1e-9 * scale if pr.f['integrator'] != 'IRK' else ev[i].l1 < 1e-5 * scale, 'ddp_feasible',
                     lambda: 'iterate %d of DDP is not dynamically feasible (%g): %s' % (i, max(np.max(np.abs(v)) for v in ev[i].dyn), T))
            ob.check(np.max(np.abs(its[i].x[0] - pr.st[0].lbx)) < 1e-6, 'ddp_x0', lambda: 'iterate %d of DDP does not start at x0: %s' % (i, T))
            if i > 1 or max(ev[0].l1, 0) < 1e-9:
                ob.check(ev[i].cost <= ev[i - 1].cost + 1e-8 * (1 + abs(ev[i - 1].cost)), 'ddp_descent', lambda: 'cost increased from %.10g to %.10g in iteration %d: %s' % (ev[i - 1].cost, ev[i].cost, i, T))
            ob.count('steps')
        ob.state('ddp', st, len(its), pr.tag())
        if st in (1, 4):
            s.reset()
            repair(pr, s)


def f_near(case, ob, rng, fam):
    pr = Prob(case['seed'], **dict(case['fix'], hess='GAUSS_NEWTON'))
    glob = str(rng.choice(['MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))

    def build(g):
        ocp = pr.make_ocp()
        so = ocp.solver_options
        so.globalization = g
        so.nlp_solver_max_iter = 60
        so.qp_tol = 1e-9
        so.nlp_solver_tol_stat = so.nlp_solver_tol_eq = so.nlp_solver_tol_ineq = so.nlp_solver_tol_comp = 1e-6
        so.store_iterates = True
        so.eval_residual_at_max_iter = True
        return make_solver(ocp)
    ref = build('FIXED_STEP')
    s = build(glob)
    T = 'near the solution, %s %s' % (glob, pr.tag())
    for rep in range(3):
        it = pr.random_iterate(rng, 0.2, 0.1)
        pr.set_iterate(ref, it)
        if ref.solve() != 0:
            ob.count('unconverged')
            ref.reset()
            repair(pr, ref)
            continue
        sol = pr.get_iterate(ref)
        n0 = ref.get_stats('nlp_iter')
        # start at the last but two iterates: full steps contract from here
        start = to_obj(pr, ref.get_iterates().iterate_list[max(n0 - 2, 0)])
        pr.set_iterate(s, start)
        st = s.solve()
        got = pr.get_iterate(s)
        ob.check(st == 0, 'near', lambda: 'status %d from the last but two iterates of a convergent run (%s): %s' % (st, s.get_residuals(), T))
        if st == 0 and np.all(s.get_stats('alpha')[1:] == 1):
            for f in ('x', 'u'):
                ob.close(np.concatenate(getattr(got, f)), np.concatenate(getattr(sol, f)), 1e-5, 'near_sol', 'solution with full steps, %s: %s' % (f, T))
        ob.count('near')
        ob.state('near', glob, st, s.get_stats('nlp_iter'), pr.tag())
