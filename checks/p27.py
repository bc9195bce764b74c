"""Random formulations (all integrators, algebraic variables, soft constraints, varying dimensions, masked bounds; SQP, DDP, RTI and
feasible QP solvers) are solved or set to extreme iterates (huge, tiny, negative zero, subnormal); every representation (object, JSON text, file,
flat object) is stored, the solver is overwritten with something else, and loading has to restore every value bit by bit.  Objects are
flattened and converted, files may not be overwritten unless asked; iterates with missing or additional stages or entries
of wrong length have to be rejected.  A second solver that loads an iterate continues with the same iterations, and the
stored history of iterates has to equal solves that are cut off after the same number of iterations."""
import copy
import glob
import json
import os
import warnings
import numpy as np
from prob import Prob, make_solver
from vp import Inconclusive

PROPERTY = 'P27'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = []
RULE = 'distinct (representation, integrator, costs, constraint type, soft, x0)'
F = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')
FAM = [('rt', {}, 46), ('z', dict(integrator='IRK', nz=2), 8), ('hist', dict(nonlin=.5), 16), ('one', dict(N=1), 6), ('rev', dict(idxs_rev=True, soft=2), 6), ('cont', dict(integrator='DISCRETE'), 10)]


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 12 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=1300021 * seed + 91 * i + sum(map(ord, nm)), fix=fix, fam=nm))
    return out


def nst(pr, f):
    return pr.N + (f not in ('u', 'z', 'pi'))


def read(pr, s):
    return {f: [s.get(k, f) for k in range(nst(pr, f))] for f in F}


def fill(pr, s, rng, kind):
    """overwrite everything; returns what was written"""
    d = {}
    for f in F:
        d[f] = []
        for k in range(nst(pr, f)):
            n = s.get(k, f).size
            v = rng.normal(size=n)
            if kind == 'extreme':
                v = v * 10. ** rng.integers(-300, 300, n)
                v[rng.random(n) < .1] = -0.
                v[rng.random(n) < .1] = 5e-324
            elif kind == 'int':
                v = rng.integers(-5, 5, n).astype(float)
            if f in ('lam', 'sl', 'su'):
                v = np.abs(v)
            s.set(k, f, v)
            d[f].append(v)
    return d


def same(ob, a, b, key, what):
    for f in F:
        ob.check(len(a[f]) == len(b[f]), key, lambda: '%s: %d entries of %s, expected %d' % (what, len(b[f]), f, len(a[f])))
        for k, (p, q) in enumerate(zip(a[f], b[f])):
            p, q = np.asarray(p), np.asarray(q)
            ob.count('values', p.size)
            ob.check(p.shape == q.shape and p.tobytes() == q.astype(float).tobytes(), key,
                     lambda: '%s: %s at stage %d is %s, stored %s' % (what, f, k, q, p))


def asdict(o):
    return {f: getattr(o, f) for f in F}


def conv(f):
    """call that has to fail"""
    try:
        f()
    except Exception:
        return True
    return False


def run(case, ob):
    warnings.simplefilter('ignore')
    from acados_template import AcadosOcpIterate, AcadosOcpFlattenedIterate
    rng = np.random.default_rng(case['seed'] + 7)
    fam = case['fam']
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    so = ocp.solver_options
    so.nlp_solver_max_iter = int(rng.integers(3, 12))
    so.nlp_solver_type = 'SQP' if fam in ('hist', 'cont') else str(rng.choice(['SQP', 'SQP', 'SQP_RTI']))
    if fam == 'hist':
        so.store_iterates = True
        so.tol = 1e-7
    s = make_solver(ocp)
    tag = pr.tag()
    D = 'it_%s/' % case['id']
    os.makedirs(D, exist_ok=True)
    for q in glob.glob(D + '*.json'):
        os.remove(q)
    if rng.random() < .5 or fam in ('hist', 'cont'):
        s.solve()
    kinds = ['normal', 'extreme', 'int']
    fill(pr, s, rng, 'normal') if rng.random() < .3 and fam not in ('hist', 'cont') else None
    if fam == 'hist':
        history(pr, s, ob)
    if fam == 'cont':
        proceed(case, pr, ocp, s, rng, ob)
    for rep in ('object', 'json', 'file', 'flat', 'file2obj', 'copy'):
        if not (fam in ('hist', 'cont') and rep == 'object'):
            fill(pr, s, rng, kinds[int(rng.integers(3))])
        ref = read(pr, s)
        other = 'normal'
        if rep in ('object', 'copy', 'json'):
            o = s.get_iterate()
            same(ob, ref, asdict(o), rep, 'object')
            if rep == 'json':
                txt = o.to_json()
                o2 = AcadosOcpIterate.from_json(json_data=json.loads(txt))
                same(ob, ref, asdict(o2), rep, 'JSON text')
                with open(D + 'it.json', 'w') as f:
                    f.write(txt)
                same(ob, ref, asdict(AcadosOcpIterate.from_json(D + 'it.json')), rep, 'JSON file')
                fill(pr, s, rng, other)
                s.load_iterate(D + 'it.json', verbose=False)
                same(ob, ref, read(pr, s), rep, 'JSON loaded as file')
                o = o2
            fill(pr, s, rng, other)
            same(ob, ref, asdict(o), rep, 'object after the solver changed')
            s.set_iterate(copy.deepcopy(o) if rep == 'copy' else o)
        elif rep == 'flat':
            fl = s.get_flat_iterate()
            o = s.get_iterate().flatten()
            for f in F:
                w = np.concatenate(ref[f]) if ref[f] else np.zeros(0)
                ob.check(w.tobytes() == np.asarray(getattr(fl, f)).tobytes(), 'flat', lambda: 'flat iterate differs in %s' % f)
                ob.check(w.tobytes() == np.asarray(getattr(o, f), float).tobytes(), 'flat', lambda: 'flattened object differs in %s' % f)
            ob.check(fl.allclose(o), 'flat', 'allclose of equal iterates is False')
            m = max([np.abs(q).max(initial=0) for f in F for q in ref[f]])
            ob.check(fl.inf_norm() == m, 'flat', 'inf_norm %s, expected %s' % (fl.inf_norm(), m))
            with np.errstate(all='ignore'):
                d, e = fl + o, fl - o
            for f in F:
                ob.check(np.array_equal(getattr(d, f), 2 * getattr(fl, f)) and not np.any(getattr(e, f)), 'flat', 'sum or difference of iterates is wrong in %s' % f)
            fill(pr, s, rng, other)
            s.set_iterate(fl if rng.random() < .5 else o)
        else:
            fn = D + 'a_%s.json' % rep
            s.store_iterate(fn, verbose=False)
            with open(fn) as f:
                t0 = f.read()
            fill(pr, s, rng, other)
            n0 = set(glob.glob(D + '*.json'))
            s.store_iterate(fn, overwrite=False, verbose=False)
            with open(fn) as f:
                ob.check(f.read() == t0, 'overwrite', 'the file was overwritten')
            new = set(glob.glob(D + '*.json')) - n0
            ob.check(len(new) == 1, 'overwrite', 'storing to an existing file without overwriting created %s' % new)
            for q in new:
                same(ob, read(pr, s), asdict(AcadosOcpIterate.from_json(q)), 'overwrite', 'file with time stamp')
                os.remove(q)
            if rep == 'file':
                fill(pr, s, rng, other)
                s.load_iterate(fn, verbose=False)
                ref2 = read(pr, s)
                fill(pr, s, rng, other)
                s.store_iterate(fn, overwrite=True, verbose=False)
                now = read(pr, s)
                same(ob, now, asdict(AcadosOcpIterate.from_json(fn)), 'overwrite', 'overwritten file')
                with open(fn, 'w') as f:
                    f.write(t0)
                same(ob, ref, ref2, rep, 'file')
                fill(pr, s, rng, other)
                s.load_iterate(fn, verbose=False)
            else:
                s.set_iterate(AcadosOcpIterate.from_json(fn))
        same(ob, ref, read(pr, s), rep, 'restored from ' + rep)
        ob.state(rep, tag)
    # ------------------------------------------------------------------ iterates of another problem
    base = s.get_iterate()
    ref = read(pr, s)
    for f in F:
        for how in ('more', 'less', 'long', 'short'):
            o = copy.deepcopy(base)
            tr = list(getattr(o, f))
            if how == 'more':
                tr = tr + [np.ones(max(1, tr[-1].size if tr else 1))]
            elif how == 'less':
                if not tr or not tr[-1].size:
                    continue
                tr = tr[:-1]
            else:
                c = [k for k in range(len(tr)) if tr[k].size or how == 'long']
                if not c:
                    continue
                k = int(rng.choice(c))
                tr[k] = np.append(tr[k], 1.) if how == 'long' else tr[k][:-1]
            setattr(o, f, tr)
            ob.count('incompatible iterates')
            ob.check(conv(lambda: s.set_iterate(o)), 'reject', lambda: 'iterate with %s%s accepted' % ({'more': 'an additional stage of ', 'less': 'a missing stage of ', 'long': 'too long ', 'short': 'too short '}[how], f))
            if how in ('long', 'short'):
                ob.check(conv(lambda: s.set_iterate(o.flatten())), 'reject', lambda: 'flat iterate with %s %s accepted' % (how, f))
            s.set_iterate(base)
    same(ob, ref, read(pr, s), 'reject', 'after rejected iterates')
    with open(D + 'a_file.json') as f:
        d = json.load(f)
    key = sorted(d)[-1]
    d['x_' + '9' * len(key.split('_')[1])] = d[sorted(k for k in d if k.startswith('x_'))[0]]
    with open(D + 'bad.json', 'w') as f:
        json.dump(d, f)
    ob.check(conv(lambda: s.load_iterate(D + 'bad.json', verbose=False)), 'reject', 'file with a stage that does not exist accepted')
    ob.check(conv(lambda: s.load_iterate('missing.json', verbose=False)), 'reject', 'missing file accepted')
    kw = {f: getattr(base, f) for f in F}
    kw.pop(str(rng.choice(F)))
    ob.check(conv(lambda: AcadosOcpIterate(**kw)), 'reject', 'iterate object with a missing field accepted')


def history(pr, s, ob):
    n = s.get_stats('nlp_iter')
    its = s.get_iterates()
    ob.check(len(its.iterate_list) == n + 1, 'history', 'number of stored iterates %d, iterations %d' % (len(its.iterate_list), n))
    hist = [asdict(i) for i in its.iterate_list]
    same(ob, read(pr, s), hist[-1], 'history', 'last stored iterate')
    for f in F:
        if len({q.size for q in hist[0][f]}) == 1:
            a = its.as_array(f)
            ob.check(a.shape[:2] == (n + 1, nst(pr, f)) and all(np.array_equal(a[i][k], hist[i][f][k]) for i in range(n + 1) for k in range(nst(pr, f))), 'history', 'as_array differs for %s' % f)
        elif hist[0][f]:
            ob.check(conv(lambda: its.as_array(f)), 'history', 'as_array accepted varying dimensions')
    ob.check(conv(lambda: its.as_array('lamb')), 'history', 'as_array accepted an unknown field')
    ob.check(conv(lambda: s.get_iterate(n + 1)) and conv(lambda: s.get_iterate(-2)), 'history', 'iteration that does not exist accepted')
    # solves with fewer iterations
    first = its.iterate_list[0]
    for m in range(n):
        s.reset()
        s.set_iterate(first)
        s.options_set('max_iter', m)
        s.solve()
        if s.get_stats('nlp_iter') != m:
            ob.count('cut off solves ended earlier')
            continue
        cur = read(pr, s)
        ob.count('history entries')
        for f in F:
            if f == 'z':
                continue
            for k in range(nst(pr, f)):
                p, q = hist[m][f][k], cur[f][k]
                sc = 1 + np.abs(p).max(initial=0)
                if p.size and not np.all(np.isfinite(p)):
                    continue
                ob.check(not p.size or np.abs(p - q).max() <= 1e-7 * sc, 'history', lambda: '%s at stage %d of iterate %d is %s, a solve with %d iterations gives %s' % (f, k, m, p, m, q))
        ob.state('history', pr.tag())
    s.options_set('max_iter', int(s.ocp.solver_options.nlp_solver_max_iter))


def proceed(case, pr, ocp, s, rng, ob):
    s2 = make_solver(ocp, build=False, generate=False, check_reuse_possible=False)
    s.reset()
    pr.set_iterate(s, pr.random_iterate(rng, .2, .2))
    for q in (s, s2):
        q.options_set('max_iter', 1)
        q.options_set('qp_warm_start', 0)
        q.options_set('warm_start_first_qp', 0)
    s.solve()
    if s.status not in (0, 2):
        return
    how = int(rng.integers(3))
    if how == 0:
        s2.set_iterate(s.get_iterate())
    elif how == 1:
        s2.set_iterate(s.get_flat_iterate())
    else:
        s.store_iterate('c_%s.json' % case['id'], overwrite=True, verbose=False)
        s2.load_iterate('c_%s.json' % case['id'], verbose=False)
    for i in range(3):
        a, b = s.solve(), s2.solve()
        ob.check(a == b, 'continue', 'status %d and %d after continuing with a loaded iterate' % (a, b))
        same(ob, read(pr, s), read(pr, s2), 'continue', 'iterate after continuing %d iterations' % (i + 1))
    ob.state('continue', pr.tag())
