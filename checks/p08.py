"""A shadow store holds what every readable field of every stage must contain. A long random history
of writes through all access paths (set, cost_set, constraints_set, flat vectors, iterate objects,
sparse parameters, p_global) with many array layouts (reversed, strided, transposed, Fortran, integer,
float32, scalars) is applied; invalid writes (wrong name, stage, type, shape, index) are mixed in and
have to raise. After every single operation ALL fields of ALL stages are read back through the getters
and compared bit for bit with the shadow store, so any lost, shifted, aliased or misdirected write is
seen at the operation that caused it. Solves are interleaved: data fields must survive them."""
import numpy as np
import warnings
from prob import Prob, make_solver, INF

PROPERTY = 'P08'
VARIANT = 'plain'
LEVEL = 'exploration'
ASSUMPTIONS = ['multipliers of masked (infinite) bounds read as zero: documented behaviour of the mask']
RULE = 'distinct (operation kind, field, stage position) applied and followed by a complete comparison'
BIG = 1e10

FAM = [('gen', {}, 40), ('z', dict(integrator='IRK', nz=2), 6), ('pg', dict(npg=2), 10), ('bgp', dict(constr='BGP', nh=2), 6), ('rev', dict(idxs_rev=True, soft=2), 6)]
OUT = ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su')


def cases(tier, seed):
    out = []
    for nm, fix, n in FAM:
        for i in range(n if tier == 'quick' else 12 * n):
            out.append(dict(id='%s%d_%d' % (nm, seed, i), seed=8000009 * seed + 29 * i + 3 * ord(nm[0]), fix=fix, ops=60 if tier == 'quick' else 200))
    return out


def layout(rng, v):
    """the same values in another memory layout/type"""
    v = np.asarray(v, float)
    if v.ndim == 1:
        c = int(rng.integers(7))
        if c == 0:
            return v[::-1].copy()[::-1]
        if c == 1:
            w = np.full(2 * v.size, 7.7)
            w[::2] = v
            return w[::2]
        if c == 2:
            w = np.full((v.size, 3), -3.3)
            w[:, 1] = v
            return w[:, 1]
        if c == 3 and v.size == 1:
            return float(v[0])
        if c == 4 and np.all(v == v.astype(np.float32)):
            return v.astype(np.float32)
        if c == 5 and np.all(v == np.round(v)) and np.all(abs(v) < 1e6):
            return v.astype(int)
        return v.copy()
    c = int(rng.integers(4))
    if c == 0:
        return np.asfortranarray(v)
    if c == 1:
        return np.ascontiguousarray(v.T).T
    if c == 2:
        w = np.full((2 * v.shape[0], v.shape[1] + 1), 9.9)
        w[::2, :-1] = v
        return w[::2, :-1]
    return np.ascontiguousarray(v)


def values(rng, n):
    c = int(rng.integers(5))
    if c == 0:
        return rng.integers(-9, 9, n).astype(float)
    if c == 1:
        return np.round(rng.normal(size=n) * 8) / 8
    return rng.normal(size=n) * 10.0 ** rng.integers(-3, 3)


class Store:
    def __init__(self, pr, s):
        self.pr, self.s = pr, s
        N = pr.N
        self.d = {}
        self.fields = []
        for k in range(N + 1):
            st = pr.st[k]
            kd = pr.kind(k)
            ct = pr.ck[kd].type
            for f in OUT:
                if f == 'pi' and k == N or (f in ('u', 'z') and k == N):
                    continue
                self.fields.append((k, f, 'get'))
            for f in ('sens_x', 'sens_u'):
                self.fields.append((k, f, 'get'))
            self.fields.append((k, 'p', 'get'))
            cf = ['scaling', 'zl', 'zu', 'Zl', 'Zu']
            if ct == 'EXTERNAL':
                cf.append('ext_cost_num_hess')
            else:
                cf.append('yref')
                if ct != 'CONVEX_OVER_NONLINEAR':
                    cf.append('W')
                if ct == 'LINEAR_LS':
                    cf += ['Vx'] + (['Vu'] if k < N else []) + (['Vz'] if st.nz else [])
            self.fields += [(k, f, 'cost') for f in cf]
            hf = ['lbx', 'ubx', 'lg', 'ug', 'C', 'D'] + (['lbu', 'ubu'] if k < N else [])
            if pr.hk[kd].phi and st.nh:
                hf += ['uphi']
            elif not pr.hk[kd].phi:
                hf += ['lh', 'uh']
            self.fields += [(k, f, 'con') for f in hf]
        for e in self.fields:
            self.d[e] = self.read(e)

    def read(self, e):
        k, f, how = e
        s = self.s
        return np.array(s.get(k, f) if how == 'get' else s.cost_get(k, f) if how == 'cost' else s.constraints_get(k, f))

    def mask(self, k):
        st = self.pr.st[k]
        kd = self.pr.kind(k)
        m = []
        for lo in (True, False):
            for f, n in (('bu', st.nbu), ('bx', st.nbx), ('g', st.ng)):
                if n:
                    v = self.d[(k, ('l' if lo else 'u') + f, 'con')]
                    m += list((v > -BIG) if lo else (v < BIG))
            if st.nh:
                if self.pr.hk[kd].phi:
                    m += [False] * st.nh if lo else list(self.d[(k, 'uphi', 'con')] < BIG)
                else:
                    v = self.d[(k, ('l' if lo else 'u') + 'h', 'con')]
                    m += list((v > -BIG) if lo else (v < BIG))
        m += list(st.lls > -BIG) + list(st.lus > -BIG)
        return np.array(m, float)

    def put(self, e, v):
        k, f, how = e
        old = self.d[e]
        self.d[e] = np.array(v, float).reshape(old.shape)
        if how == 'con' and f not in ('C', 'D') or f == 'lam':
            self.d[(k, 'lam', 'get')] = self.d[(k, 'lam', 'get')] * self.mask(k) + 0.0

    def compare(self, ob, what):
        bad = []
        for e in self.fields:
            got, want = self.read(e), self.d[e]
            if got.shape != want.shape or not np.array_equal(got, want):
                bad.append('stage %d %s: got %s, expected %s' % (e[0], e[1], got.ravel()[:4], want.ravel()[:4]))
        for f in OUT + ('p',):
            want = np.concatenate([self.d[(k, f, 'get')] for k in range(self.pr.N + 1) if (k, f, 'get') in self.d])
            got = self.s.get_flat(f)
            if not np.array_equal(got, want):
                bad.append('flat %s: got %s, expected %s' % (f, got[:6], want[:6]))
        ob.check(not bad, 'readback', lambda: 'after %s: %s' % (what, '; '.join(bad[:3])))
        ob.count('fields_compared', len(self.fields) + 8)
        if bad:   # report once, go on from what is there
            for e in self.fields:
                self.d[e] = self.read(e)
        return not bad


def run(case, ob):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'] + 3)
    pr = Prob(case['seed'], **case['fix'])
    ocp = pr.make_ocp()
    ocp.solver_options.nlp_solver_type = 'SQP_RTI'
    s = make_solver(ocp, save_p_global=bool(pr.npg))
    N = pr.N
    S = Store(pr, s)
    S.compare(ob, 'creation')
    pg = pr.pgval.copy()
    from acados_template import AcadosOcpIterate, AcadosOcpFlattenedIterate
    for step in range(case['ops']):
        c = rng.choice(['one', 'flat', 'iterate', 'flatit', 'sparse', 'pglobal', 'bad', 'solve'], p=[.5, .1, .04, .04, .09, .05, .16, .02])
        if c == 'one':
            e = S.fields[int(rng.integers(len(S.fields)))]
            k, f, how = e
            shp = S.d[e].shape
            n = int(np.prod(shp))
            v = values(rng, n).reshape(shp)
            if how == 'con' and f[0] in 'lu' and f != 'uphi' and n and rng.random() < 0.2:
                v[rng.integers(n)] = -BIG if f[0] == 'l' else BIG
            if f in ('scaling', 'Zl', 'Zu'):
                v = abs(v) + 0.01
            a = layout(rng, v.copy())
            try:
                if how == 'get':
                    s.set(k, f, a)
                elif how == 'cost':
                    if f == 'yref' and rng.random() < 0.5:
                        s.set(k, f, a)
                    elif v.ndim == 2:
                        s.cost_set(k, f, a, api='new')
                    else:
                        s.cost_set(k, f, a)
                elif v.ndim == 2:
                    s.constraints_set(k, f, a, api='new')
                elif f in ('lbx', 'ubx', 'lbu', 'ubu') and rng.random() < 0.5:
                    s.set(k, f, a)
                else:
                    s.constraints_set(k, f, a)
            except Exception as ex:
                ob.violation('refused', 'setting %s of stage %d (shape %s) raised %s: %s' % (f, k, shp, type(ex).__name__, str(ex)[:200]))
                continue
            if isinstance(a, np.ndarray):
                try:
                    a[...] = 77   # the caller may reuse its buffer
                except ValueError:
                    pass
            S.put(e, v)
            what = 'setting %s of stage %d of %d' % (f, k, N)
            ob.state('one', f, 0 if k == 0 else (2 if k == N else 1))
        elif c == 'flat':
            f = str(rng.choice(OUT + ('p',)))
            ks = [k for k in range(N + 1) if (k, f, 'get') in S.d]
            v = values(rng, sum(S.d[(k, f, 'get')].size for k in ks))
            s.set_flat(f, np.asarray(layout(rng, v)).reshape(-1))
            o = 0
            for k in ks:
                n = S.d[(k, f, 'get')].size
                S.put((k, f, 'get'), v[o:o + n])
                o += n
            what = 'set_flat ' + f
            ob.state('flat', f)
        elif c in ('iterate', 'flatit'):
            tr = {f: [values(rng, S.d[(k, f, 'get')].size) for k in range(N + 1) if (k, f, 'get') in S.d] for f in OUT}
            if c == 'iterate':
                s.set_iterate(AcadosOcpIterate(**tr))
            else:
                s.set_iterate(AcadosOcpFlattenedIterate(**{f: np.concatenate(tr[f]) for f in OUT}))
            for f in OUT:
                for k, v in enumerate(tr[f]):
                    S.put((k, f, 'get'), v)
            g = s.get_iterate()
            h = s.get_flat_iterate()
            for f in OUT:
                ok = all(np.array_equal(a, S.d[(k, f, 'get')]) for k, a in enumerate(getattr(g, f))) and len(getattr(g, f)) == len(tr[f])
                ob.check(ok and np.array_equal(getattr(h, f), np.concatenate(getattr(g, f))), 'iterate', 'get_iterate/get_flat_iterate %s differ from what was set' % f)
            what = 'set_iterate'
            ob.state(c)
        elif c == 'sparse':
            k = int(rng.integers(N + 1))
            if not pr.np:
                continue
            m = int(rng.integers(0, pr.np + 1))
            idx = rng.permutation(pr.np)[:m]
            v = values(rng, m)
            i2 = [idx.astype(np.int32), idx.astype(np.int64), [int(i) for i in idx], tuple(idx)][int(rng.integers(4))]
            if isinstance(i2, np.ndarray) and rng.random() < 0.3:
                i2 = i2[::-1][::-1] if rng.random() < 0.5 else np.repeat(i2, 2)[::2]
            s.set_params_sparse(k, i2, v.copy())
            w = S.d[(k, 'p', 'get')].copy()
            w[idx] = v
            S.put((k, 'p', 'get'), w)
            what = 'set_params_sparse stage %d idx %s' % (k, idx)
            ob.state('sparse', m)
        elif c == 'pglobal':
            if not pr.npg:
                continue
            pg = values(rng, pr.npg)
            a = layout(rng, pg.copy())
            a = np.asarray(a, float).reshape(-1)
            s.set_p_global_and_precompute_dependencies(a)
            a[...] = 5.5
            ob.check(np.array_equal(s.get_flat('p_global'), pg), 'p_global', lambda: 'p_global reads %s after setting %s' % (s.get_flat('p_global'), pg))
            g = s.get_flat('p_global')
            g[...] = 6.5
            ob.check(np.array_equal(s.get_flat('p_global'), pg), 'p_global', lambda: 'writing into the returned p_global changes the stored one')
            s.set_p_global_and_precompute_dependencies(pg.copy())
            what = 'set p_global'
            ob.state('p_global')
        elif c == 'bad':
            what = bad(rng, pr, s, S, ob)
        else:
            s.solve()
            for e in S.fields:
                if e[1] in OUT:
                    S.d[e] = S.read(e)
            what = 'solve'
        S.compare(ob, what)
        ob.count('operations')


def bad(rng, pr, s, S, ob):
    N = pr.N
    k = int(rng.integers(N + 1))
    nx = pr.nx
    x = np.ones(nx)
    c = int(rng.integers(17))
    n_lam = S.d[(k, 'lam', 'get')].size
    f1 = str(rng.choice(OUT + ('p',)))
    tot = s.get_flat(f1).size
    W = [e for e in S.fields if e[1] in ('W', 'C', 'D', 'Vx') and S.d[e].size > 1]
    w = W[int(rng.integers(len(W)))] if W else None
    ops = [
        ('set at stage N+1', lambda: s.set(N + 1, 'x', x)),
        ('set at stage -1', lambda: s.set(-1, 'x', x)),
        ('set at stage 0.0', lambda: s.set(0.0, 'x', x)),
        ('set of an unknown field', lambda: s.set(k, 'xx', x)),
        ('set x with one value too many', lambda: s.set(k, 'x', np.ones(nx + 1))),
        ('set x with one value missing', lambda: s.set(k, 'x', np.ones(nx - 1))),
        ('set lam with one value too many', lambda: s.set(k, 'lam', np.ones(n_lam + 1))),
        ('set p with one value too many', lambda: s.set(k, 'p', np.ones(pr.np + 1))),
        ('set x with an array of shape (nx, 2)', lambda: s.set(k, 'x', np.arange(2.0 * nx).reshape(nx, 2))),
        ('set_flat %s with one value too many' % f1, lambda: s.set_flat(f1, np.ones(tot + 1))),
        ('set_flat of an unknown field', lambda: s.set_flat('yy', np.ones(3))),
        ('set_params_sparse with index np', lambda: s.set_params_sparse(k, np.array([pr.np]), np.array([1.0]))),
        ('set_params_sparse with a negative index', lambda: s.set_params_sparse(k, np.array([-1]), np.array([1.0]))),
        ('set_params_sparse with different lengths', lambda: s.set_params_sparse(k, np.array([0]), np.array([1.0, 2.0]))),
        ('get at stage N+1', lambda: s.get(N + 1, 'x')),
        ('cost_set scaling at stage N+1', lambda: s.cost_set(N + 1, 'scaling', np.ones(1))),
        ('constraints_set lbx with one value too many', lambda: s.constraints_set(k, 'lbx', np.ones(S.d[(k, 'lbx', 'con')].size + 1))),
        ('set p_global with one value too many', lambda: s.set_p_global_and_precompute_dependencies(np.ones(pr.npg + 1))),
        ('set_flat %s with a matrix' % f1, lambda: s.set_flat(f1, np.ones((tot, 2)))),
        ('set p with an array of shape (np, 2)', lambda: s.set(k, 'p', np.ones((pr.np, 2)))),
    ]
    if w is not None:
        shp = S.d[w].shape
        st = s.cost_set if w[2] == 'cost' else s.constraints_set
        ops += [('%s with shape %s instead of %s' % (w[1], q, shp), (lambda q=q: st(w[0], w[1], np.ones(q), api='new')))
                for q in ((shp[0] + 1, shp[1]), (shp[0], shp[1] + 1), (shp[0] * shp[1],)) + (((shp[1], shp[0]),) if shp[0] != shp[1] else ())]
    what, f = ops[int(rng.integers(len(ops)))]
    if ('(np, 2)' in what and pr.np == 0) or ('with a matrix' in what and tot == 0):
        return 'nothing'
    try:
        f()
    except Exception:
        ob.check(True, 'rejected', '')
    else:
        ob.check(False, 'accepted', lambda: what + ' was accepted')
    ob.state('bad', what.split(' with shape')[0])
    return what + ' (refused)'
