"""The C routines are called directly in the library that was built from the
working tree, with generated matrices (random, graded, structured, repeated
eigenvalues, zero blocks, sizes 1..14, leading dimensions larger than the
number of rows, up to 40 right hand sides) and compared with their mathematical
definition: matrix exponential against a scaled Taylor series in extended
precision; the eigenvalue decomposition by orthogonality, reconstruction and
the eigenvalues of numpy; mirrored / projected blocks (fixed and adaptive
threshold) against the spectral definition; LU solution by residual, singular
systems by the error index; Gershgorin bounds and norms by definition;
interpolation against the polynomial evaluated in extended precision; Gauss
Legendre and Radau tableaus by their defining order conditions, explicit
tableaus by the order conditions up to order 4.  Guard words around every
buffer must stay untouched and inputs that are documented as read-only unchanged."""
import ctypes
import os

import numpy as np

PROPERTY = 'P30'
VARIANT = 'plain'
LEVEL = 'monitored'
ASSUMPTIONS = ['Matrices with entries between 1e-100 and 1e100; the tolerance of a result is a '
               'multiple of the rounding unit times the condition of the operation.']
RULE = 'error <= C * n * eps * (condition of the operation)'
CASE_TIMEOUT = 120
LD = np.longdouble
EPS = 2.3e-16
INT = ctypes.c_int
DBL = ctypes.c_double
GUARD = 1.2345e77
KINDS = ('random', 'sym', 'diag', 'zero', 'rank1', 'repeated', 'graded', 'blocks', 'skew',
         'stieltjes', 'tiny', 'huge', 'nilpotent', 'indefinite', 'nearsing')


class Buf:
    """Column-major array with guard words on both sides."""
    def __init__(self, a, ld=None, dtype=float):
        a = np.asarray(a, dtype=dtype)
        self.shape = a.shape
        cols = a.shape[1] if a.ndim == 2 else 1
        rows = a.shape[0]
        self.ld = ld or rows
        self.rows, self.cols = rows, cols
        g = GUARD if dtype is float else 77123
        self.g = g
        self.raw = np.full(16 + self.ld*cols, g, dtype=dtype)
        v = self.raw[8:8+self.ld*cols].reshape(cols, self.ld)
        v[:, :rows] = a.reshape(rows, cols).T
        self.before = self.raw.copy()

    @property
    def p(self):
        return ctypes.c_void_p(self.raw[8:].ctypes.data)

    def get(self):
        v = self.raw[8:8+self.ld*self.cols].reshape(self.cols, self.ld)[:, :self.rows].T.copy()
        return v if len(self.shape) == 2 else v[:, 0]

    def intact(self):
        pad = self.raw[8:8+self.ld*self.cols].reshape(self.cols, self.ld)[:, self.rows:]
        return bool(np.all(self.raw[:8] == self.g) and np.all(self.raw[-8:] == self.g)
                    and np.all(pad == self.g))

    def unchanged(self):
        return bool(np.all(self.raw == self.before))


def matrix(rng, n, kind):
    A = rng.normal(size=(n, n))
    S = 0.5*(A+A.T)
    if kind == 'sym':
        return S
    if kind == 'diag':
        return np.diag(rng.normal(size=n)*10.0**rng.integers(-3, 4, n))
    if kind == 'zero':
        return np.zeros((n, n))
    if kind == 'rank1':
        v = rng.normal(size=n)
        return np.outer(v, v)*rng.choice([-1, 1])
    if kind == 'repeated':
        Q, _ = np.linalg.qr(A)
        d = rng.choice([-1.0, 2.0], n)
        S = (Q*d)@Q.T
        return 0.5*(S+S.T)
    if kind == 'graded':
        s = 10.0**np.linspace(-4, 4, n)
        return S*np.outer(s, s)**0.5
    if kind == 'blocks':
        m = n//2
        S[:m, m:] = 0
        S[m:, :m] = 0
        return S
    if kind == 'skew':
        return 3*(A-A.T)
    if kind == 'stieltjes':
        return 2*np.eye(n)-np.eye(n, k=1)-np.eye(n, k=-1)
    if kind == 'tiny':
        return S*1e-90
    if kind == 'huge':
        return S*1e90
    if kind == 'nilpotent':
        return np.triu(A, 1)*5
    if kind == 'indefinite':
        Q, _ = np.linalg.qr(A)
        d = rng.choice([-1.0, 1.0], n)*10.0**rng.uniform(-8, 2, n)
        S = (Q*d)@Q.T
        return 0.5*(S+S.T)
    if kind == 'nearsing':
        Q, _ = np.linalg.qr(A)
        d = rng.normal(size=n)
        d[rng.integers(n)] = 1e-10
        S = (Q*d)@Q.T
        return 0.5*(S+S.T)
    return A


def lib():
    pre = os.environ.get('ACADOS_SOURCE_DIR')
    import acbuild
    path = os.path.join(pre, 'lib', 'libacados.so') if pre else None
    if path is None or not os.path.exists(path):
        path = os.path.join(acbuild.prefix(VARIANT), 'lib', 'libacados.so')
    L = ctypes.CDLL(path)
    for f in ('minimum_of_doubles', 'onenorm'):
        getattr(L, f).restype = DBL
    for f in ('butcher_tableau_work_calculate_size',):
        getattr(L, f).restype = ctypes.c_size_t
    return L


def cases(tier, seed):
    out = []
    reps = 4 if tier == 'quick' else 40
    for r in range(reps):
        for fam in ('expm', 'eig', 'reg', 'lu', 'norm', 'neville', 'gersh', 'blas'):
            for k in range(2):
                out.append(dict(id='%s-%d-%d' % (fam, r, k), fam=fam,
                                seed=seed*1000003+r*977+k*31+len(fam)))
    out.append(dict(id='butcher', fam='butcher', seed=seed))
    return out


def expm_ref(A):
    A = A.astype(LD)
    nrm = float(np.abs(A).sum(0).max()) if A.size else 0.0
    s = max(0, int(np.ceil(np.log2(max(nrm, 1e-300))))+4)
    B = A/LD(2)**s
    E = np.eye(len(A), dtype=LD)
    T = E.copy()
    for k in range(1, 26):
        T = T@B/LD(k)
        E = E+T
    cond = 1.0
    for _ in range(s):
        E = E@E
    return E, s


LIBC = ctypes.CDLL(None)
LIBC.malloc.restype = ctypes.c_void_p
LIBC.malloc.argtypes = [ctypes.c_size_t]
LIBC.free.argtypes = [ctypes.c_void_p]


def dirty(size):
    """Leaves not-a-numbers in the memory that the next allocations of this size return."""
    blocks = [LIBC.malloc(size) for _ in range(12)]
    for b in blocks:
        ctypes.memset(b, 0xff, size)
    for b in blocks:
        LIBC.free(b)


def run_expm(L, rng, ob):
    for n in range(1, 11):
        for kind in KINDS:
            if kind in ('huge',):
                continue
            A = matrix(rng, n, kind)
            nrm = np.abs(A).sum(0).max()
            # all degrees and the scaling branch
            tgt = 10.0**rng.uniform(-3, 1.6)
            if kind != 'tiny' and nrm > 0:
                A = A*(tgt/nrm)
            elif kind == 'tiny':
                tgt = nrm
            b = Buf(A)
            dirty(n*n*8)
            L.expm(INT(n), b.p)
            E, s = expm_ref(A)
            got = b.get()
            nrm = np.abs(A).sum(0).max()
            scale = float(np.abs(E).max())
            # forward error of scaling and squaring: eps * cond, cond <= n exp(2|A|)/|E| but
            # in practice small; |exp(|A|)| bounds the intermediate terms
            bound = 40*n*EPS*max(scale, 1.0)*max(1.0, nrm)*(1.0 if kind in ('diag', 'sym', 'random')
                                                            else 3.0)
            X, _ = expm_ref(np.abs(A))
            bound = max(bound, 8*n*EPS*float(X.max()))
            ob.check(b.intact(), 'expm_guard', 'n=%d %s' % (n, kind))
            err = float(np.abs(got.astype(LD)-E).max()/bound)
            ob.worst('expm_error/bound', err)
            ob.check(err <= 1.0, 'expm', 'n=%d %s norm %.3g: error is %.3g times the bound'
                     % (n, kind, nrm, err))
            deg = [i for i, t in enumerate((0.0149, 0.2539, 0.9504, 2.0978, 5.3719)) if nrm <= t]
            ob.state('expm', deg[0] if deg else 'squaring', n)


def eig(L, A):
    n = len(A)
    a = Buf(A.T)
    v, d, e = Buf(np.zeros((n, n))), Buf(np.zeros(n)), Buf(np.zeros(n))
    L.acados_eigen_decomposition(INT(n), a.p, v.p, d.p, e.p)
    # rows are stored consecutively: V[i*n+j]
    return a, v.get().T, d.get(), all(x.intact() for x in (a, v, d, e)) and a.unchanged()


def run_eig(L, rng, ob):
    for n in range(1, 15):
        for kind in KINDS:
            A = matrix(rng, n, kind)
            A = 0.5*(A+A.T)
            nrm = np.abs(A).max() or 1.0
            a, V, d, ok = eig(L, A)
            ob.check(ok, 'eig_guard', 'n=%d %s' % (n, kind))
            tol = 60*n*EPS
            ob.close((V*(d/nrm))@V.T, A/nrm, tol, 'eig_reconstruct', 'n=%d %s' % (n, kind))
            ob.close(V.T@V, np.eye(n), tol, 'eig_orthogonal', 'n=%d %s' % (n, kind))
            ob.close(np.sort(d)/nrm, np.linalg.eigvalsh(A/nrm), tol, 'eig_values',
                     'n=%d %s' % (n, kind))
            ob.state('eig', kind, n)


def run_reg(L, rng, ob):
    for n in range(1, 11):
        for kind in KINDS:
            A = matrix(rng, n, kind)
            A = 0.5*(A+A.T)
            if kind in ('tiny', 'huge'):
                A = A/np.abs(A).max()
            nrm = np.abs(A).max() or 1.0
            w, Q = np.linalg.eigh(A)
            eps = 10.0**rng.uniform(-8, 0)*nrm
            cb = 10.0**rng.uniform(1, 8)
            me = 10.0**rng.uniform(-8, 0)
            for f in ('acados_mirror', 'acados_project', 'acados_mirror_adaptive_eps',
                      'acados_project_adaptive_eps'):
                ada = 'adaptive' in f
                mir = 'mirror' in f
                if ada:
                    top = np.abs(w).max() if mir else max(0.0, w.max())
                    th = max(top/cb, me)
                else:
                    th = eps
                if mir:
                    near = np.abs(w) <= th
                    nw = np.where(near, th, np.abs(w))
                else:
                    nw = np.maximum(w, th)
                if mir and np.any(np.abs(np.abs(w)-th) < 1e-9*nrm):
                    pass    # continuous there
                B = (Q*nw)@Q.T
                a = Buf(A)
                v, d, e = Buf(np.zeros((n, n))), Buf(np.zeros(n)), Buf(np.zeros(n))
                args = [INT(n), a.p, v.p, d.p, e.p] + (
                    [DBL(cb), DBL(me)] if ada else [DBL(eps)])
                getattr(L, f)(*args)
                s = max(nrm, th)
                if mir and np.any((np.abs(w) < 1e-12*nrm) & (th < 1e-12*nrm)):
                    continue
                ob.check(all(x.intact() for x in (a, v, d, e)), 'reg_guard', f)
                ob.close(a.get()/s, B/s, 200*n*EPS, f, 'n=%d %s threshold %.3g' % (n, kind, th))
                ob.state(f, kind, 'raised' if np.any(nw != w) else 'kept')


def run_lu(L, rng, ob):
    for n in list(range(1, 14)) + [33, 40]:
        for kind in ('random', 'graded', 'skew', 'zerodiag', 'perm', 'lower', 'singular', 'dup'):
            A = rng.normal(size=(n, n))
            sing = False
            if kind == 'graded':
                A = A*10.0**np.linspace(-3, 3, n)[:, None]
            elif kind == 'zerodiag':
                np.fill_diagonal(A, 0.0)
                if n == 1:
                    continue
            elif kind == 'perm':
                A = np.eye(n)[rng.permutation(n)]*rng.uniform(.5, 2, n)
            elif kind == 'lower':
                A = np.tril(A)+3*np.eye(n)
            elif kind == 'singular':
                A[:, rng.integers(n)] = 0.0
                sing = True
            elif kind == 'dup':
                A = np.round(A*4)
                A[:, 0] = 0
                sing = True
            elif kind == 'skew':
                A = A-A.T+1e-3*np.eye(n)
            nrhs = int(rng.choice([1, 2, n, 31, 32, 33, 65]))
            B = rng.normal(size=(n, nrhs))
            a, b = Buf(A, ld=n+int(rng.integers(0, 3))), Buf(B, ld=n+int(rng.integers(0, 3)))
            ip = Buf(np.zeros(n), dtype=np.int32)
            info = INT(0)
            L.dgesv_3l(INT(n), INT(nrhs), a.p, INT(a.ld), ip.p, b.p, INT(b.ld),
                       ctypes.byref(info))
            ob.check(a.intact() and b.intact() and ip.intact(), 'lu_guard', 'n=%d %s' % (n, kind))
            if sing:
                ob.check(info.value > 0, 'lu_singular', 'n=%d %s info %d' % (n, kind, info.value))
                ob.check(np.array_equal(b.get(), B), 'lu_singular_rhs', 'n=%d %s' % (n, kind))
                continue
            if np.linalg.cond(A) > 1e10:
                continue
            X = b.get()
            ob.check(info.value == 0, 'lu_info', 'n=%d %s info %d' % (n, kind, info.value))
            R = A@X-B
            size = np.abs(A)@np.abs(X)+np.abs(B)
            ob.close(R/size.max(0), 0*R, 200*n*EPS, 'lu_residual', 'n=%d nrhs=%d %s' % (n, nrhs, kind))
            if nrhs == n:
                ob.count('lu_square')
            # inverse
            a, b = Buf(A), Buf(np.eye(n))
            ip, info = Buf(np.zeros(n), dtype=np.int32), INT(0)
            L.dgesv_3l(INT(n), INT(n), a.p, INT(n), ip.p, b.p, INT(n), ctypes.byref(info))
            inv = b.get()
            c = np.abs(A)@np.abs(inv)
            ob.close((A@inv-np.eye(n))/c.max(), np.zeros((n, n)), 200*n*EPS, 'inverse', 'n=%d %s' % (n, kind))
            # the factors reproduce the matrix and its determinant
            P = np.eye(n)
            piv = ip.get()
            sgn = 1.0
            for i in range(n):
                if piv[i] != i:
                    P[[i, piv[i]]] = P[[piv[i], i]]
                    sgn = -sgn
            LU = a.get()
            Lo, U = np.tril(LU, -1)+np.eye(n), np.triu(LU)
            ob.close((P.T@(Lo@U)-A)/np.abs(A).max(0), np.zeros((n, n)), 100*n*EPS, 'lu_factors', 'n=%d %s' % (n, kind))
            ob.check(np.all(np.abs(Lo) <= 1+1e-14), 'lu_pivot', 'n=%d %s' % (n, kind))
            s1, l1 = np.linalg.slogdet(A)
            ob.check(sgn*np.prod(np.sign(np.diag(U))) == s1 and
                     abs(np.log(np.abs(np.diag(U))).sum()-l1) < 1e-6, 'det', 'n=%d %s' % (n, kind))
            ob.state('lu', kind, n, min(nrhs, 33))


def run_norm(L, rng, ob):
    for _ in range(150):
        m, n = (int(x) for x in rng.integers(1, 14, 2))
        A = rng.normal(size=(m, n))*10.0**rng.integers(-3, 4)
        if rng.random() < .3:
            A = -np.abs(A)
        b = Buf(A)
        ob.close(np.array([L.onenorm(INT(m), INT(n), b.p)]), np.array([np.abs(A).sum(0).max()]),
                 1e-14, 'onenorm', '%dx%d' % (m, n))
        ob.check(b.unchanged(), 'onenorm_input', '')
        x = rng.normal(size=n)*10.0**rng.integers(-3, 4)
        if rng.random() < .5:
            x = -np.abs(x)
        if rng.random() < .3:
            x[-1] = -1e3
        v = Buf(x)
        ob.check(L.minimum_of_doubles(v.p, INT(n)) == x.min(), 'minimum', str(x))
        ob.check(L.idamax_3l(INT(n), v.p) == int(np.argmax(np.abs(x))), 'idamax', str(x))
        ob.check(v.unchanged(), 'minimum_input', '')
        ob.state('norm', m, n)


def run_neville(L, rng, ob):
    for _ in range(200):
        n = int(rng.integers(0, 9))
        kind = rng.integers(3)
        if kind == 0:
            x = np.sort(rng.uniform(0, 1, n+1))
        elif kind == 1:
            x = np.polynomial.legendre.leggauss(n+1)[0]*.5+.5
        else:
            x = rng.permutation(np.arange(n+1))*0.7-1
        if n and np.min(np.diff(np.sort(x))) < 1e-2/n:
            x = np.linspace(0, 1, n+1)+rng.uniform(-.2, .2, n+1)/n
        y = rng.normal(size=n+1)
        xx = rng.choice([rng.uniform(-.5, 1.5), 0.0, 1.0, x[0], x[-1]])
        bx, bq, out = Buf(x), Buf(y), Buf(np.zeros(1))
        L.neville_algorithm(DBL(xx), INT(n), bx.p, bq.p, out.p)
        ref, size = LD(0), 0.0
        for i in range(n+1):
            w = LD(1)
            for j in range(n+1):
                if j != i:
                    w = w*(LD(xx)-LD(x[j]))/(LD(x[i])-LD(x[j]))
            ref += w*LD(y[i])
            size += float(abs(w*LD(y[i])))
        # growth of the intermediate interpolants, without cancellation
        q = np.abs(y).astype(float)
        for i in range(n, 0, -1):
            for j in range(i):
                q[j] = (abs(xx-x[j])*q[j+1]+abs(xx-x[j+n-i+1])*q[j])/abs(x[j+n-i+1]-x[j])
        size = max(size, q[0], 1e-300)
        ob.close(out.get()/size, np.array([float(ref)])/size, 40*(n+1)*EPS, 'neville',
                 'degree %d at %g' % (n, xx))
        ob.check(bx.unchanged() and bq.intact() and out.intact(), 'neville_guard', '')
        if xx in x:
            ob.count('at_node')
        ob.state('neville', n, int(kind))


def run_gersh(L, rng, ob):
    for n in range(1, 13):
        for kind in KINDS:
            A = matrix(rng, n, kind)
            A = 0.5*(A+A.T)
            nrm = np.abs(A).max() or 1.0
            mat = ctypes.create_string_buffer(512)
            L.blasfeo_allocate_dmat(INT(n+2), INT(n+1), mat)
            a = Buf(A)
            L.blasfeo_pack_dmat(INT(n), INT(n), a.p, INT(n), mat, INT(0), INT(0))
            r = np.abs(A).sum(1)-np.abs(np.diag(A))
            lo, hi = DBL(), DBL()
            if nrm < 1e9:
                L.compute_gershgorin_min_eig_estimate(INT(n), mat, ctypes.byref(lo))
                want = (np.diag(A)-r).min()
                ob.close(np.array([lo.value])/nrm, np.array([want])/nrm, 1e-13, 'gershgorin_min', 'n=%d %s' % (n, kind))
                ob.check(lo.value <= np.linalg.eigvalsh(A)[0]+1e-12*nrm*n, 'gershgorin_bound', '')
            L.compute_gershgorin_max_abs_eig_estimate(INT(n), mat, ctypes.byref(hi))
            want = np.maximum(np.abs(np.diag(A)-r), np.abs(np.diag(A)+r)).max()
            ob.close(np.array([hi.value])/nrm, np.array([want])/nrm, 1e-13, 'gershgorin_max', 'n=%d %s' % (n, kind))
            ob.check(hi.value >= np.abs(np.linalg.eigvalsh(A/nrm)).max()*nrm*(1-1e-12*n), 'gershgorin_absbound', '')
            L.blasfeo_free_dmat(mat)
            ob.state('gersh', kind, n)


def run_blas(L, rng, ob):
    for _ in range(120):
        m, n, k = (int(x) for x in rng.integers(1, 10, 3))
        A, B = rng.normal(size=(m, k)), rng.normal(size=(k, n))
        pad = rng.integers(0, 3, 3)
        a, b = Buf(A, m+int(pad[0])), Buf(B, k+int(pad[1]))
        c = Buf(rng.normal(size=(m, n)), m+int(pad[2]))
        L.dgemm_nn_3l(INT(m), INT(n), INT(k), a.p, INT(a.ld), b.p, INT(b.ld), c.p, INT(c.ld))
        ob.close(c.get(), A@B, 1e-13*k, 'gemm', '')
        ob.check(a.unchanged() and b.unchanged() and c.intact(), 'gemm_guard', '')
        al = float(rng.choice([0.0, 1.0, -1.0, rng.normal()]))
        x, y = rng.normal(size=m), rng.normal(size=m)
        bx, by = Buf(x), Buf(y)
        L.daxpy_3l(INT(m), DBL(al), bx.p, by.p)
        ob.close(by.get(), y+al*x, 1e-14, 'axpy', '')
        L.dscal_3l(INT(m), DBL(al), by.p)
        ob.close(by.get(), al*(y+al*x), 1e-13, 'scal', '')
        ob.check(bx.unchanged() and by.intact(), 'vec_guard', '')
        d = Buf(np.zeros((m, k)), m+int(pad[2]))
        L.dmcopy(INT(m), INT(k), a.p, INT(a.ld), d.p, INT(d.ld))
        ob.check(np.array_equal(d.get(), A) and d.intact(), 'copy', '')
        ob.state('blas', m, n, k)


def run_butcher(L, rng, ob):
    for typ, name in ((0, 'legendre'), (1, 'radau')):
        for s in range(1, 10 if typ else 13):
            A, b, c = Buf(np.zeros((s, s))), Buf(np.zeros(s)), Buf(np.zeros(s))
            size = L.butcher_tableau_work_calculate_size(INT(s))
            w = Buf(np.zeros((size+7)//8))
            L.calculate_butcher_tableau(INT(s), INT(typ), c.p, b.p, A.p, w.p)
            A_, b_, c_ = A.get(), b.get(), c.get()
            ob.check(A.intact() and b.intact() and c.intact() and w.intact(), 'butcher_guard', '%s %d' % (name, s))
            V = np.vander(c_, increasing=True)
            tol = 1e-14*max(1.0, np.linalg.cond(V))
            if typ == 0:
                x = np.polynomial.legendre.leggauss(s)[0]*.5+.5
                ob.close(np.sort(c_), x, 1e-13, 'nodes', '%s %d' % (name, s))
            else:
                from numpy.polynomial import legendre as lg
                p = np.zeros(s+1)
                p[s], p[s-1] = 1.0, -1.0
                x = np.sort(np.real(lg.legroots(p)))*.5+.5
                ob.close(np.sort(c_), x, 1e-9, 'nodes', '%s %d' % (name, s))
                ob.close(c_[-1:], np.ones(1), 1e-14, 'nodes_end', '%s %d' % (name, s))
                ob.close(A_[-1], b_, tol*10, 'stiffly_accurate', '%s %d' % (name, s))
            order = 2*s if typ == 0 else 2*s-1
            for k in range(1, order+1):
                ob.close(np.array([(b_*c_**(k-1)).sum()]), np.array([1.0/k]), tol*10, 'quadrature', '%s %d moment %d' % (name, s, k))
            for k in range(1, s+1):
                ob.close(A_@c_**(k-1), c_**k/k, tol*10, 'collocation', '%s %d moment %d' % (name, s, k))
            ob.state('butcher', name, s)
    for s in range(1, 5):
        A, b, c = Buf(np.zeros((s, s))), Buf(np.zeros(s)), Buf(np.zeros(s))
        L.get_explicit_butcher_tableau(INT(s), A.p, b.p, c.p)
        A_, b_, c_ = A.get(), b.get(), c.get()
        ob.check(A.intact() and b.intact() and c.intact(), 'butcher_guard', 'explicit %d' % s)
        ob.check(np.all(np.triu(A_) == 0), 'explicit', 'stages %d' % s)
        ob.close(A_.sum(1), c_, 1e-15, 'explicit_rowsum', 'stages %d' % s)
        cond = [(1, b_.sum(), 1.0), (2, b_@c_, .5), (3, b_@c_**2, 1/3), (3, b_@(A_@c_), 1/6),
                (4, b_@c_**3, .25), (4, (b_*c_)@(A_@c_), 1/8), (4, b_@(A_@c_**2), 1/12),
                (4, b_@(A_@(A_@c_)), 1/24)]
        for o, got, want in cond:
            if o <= s:
                ob.close(np.array([got]), np.array([want]), 1e-15, 'explicit_order', 'stages %d order %d' % (s, o))
        ob.state('butcher', 'explicit', s)


def run(case, ob):
    L = lib()
    rng = np.random.default_rng(case['seed'])
    globals()['run_'+case['fam']](L, rng, ob)
