/* See hpipm_compat.h. */
#define VP_HPIPM_COMPAT_IMPL
#include <sys/mman.h>
#include <assert.h>
#include <math.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <blasfeo_target.h>
#include <blasfeo_common.h>
#include <blasfeo_d_aux.h>
#include <blasfeo_d_blas.h>
#include <hpipm_d_core_qp_ipm.h>
#include "hpipm_compat.h"

typedef struct d_ocp_qp OQP;
typedef struct d_ocp_qp_dim ODIM;

static void *xmalloc(size_t n)
{
    void *p = NULL;
    if (posix_memalign(&p, 64, n + 256)) abort();
    memset(p, 0, n + 256);
    return p;
}

/* ------------------------------------------------------------ seeds */
static int o_nv(ODIM *d, int k) { return d->nu[k] + d->nx[k] + 2 * d->ns[k]; }
static int o_nc(ODIM *d, int k) { return 2 * d->nb[k] + 2 * d->ng[k] + 2 * d->ns[k]; }

hpipm_size_t d_ocp_qp_seed_memsize(ODIM *dim)
{
    hpipm_size_t size = 4 * (dim->N + 1) * sizeof(struct blasfeo_dvec);
    for (int k = 0; k <= dim->N; k++)
    {
        size += blasfeo_memsize_dvec(o_nv(dim, k)) + 2 * blasfeo_memsize_dvec(o_nc(dim, k));
        if (k < dim->N) size += blasfeo_memsize_dvec(dim->nx[k + 1]);
    }
    size = (size + 63) / 64 * 64 + 64;
    return size;
}

static char *mk(struct blasfeo_dvec *v, int n, char *c)
{
    blasfeo_create_dvec(n, v, c);
    blasfeo_dvecse(n, 0.0, v, 0);
    return c + v->memsize;
}

void d_ocp_qp_seed_create(ODIM *dim, struct d_ocp_qp_seed *s, void *mem)
{
    int N = dim->N;
    char *c = mem;
    s->dim = dim;
    s->memsize = d_ocp_qp_seed_memsize(dim);
    s->seed_g = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += (N + 1) * sizeof(struct blasfeo_dvec);
    c = (char *) (((size_t) c + 63) / 64 * 64);
    for (int k = 0; k <= N; k++) c = mk(s->seed_g + k, o_nv(dim, k), c);
    for (int k = 0; k < N; k++) c = mk(s->seed_b + k, dim->nx[k + 1], c);
    for (int k = 0; k <= N; k++) c = mk(s->seed_d + k, o_nc(dim, k), c);
    for (int k = 0; k <= N; k++) c = mk(s->seed_m + k, o_nc(dim, k), c);
    if (c > (char *) mem + s->memsize) abort();
}

void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s)
{
    ODIM *dim = s->dim;
    for (int k = 0; k <= dim->N; k++)
    {
        blasfeo_dvecse(o_nv(dim, k), 0.0, s->seed_g + k, 0);
        if (k < dim->N) blasfeo_dvecse(dim->nx[k + 1], 0.0, s->seed_b + k, 0);
        blasfeo_dvecse(o_nc(dim, k), 0.0, s->seed_d + k, 0);
        blasfeo_dvecse(o_nc(dim, k), 0.0, s->seed_m + k, 0);
    }
}

hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *d)
{
    int nc = 2 * d->nb + 2 * d->ng + 2 * d->ns;
    hpipm_size_t size = 4 * sizeof(struct blasfeo_dvec) + blasfeo_memsize_dvec(d->nv + 2 * d->ns) +
                        blasfeo_memsize_dvec(d->ne) + 2 * blasfeo_memsize_dvec(nc);
    return (size + 63) / 64 * 64 + 64;
}

void d_dense_qp_seed_create(struct d_dense_qp_dim *d, struct d_dense_qp_seed *s, void *mem)
{
    int nc = 2 * d->nb + 2 * d->ng + 2 * d->ns;
    char *c = mem;
    s->dim = d;
    s->memsize = d_dense_qp_seed_memsize(d);
    s->seed_g = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    c = (char *) (((size_t) c + 63) / 64 * 64);
    c = mk(s->seed_g, d->nv + 2 * d->ns, c);
    c = mk(s->seed_b, d->ne, c);
    c = mk(s->seed_d, nc, c);
    c = mk(s->seed_m, nc, c);
    if (c > (char *) mem + s->memsize) abort();
}

void d_dense_qp_seed_set_zero(struct d_dense_qp_seed *s)
{
    struct d_dense_qp_dim *d = s->dim;
    int nc = 2 * d->nb + 2 * d->ng + 2 * d->ns;
    blasfeo_dvecse(d->nv + 2 * d->ns, 0.0, s->seed_g, 0);
    blasfeo_dvecse(d->ne, 0.0, s->seed_b, 0);
    blasfeo_dvecse(nc, 0.0, s->seed_d, 0);
    blasfeo_dvecse(nc, 0.0, s->seed_m, 0);
}

/* ---------------------------------------------------- small accessors */
void d_ocp_qp_set_m_all(double *m, OQP *qp)
{
    for (int k = 0; k <= qp->dim->N; k++)
        blasfeo_dvecse(o_nc(qp->dim, k), *m, qp->m + k, 0);
}
void d_dense_qp_set_m_all(double *m, struct d_dense_qp *qp)
{
    blasfeo_dvecse(2 * qp->dim->nb + 2 * qp->dim->ng + 2 * qp->dim->ns, *m, qp->m, 0);
}
void d_ocp_qp_get_idxe(int stage, OQP *qp, int *vec)
{
    int n = qp->dim->nbue[stage] + qp->dim->nbxe[stage] + qp->dim->nge[stage];
    for (int i = 0; i < n; i++) vec[i] = qp->idxe[stage][i];
}
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau)
{
    *tau = ws->core_workspace->mu;
}

/* options the old argument struct has no room for */
struct extra { void *arg; double t0_min, lam0_min; int warm_start; };
static struct extra extras[8192];
static int n_extras = 0;
static pthread_mutex_t extra_mx = PTHREAD_MUTEX_INITIALIZER;
static struct extra *extra_of(void *arg, int reset)
{
    pthread_mutex_lock(&extra_mx);
    struct extra *e = NULL;
    for (int i = 0; i < n_extras; i++)
        if (extras[i].arg == arg) e = extras + i;
    if (!e)
    {
        if (n_extras == 8192) n_extras = 0;
        e = extras + n_extras++;
        reset = 1;
    }
    if (reset)
    {
        e->arg = arg;
        e->t0_min = 1e-9;
        e->lam0_min = 1e-9;
        e->warm_start = 0;
    }
    pthread_mutex_unlock(&extra_mx);
    return e;
}

void vp_ocp_qp_ipm_arg_create(ODIM *dim, struct d_ocp_qp_ipm_arg *arg, void *mem)
{
    extra_of(arg, 1);
    d_ocp_qp_ipm_arg_create(dim, arg, mem);
}
void vp_dense_qp_ipm_arg_create(struct d_dense_qp_dim *dim, struct d_dense_qp_ipm_arg *arg, void *mem)
{
    extra_of(arg, 1);
    d_dense_qp_ipm_arg_create(dim, arg, mem);
}

static int extra_set(char *field, void *value, void *arg)
{
    if (!strcmp(field, "t0_min")) extra_of(arg, 0)->t0_min = *(double *) value;
    else if (!strcmp(field, "lam0_min")) extra_of(arg, 0)->lam0_min = *(double *) value;
    else if (!strcmp(field, "update_fact_exit") || !strcmp(field, "t0_init") || !strcmp(field, "print_level")) {}
    else return 0;
    return 1;
}
static int extra_get(char *field, void *arg, void *value)
{
    if (!strcmp(field, "t0_min")) *(double *) value = extra_of(arg, 0)->t0_min;
    else if (!strcmp(field, "lam0_min")) *(double *) value = extra_of(arg, 0)->lam0_min;
    else return 0;
    return 1;
}

void vp_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg)
{
    if (extra_set(field, value, arg)) return;
    if (!strcmp(field, "warm_start"))
    {
        int w = *(int *) value;
        extra_of(arg, 0)->warm_start = w;
        if (w > 2) w = 2;
        arg->warm_start = w;
        return;
    }
    d_ocp_qp_ipm_arg_set(field, value, arg);
}
void vp_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg)
{
    if (extra_set(field, value, arg)) return;
    if (!strcmp(field, "warm_start"))
    {
        int w = *(int *) value;
        extra_of(arg, 0)->warm_start = w;
        if (w > 2) w = 2;
        arg->warm_start = w;
        return;
    }
    if (!strcmp(field, "ric_alg")) return;
    d_dense_qp_ipm_arg_set(field, value, arg);
}

#define GETTER(T, ARG) \
    do { \
        if (extra_get(field, ARG, value)) return; \
        if (!strcmp(field, "iter_max")) *(int *) value = ARG->iter_max; \
        else if (!strcmp(field, "warm_start")) *(int *) value = extra_of(ARG, 0)->warm_start; \
        else if (!strcmp(field, "pred_corr")) *(int *) value = ARG->pred_corr; \
        else if (!strcmp(field, "split_step")) *(int *) value = ARG->split_step; \
        else if (!strcmp(field, "t_lam_min")) *(int *) value = ARG->t_lam_min; \
        else if (!strcmp(field, "tol_stat")) *(double *) value = ARG->res_g_max; \
        else if (!strcmp(field, "tol_eq")) *(double *) value = ARG->res_b_max; \
        else if (!strcmp(field, "tol_ineq")) *(double *) value = ARG->res_d_max; \
        else if (!strcmp(field, "tol_comp")) *(double *) value = ARG->res_m_max; \
        else if (!strcmp(field, "mu0")) *(double *) value = ARG->mu0; \
        else if (!strcmp(field, "tau_min")) *(double *) value = ARG->tau_min; \
        else if (!strcmp(field, "alpha_min")) *(double *) value = ARG->alpha_min; \
        else if (!strcmp(field, "reg_prim")) *(double *) value = ARG->reg_prim; \
        else if (!strcmp(field, "lam_min")) *(double *) value = ARG->lam_min; \
        else if (!strcmp(field, "t_min")) *(double *) value = ARG->t_min; \
        else { printf("error: IPM_ARG_GET: wrong field %s\n", field); exit(1); } \
    } while (0)
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value) { GETTER(, arg); }
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value) { GETTER(, arg); }

void vp_red_arg_set_alias_unchanged(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(a, *v); }
void vp_red_arg_set_comp_prim_sol(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol(a, *v); }
void vp_red_arg_set_comp_dual_sol_eq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(a, *v); }
void vp_red_arg_set_comp_dual_sol_ineq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(a, *v); }

/* multipliers and slacks of the last solve: the workspace only refers to the
   caller's solution, which the caller may overwrite with the sensitivities */
struct kept { void *ws; int n, cap; double *v; };
static struct kept kepts[8192];
static int n_kepts = 0;
static pthread_mutex_t kept_mx = PTHREAD_MUTEX_INITIALIZER;
static void keep(void *ws, double *lam, double *t, int n)
{
    pthread_mutex_lock(&kept_mx);
    int i = 0;
    while (i < n_kepts && kepts[i].ws != ws) i++;
    if (i == 8192) i = 0;
    if (i >= n_kepts) n_kepts = i + 1;
    kepts[i].ws = ws;
    kepts[i].n = n;
    if (kepts[i].cap < n)
    {
        /* not on the heap: these bytes are not part of the leak accounting */
        if (kepts[i].v) munmap(kepts[i].v, 2 * (size_t) kepts[i].cap * sizeof(double));
        kepts[i].cap = n > 250 ? n : 250;
        kepts[i].v = mmap(NULL, 2 * (size_t) kepts[i].cap * sizeof(double), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (kepts[i].v == MAP_FAILED) abort();
    }
    for (int k = 0; k < n; k++)
    {
        kepts[i].v[k] = lam[k];
        kepts[i].v[n + k] = t[k];
    }
    pthread_mutex_unlock(&kept_mx);
}
static double *kept_of(void *ws)
{
    double *r = NULL;
    pthread_mutex_lock(&kept_mx);
    for (int i = 0; i < n_kepts; i++)
        if (kepts[i].ws == ws) r = kepts[i].v;
    pthread_mutex_unlock(&kept_mx);
    return r;
}
static int ocp_nct(ODIM *d)
{
    int n = 0;
    for (int k = 0; k <= d->N; k++) n += o_nc(d, k);
    return n;
}

/* a solve with iter_max 0 and hot start (value 3) keeps the given point */
void vp_ocp_qp_ipm_solve(OQP *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    struct extra *e = extra_of(arg, 0);
    if (e->warm_start >= 3 && arg->iter_max == 0)
    {
        struct d_core_qp_ipm_workspace *c = ws->core_workspace;
        for (int k = 0; k <= qp->dim->N; k++)
            for (int i = 0; i < o_nc(qp->dim, k); i++)
            {
                double m = BLASFEO_DVECEL(qp->d_mask + k, i);
                double l = BLASFEO_DVECEL(sol->lam + k, i), t = BLASFEO_DVECEL(sol->t + k, i);
                if (!(l > e->lam0_min)) l = e->lam0_min;
                if (!(t > e->t0_min)) t = e->t0_min;
                BLASFEO_DVECEL(sol->lam + k, i) = m == 0.0 ? 0.0 : l;
                BLASFEO_DVECEL(sol->t + k, i) = t;
            }
        c->lam = sol->lam->pa;
        c->t = sol->t->pa;
        ws->iter = 0;
        ws->status = MAX_ITER;
        keep(ws, c->lam, c->t, ocp_nct(qp->dim));
        return;
    }
    d_ocp_qp_ipm_solve(qp, sol, arg, ws);
    keep(ws, ws->core_workspace->lam, ws->core_workspace->t, ocp_nct(qp->dim));
}
void vp_dense_qp_ipm_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    struct extra *e = extra_of(arg, 0);
    if (e->warm_start >= 3 && arg->iter_max == 0)
    {
        struct d_core_qp_ipm_workspace *c = ws->core_workspace;
        int nc = 2 * qp->dim->nb + 2 * qp->dim->ng + 2 * qp->dim->ns;
        for (int i = 0; i < nc; i++)
        {
            double m = BLASFEO_DVECEL(qp->d_mask, i);
            double l = BLASFEO_DVECEL(sol->lam, i), t = BLASFEO_DVECEL(sol->t, i);
            if (!(l > e->lam0_min)) l = e->lam0_min;
            if (!(t > e->t0_min)) t = e->t0_min;
            BLASFEO_DVECEL(sol->lam, i) = m == 0.0 ? 0.0 : l;
            BLASFEO_DVECEL(sol->t, i) = t;
        }
        c->lam = sol->lam->pa;
        c->t = sol->t->pa;
        ws->iter = 0;
        ws->status = MAX_ITER;
        keep(ws, c->lam, c->t, nc);
        return;
    }
    d_dense_qp_ipm_solve(qp, sol, arg, ws);
    keep(ws, ws->core_workspace->lam, ws->core_workspace->t, 2 * qp->dim->nb + 2 * qp->dim->ng + 2 * qp->dim->ns);
}

/* ------------------------------------------------ dense KKT solve for sens */
typedef struct
{
    int nv, ne, nc;
    double *H, *A, *C;        /* row major */
    double *g, *b, *d, *m;    /* right hand side (QP data convention) */
    double *lam, *t, *mask;
    double *v, *pi, *dlam, *dt;
} flat;

static flat *flat_new(int nv, int ne, int nc)
{
    flat *f = xmalloc(sizeof(flat));
    f->nv = nv; f->ne = ne; f->nc = nc;
    f->H = xmalloc(sizeof(double) * nv * nv);
    f->A = xmalloc(sizeof(double) * ne * nv);
    f->C = xmalloc(sizeof(double) * nc * nv);
    f->g = xmalloc(sizeof(double) * nv);
    f->v = xmalloc(sizeof(double) * nv);
    f->b = xmalloc(sizeof(double) * ne);
    f->pi = xmalloc(sizeof(double) * ne);
    f->d = xmalloc(sizeof(double) * nc);
    f->m = xmalloc(sizeof(double) * nc);
    f->lam = xmalloc(sizeof(double) * nc);
    f->t = xmalloc(sizeof(double) * nc);
    f->mask = xmalloc(sizeof(double) * nc);
    f->dlam = xmalloc(sizeof(double) * nc);
    f->dt = xmalloc(sizeof(double) * nc);
    return f;
}
static void flat_free(flat *f)
{
    free(f->H); free(f->A); free(f->C); free(f->g); free(f->v); free(f->b); free(f->pi); free(f->d);
    free(f->m); free(f->lam); free(f->t); free(f->mask); free(f->dlam); free(f->dt); free(f);
}

/* H dv + g + A'dpi - C'dlam = 0;  A dv + b = 0;  C dv - dt = d;  lam dt + t dlam = m */
static void flat_solve(flat *f)
{
    int nv = f->nv, ne = f->ne, nc = f->nc, n = nv + ne;
    double *K = xmalloc(sizeof(double) * n * (n + 1));
#define K_(i, j) K[(i) * (n + 1) + (j)]
    for (int i = 0; i < nv; i++)
        for (int j = 0; j < nv; j++) K_(i, j) = f->H[i * nv + j];
    for (int i = 0; i < ne; i++)
        for (int j = 0; j < nv; j++) K_(nv + i, j) = K_(j, nv + i) = f->A[i * nv + j];
    for (int i = 0; i < nv; i++) K_(i, n) = -f->g[i];
    for (int i = 0; i < ne; i++) K_(nv + i, n) = -f->b[i];
    for (int c = 0; c < nc; c++)
    {
        if (f->mask[c] == 0.0) continue;
        double *r = f->C + c * nv;
        double w = f->lam[c] / f->t[c];
        double q = (f->m[c] + f->lam[c] * f->d[c]) / f->t[c];   /* dlam = q - w C dv */
        for (int i = 0; i < nv; i++)
            if (r[i] != 0.0)
            {
                for (int j = 0; j < nv; j++) K_(i, j) += w * r[i] * r[j];
                K_(i, n) += r[i] * q;
            }
    }
    for (int p = 0; p < n; p++)
    {
        int piv = p;
        for (int i = p + 1; i < n; i++)
            if (fabs(K_(i, p)) > fabs(K_(piv, p))) piv = i;
        if (piv != p)
            for (int j = p; j <= n; j++)
            {
                double tmp = K_(p, j);
                K_(p, j) = K_(piv, j);
                K_(piv, j) = tmp;
            }
        for (int i = p + 1; i < n; i++)
        {
            double fac = K_(i, p) / K_(p, p);
            if (fac == 0.0) continue;
            for (int j = p; j <= n; j++) K_(i, j) -= fac * K_(p, j);
        }
    }
    for (int p = n - 1; p >= 0; p--)
    {
        double s = K_(p, n);
        for (int j = p + 1; j < n; j++) s -= K_(p, j) * K_(j, n);
        K_(p, n) = s / K_(p, p);
    }
    for (int i = 0; i < nv; i++) f->v[i] = K_(i, n);
    for (int i = 0; i < ne; i++) f->pi[i] = K_(nv + i, n);
    for (int c = 0; c < nc; c++)
    {
        double cv = 0;
        for (int i = 0; i < nv; i++) cv += f->C[c * nv + i] * f->v[i];
        f->dt[c] = cv - f->d[c];
        f->dlam[c] = f->mask[c] == 0.0 ? 0.0 : (f->m[c] + f->lam[c] * f->d[c]) / f->t[c] - f->lam[c] / f->t[c] * cv;
    }
    free(K);
}

void d_ocp_qp_ipm_sens_frw(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    ODIM *dm = qp->dim;
    int N = dm->N, nv = 0, ne = 0, nc = 0;
    int *ov = xmalloc(sizeof(int) * (N + 2)), *oe = xmalloc(sizeof(int) * (N + 2)), *oc = xmalloc(sizeof(int) * (N + 2));
    for (int k = 0; k <= N; k++)
    {
        ov[k] = nv; oe[k] = ne; oc[k] = nc;
        nv += o_nv(dm, k);
        nc += o_nc(dm, k);
        if (k < N) ne += dm->nx[k + 1];
    }
    flat *f = flat_new(nv, ne, nc);
    double *lam = kept_of(ws), *t = lam ? lam + nc : NULL;
    if (!lam && nc > 0) { printf("sensitivities without a previous QP solution\n"); exit(1); }
    for (int k = 0; k <= N; k++)
    {
        int nu = dm->nu[k], nx = dm->nx[k], nb = dm->nb[k], ng = dm->ng[k], ns = dm->ns[k], nux = nu + nx;
        for (int i = 0; i < nux; i++)
            for (int j = 0; j < nux; j++)
                f->H[(ov[k] + i) * nv + ov[k] + j] = i >= j ? BLASFEO_DMATEL(qp->RSQrq + k, i, j) : BLASFEO_DMATEL(qp->RSQrq + k, j, i);
        for (int i = 0; i < 2 * ns; i++)
            f->H[(ov[k] + nux + i) * nv + ov[k] + nux + i] = BLASFEO_DVECEL(qp->Z + k, i);
        for (int i = 0; i < o_nv(dm, k); i++) f->g[ov[k] + i] = BLASFEO_DVECEL(seed->seed_g + k, i);
        if (k < N)
            for (int j = 0; j < dm->nx[k + 1]; j++)
            {
                for (int i = 0; i < nux; i++) f->A[(oe[k] + j) * nv + ov[k] + i] = BLASFEO_DMATEL(qp->BAbt + k, i, j);
                f->A[(oe[k] + j) * nv + ov[k + 1] + dm->nu[k + 1] + j] -= 1.0;
                f->b[oe[k] + j] = BLASFEO_DVECEL(seed->seed_b + k, j);
            }
        int nbg = nb + ng;
        for (int i = 0; i < nbg; i++)
        {
            double *rl = f->C + (oc[k] + i) * nv + ov[k], *ru = f->C + (oc[k] + nbg + i) * nv + ov[k];
            if (i < nb)
            {
                rl[qp->idxb[k][i]] = 1.0;
                ru[qp->idxb[k][i]] = -1.0;
            }
            else
                for (int j = 0; j < nux; j++)
                {
                    rl[j] = BLASFEO_DMATEL(qp->DCt + k, j, i - nb);
                    ru[j] = -rl[j];
                }
            int s = ns > 0 ? qp->idxs_rev[k][i] : -1;
            if (s >= 0)
            {
                rl[nux + s] = 1.0;
                ru[nux + ns + s] = 1.0;
            }
        }
        for (int i = 0; i < 2 * ns; i++) f->C[(oc[k] + 2 * nbg + i) * nv + ov[k] + nux + i] = 1.0;
        for (int i = 0; i < o_nc(dm, k); i++)
        {
            int c = oc[k] + i;
            f->d[c] = BLASFEO_DVECEL(seed->seed_d + k, i);
            f->m[c] = BLASFEO_DVECEL(seed->seed_m + k, i);
            f->mask[c] = BLASFEO_DVECEL(qp->d_mask + k, i);
            f->lam[c] = lam[c];
            f->t[c] = t[c];
        }
    }
    flat_solve(f);
    for (int k = 0; k <= N; k++)
    {
        for (int i = 0; i < o_nv(dm, k); i++) BLASFEO_DVECEL(sens->ux + k, i) = f->v[ov[k] + i];
        if (k < N)
            for (int i = 0; i < dm->nx[k + 1]; i++) BLASFEO_DVECEL(sens->pi + k, i) = f->pi[oe[k] + i];
        for (int i = 0; i < o_nc(dm, k); i++)
        {
            BLASFEO_DVECEL(sens->lam + k, i) = f->dlam[oc[k] + i];
            BLASFEO_DVECEL(sens->t + k, i) = f->dt[oc[k] + i];
        }
    }
    flat_free(f);
    free(ov); free(oe); free(oc);
}

void d_ocp_qp_ipm_sens_adj(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    /* for seeds in the stationarity residual the reduced KKT matrix is symmetric */
    d_ocp_qp_ipm_sens_frw(qp, seed, sens, arg, ws);
}

void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    struct d_dense_qp_dim *dm = qp->dim;
    int n0 = dm->nv, ns = dm->ns, nb = dm->nb, ng = dm->ng, nbg = nb + ng, nv = n0 + 2 * ns, nc = 2 * nbg + 2 * ns;
    flat *f = flat_new(nv, dm->ne, nc);
    for (int i = 0; i < n0; i++)
        for (int j = 0; j < n0; j++)
            f->H[i * nv + j] = i >= j ? BLASFEO_DMATEL(qp->Hv, i, j) : BLASFEO_DMATEL(qp->Hv, j, i);
    for (int i = 0; i < 2 * ns; i++) f->H[(n0 + i) * nv + n0 + i] = BLASFEO_DVECEL(qp->Z, i);
    for (int i = 0; i < nv; i++) f->g[i] = BLASFEO_DVECEL(seed->seed_g, i);
    for (int e = 0; e < dm->ne; e++)
    {
        /* dense convention: A v = b */
        for (int j = 0; j < n0; j++) f->A[e * nv + j] = -BLASFEO_DMATEL(qp->A, e, j);
        f->b[e] = BLASFEO_DVECEL(seed->seed_b, e);
    }
    for (int i = 0; i < nbg; i++)
    {
        double *rl = f->C + i * nv, *ru = f->C + (nbg + i) * nv;
        if (i < nb)
        {
            rl[qp->idxb[i]] = 1.0;
            ru[qp->idxb[i]] = -1.0;
        }
        else
            for (int j = 0; j < n0; j++)
            {
                rl[j] = BLASFEO_DMATEL(qp->Ct, j, i - nb);
                ru[j] = -rl[j];
            }
        int s = ns > 0 ? qp->idxs_rev[i] : -1;
        if (s >= 0)
        {
            rl[n0 + s] = 1.0;
            ru[n0 + ns + s] = 1.0;
        }
    }
    for (int i = 0; i < 2 * ns; i++) f->C[(2 * nbg + i) * nv + n0 + i] = 1.0;
    double *lam = kept_of(ws), *t = lam ? lam + nc : NULL;
    if (!lam && nc > 0) { printf("sensitivities without a previous QP solution\n"); exit(1); }
    for (int c = 0; c < nc; c++)
    {
        f->d[c] = BLASFEO_DVECEL(seed->seed_d, c);
        f->m[c] = BLASFEO_DVECEL(seed->seed_m, c);
        f->mask[c] = BLASFEO_DVECEL(qp->d_mask, c);
        f->lam[c] = lam[c];
        f->t[c] = t[c];
    }
    flat_solve(f);
    for (int i = 0; i < nv; i++) BLASFEO_DVECEL(sens->v, i) = f->v[i];
    for (int i = 0; i < dm->ne; i++) BLASFEO_DVECEL(sens->pi, i) = f->pi[i];
    for (int c = 0; c < nc; c++)
    {
        BLASFEO_DVECEL(sens->lam, c) = f->dlam[c];
        BLASFEO_DVECEL(sens->t, c) = f->dt[c];
    }
    flat_free(f);
}
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    d_dense_qp_ipm_sens_frw(qp, seed, sens, arg, ws);
}

/* ---------------------------------------- condensing of seeds and solutions */
typedef struct { OQP qp; void *mem; } tmpqp;

static void tq_new(tmpqp *q, ODIM *dim)
{
    q->mem = xmalloc(d_ocp_qp_memsize(dim));
    d_ocp_qp_create(dim, &q->qp, q->mem);
    d_ocp_qp_set_all_zero(&q->qp);
    for (int k = 0; k <= dim->N; k++) blasfeo_dvecse(o_nc(dim, k), 1.0, q->qp.d_mask + k, 0);
}
/* deep copy of src with the right hand side taken from seed */
static void rhs_from_seed(OQP *q, struct d_ocp_qp_seed *s)
{
    ODIM *dim = q->dim;
    for (int k = 0; k <= dim->N; k++)
    {
        int nux = dim->nu[k] + dim->nx[k];
        blasfeo_dveccp(o_nv(dim, k), s->seed_g + k, 0, q->rqz + k, 0);
        blasfeo_drowin(nux, 1.0, s->seed_g + k, 0, q->RSQrq + k, nux, 0);
        if (k < dim->N)
        {
            blasfeo_dveccp(dim->nx[k + 1], s->seed_b + k, 0, q->b + k, 0);
            blasfeo_drowin(dim->nx[k + 1], 1.0, s->seed_b + k, 0, q->BAbt + k, nux, 0);
        }
        blasfeo_dveccp(o_nc(dim, k), s->seed_d + k, 0, q->d + k, 0);
        blasfeo_dveccp(o_nc(dim, k), s->seed_m + k, 0, q->m + k, 0);
    }
}
static void rhs_to_seed(OQP *q, struct d_ocp_qp_seed *s)
{
    ODIM *dim = q->dim;
    for (int k = 0; k <= dim->N; k++)
    {
        blasfeo_dveccp(o_nv(dim, k), q->rqz + k, 0, s->seed_g + k, 0);
        if (k < dim->N) blasfeo_dveccp(dim->nx[k + 1], q->b + k, 0, s->seed_b + k, 0);
        blasfeo_dveccp(o_nc(dim, k), q->d + k, 0, s->seed_d + k, 0);
        blasfeo_dveccp(o_nc(dim, k), q->m + k, 0, s->seed_m + k, 0);
    }
}
static void tq_copy_seed(tmpqp *q, OQP *src, struct d_ocp_qp_seed *s)
{
    tq_new(q, src->dim);
    d_ocp_qp_copy_all(src, &q->qp);
    rhs_from_seed(&q->qp, s);
}

void d_ocp_qp_reduce_eq_dof_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red_seed,
                                 struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    tmpqp a, b;
    tq_copy_seed(&a, qp, seed);
    tq_new(&b, red_seed->dim);
    struct d_ocp_qp_reduce_eq_dof_arg ar = *arg;
    ar.alias_unchanged = 0;
    d_ocp_qp_reduce_eq_dof(&a.qp, &b.qp, &ar, ws);
    rhs_to_seed(&b.qp, red_seed);
    free(a.mem); free(b.mem);
}

void d_ocp_qp_restore_eq_dof_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red_sol,
                                  struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg,
                                  struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    tmpqp a;
    tq_copy_seed(&a, qp, seed);
    d_ocp_qp_restore_eq_dof(&a.qp, red_sol, sol, arg, ws);
    free(a.mem);
}

void d_cond_qp_cond_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *ds,
                         struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    tmpqp a;
    tq_copy_seed(&a, qp, seed);
    struct d_dense_qp dq;
    void *m = xmalloc(d_dense_qp_memsize(ds->dim));
    d_dense_qp_create(ds->dim, &dq, m);
    d_cond_qp_cond(&a.qp, &dq, arg, ws);
    struct d_dense_qp_dim *d = ds->dim;
    int nc = 2 * d->nb + 2 * d->ng + 2 * d->ns;
    blasfeo_dveccp(d->nv + 2 * d->ns, dq.gz, 0, ds->seed_g, 0);
    blasfeo_dveccp(d->ne, dq.b, 0, ds->seed_b, 0);
    blasfeo_dveccp(nc, dq.d, 0, ds->seed_d, 0);
    blasfeo_dveccp(nc, dq.m, 0, ds->seed_m, 0);
    free(m); free(a.mem);
}

void d_cond_qp_expand_sol_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol,
                               struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    tmpqp a;
    tq_copy_seed(&a, qp, seed);
    d_cond_qp_expand_sol(&a.qp, dsol, sol, arg, ws);
    free(a.mem);
}

void vp_part_cond_qp_expand_sol(OQP *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol,
                                struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    OQP fake;
    memset(&fake, 0, sizeof(fake));
    fake.dim = psol->dim;
    d_part_cond_qp_expand_sol(qp, &fake, psol, sol, arg, ws);
}

void vp_part_cond_qp_cond_rhs(OQP *qp, OQP *pqp, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    d_part_cond_qp_cond(qp, pqp, arg, ws);
}

void vp_cond_qp_cond_rhs(OQP *qp, struct d_dense_qp *dq, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    d_cond_qp_cond(qp, dq, arg, ws);
}

void d_part_cond_qp_cond_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pseed,
                              struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    tmpqp a, b;
    tq_copy_seed(&a, qp, seed);
    tq_new(&b, pseed->dim);
    d_part_cond_qp_cond(&a.qp, &b.qp, arg, ws);
    rhs_to_seed(&b.qp, pseed);
    free(a.mem); free(b.mem);
}

void d_part_cond_qp_expand_sol_seed(OQP *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol,
                                    struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg,
                                    struct d_part_cond_qp_ws *ws)
{
    tmpqp a;
    tq_copy_seed(&a, qp, seed);
    vp_part_cond_qp_expand_sol(&a.qp, psol, sol, arg, ws);
    free(a.mem);
}

/* restrict a full solution to the variables that survive the elimination of x0 & co */
void d_ocp_qp_reduce_eq_dof_sol(OQP *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red,
                                struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    ODIM *dim = qp->dim;
    for (int k = 0; k <= dim->N; k++)
    {
        int nu = dim->nu[k], nx = dim->nx[k], nb = dim->nb[k], ng = dim->ng[k], ns = dim->ns[k], nux = nu + nx;
        int ne = dim->nbue[k] + dim->nbxe[k];
        char *ev = xmalloc(nux + 1), *ec = xmalloc(nb + 1);
        for (int i = 0; i < ne; i++)
        {
            ec[qp->idxe[k][i]] = 1;
            ev[qp->idxb[k][qp->idxe[k][i]]] = 1;
        }
        int j = 0;
        for (int i = 0; i < nux; i++)
            if (!ev[i]) BLASFEO_DVECEL(red->ux + k, j++) = BLASFEO_DVECEL(sol->ux + k, i);
        for (int i = 0; i < 2 * ns; i++) BLASFEO_DVECEL(red->ux + k, j++) = BLASFEO_DVECEL(sol->ux + k, nux + i);
        if (k < dim->N) blasfeo_dveccp(dim->nx[k + 1], sol->pi + k, 0, red->pi + k, 0);
        j = 0;
        for (int side = 0; side < 2; side++)
            for (int i = 0; i < nb + ng; i++)
                if (i >= nb || !ec[i])
                {
                    BLASFEO_DVECEL(red->lam + k, j) = BLASFEO_DVECEL(sol->lam + k, side * (nb + ng) + i);
                    BLASFEO_DVECEL(red->t + k, j) = BLASFEO_DVECEL(sol->t + k, side * (nb + ng) + i);
                    j++;
                }
        for (int i = 0; i < 2 * ns; i++)
        {
            BLASFEO_DVECEL(red->lam + k, j) = BLASFEO_DVECEL(sol->lam + k, 2 * (nb + ng) + i);
            BLASFEO_DVECEL(red->t + k, j) = BLASFEO_DVECEL(sol->t + k, 2 * (nb + ng) + i);
            j++;
        }
        free(ev); free(ec);
    }
}

/* The condensed solution is a selection of entries of the full one; which ones is
 * found by expanding a solution whose entries are labels. */
void d_cond_qp_cond_sol(OQP *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *ds,
                        struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_dense_qp_dim *dd = ds->dim;
    ODIM *dim = qp->dim;
    int nvs = dd->nv + 2 * dd->ns, nc = 2 * dd->nb + 2 * dd->ng + 2 * dd->ns;
    struct d_dense_qp_sol lab;
    struct d_ocp_qp_sol ex;
    void *m1 = xmalloc(d_dense_qp_sol_memsize(dd)), *m2 = xmalloc(d_ocp_qp_sol_memsize(dim));
    d_dense_qp_sol_create(dd, &lab, m1);
    d_ocp_qp_sol_create(dim, &ex, m2);
    for (int i = 0; i < nvs; i++) BLASFEO_DVECEL(lab.v, i) = i + 1;
    for (int i = 0; i < nc; i++) BLASFEO_DVECEL(lab.lam, i) = BLASFEO_DVECEL(lab.t, i) = i + 1;
    d_cond_qp_expand_sol(qp, &lab, &ex, arg, ws);
    for (int k = 0; k <= dim->N; k++)
    {
        int nux = dim->nu[k] + dim->nx[k];
        for (int i = 0; i < o_nv(dim, k); i++)
        {
            if (k > 0 && i >= dim->nu[k] && i < nux) continue;   /* states are eliminated */
            int l = (int) BLASFEO_DVECEL(ex.ux + k, i) - 1;
            if (l >= 0 && l < nvs) BLASFEO_DVECEL(ds->v, l) = BLASFEO_DVECEL(sol->ux + k, i);
        }
        for (int i = 0; i < o_nc(dim, k); i++)
        {
            int l = (int) BLASFEO_DVECEL(ex.lam + k, i) - 1;
            if (l >= 0 && l < nc)
            {
                BLASFEO_DVECEL(ds->lam, l) = BLASFEO_DVECEL(sol->lam + k, i);
                BLASFEO_DVECEL(ds->t, l) = BLASFEO_DVECEL(sol->t + k, i);
            }
        }
    }
    free(m1); free(m2);
}

void d_part_cond_qp_cond_sol(OQP *qp, OQP *pqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *ps,
                             struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    ODIM *pd = ps->dim, *dim = qp->dim;
    struct d_ocp_qp_sol lab, ex;
    void *m1 = xmalloc(d_ocp_qp_sol_memsize(pd)), *m2 = xmalloc(d_ocp_qp_sol_memsize(dim));
    d_ocp_qp_sol_create(pd, &lab, m1);
    d_ocp_qp_sol_create(dim, &ex, m2);
    int ov = 0, oc = 0;
    for (int k = 0; k <= pd->N; k++)
    {
        for (int i = 0; i < o_nv(pd, k); i++) BLASFEO_DVECEL(lab.ux + k, i) = ++ov;
        for (int i = 0; i < o_nc(pd, k); i++) BLASFEO_DVECEL(lab.lam + k, i) = BLASFEO_DVECEL(lab.t + k, i) = ++oc;
    }
    double **pv = xmalloc(sizeof(double *) * (ov + 1)), **pl = xmalloc(sizeof(double *) * (oc + 1)), **pt = xmalloc(sizeof(double *) * (oc + 1));
    ov = oc = 0;
    for (int k = 0; k <= pd->N; k++)
    {
        for (int i = 0; i < o_nv(pd, k); i++) pv[++ov] = &BLASFEO_DVECEL(ps->ux + k, i);
        for (int i = 0; i < o_nc(pd, k); i++)
        {
            pl[++oc] = &BLASFEO_DVECEL(ps->lam + k, i);
            pt[oc] = &BLASFEO_DVECEL(ps->t + k, i);
        }
    }
    vp_part_cond_qp_expand_sol(qp, &lab, &ex, arg, ws);
    int k = 0;
    for (int p = 0; p <= pd->N; p++)
    {
        int bs = ws->cond_workspace[p].bs;
        int last = p == pd->N ? dim->N : k + bs - 1;
        for (int kk = k; kk <= last; kk++)
        {
            int nux = dim->nu[kk] + dim->nx[kk];
            for (int i = 0; i < o_nv(dim, kk); i++)
            {
                if (kk > k && i >= dim->nu[kk] && i < nux) continue;
                int l = (int) BLASFEO_DVECEL(ex.ux + kk, i);
                if (l >= 1 && l <= ov) *pv[l] = BLASFEO_DVECEL(sol->ux + kk, i);
            }
            for (int i = 0; i < o_nc(dim, kk); i++)
            {
                int l = (int) BLASFEO_DVECEL(ex.lam + kk, i);
                if (l >= 1 && l <= oc)
                {
                    *pl[l] = BLASFEO_DVECEL(sol->lam + kk, i);
                    *pt[l] = BLASFEO_DVECEL(sol->t + kk, i);
                }
            }
        }
        if (p < pd->N) blasfeo_dveccp(pd->nx[p + 1], sol->pi + last, 0, ps->pi + p, 0);
        k = last + 1;
    }
    free(pv); free(pl); free(pt); free(m1); free(m2);
}

void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value);
void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value)
{
    *value = dim->nv;
}
