#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "blasfeo_target.h"
#include "blasfeo_common.h"
#include "blasfeo_d_aux.h"
#include "hpipm_d_dense_qp_dim.h"
#include "hpipm_d_dense_qp.h"
#include "hpipm_d_dense_qp_sol.h"
#include "hpipm_d_dense_qp_ipm.h"
#include "daqp_compat.h"

void daqp_default_settings(DAQPSettings *s)
{
    memset(s, 0, sizeof(*s));
    s->primal_tol = 1e-6; s->dual_tol = 1e-12; s->zero_tol = 1e-11; s->pivot_tol = 1e-6;
    s->progress_tol = 1e-14; s->cycle_tol = 10; s->iter_limit = 1000; s->fval_bound = DAQP_INF;
    s->eta_prox = 1e-6; s->rho_soft = 1e-3;
}

int daqp_check_bounds(DAQPWorkspace *work, c_float *bupper, c_float *blower)
{
    int i, act = 0;
    for (i = 0; i < work->m; i++)
    {
        if (DAQP_IS_IMMUTABLE(i)) continue;
        double diff = bupper[i] - blower[i];
        if (diff < -work->settings->primal_tol && !DAQP_IS_SOFT(i)) return DAQP_EXIT_INFEASIBLE;
        if (fabs(diff) < work->settings->zero_tol && !DAQP_IS_SOFT(i))
        {
            work->sense[i] |= DAQP_ACTIVE | DAQP_IMMUTABLE;
            act = 1;
        }
    }
    return act;
}

void reset_daqp_workspace(DAQPWorkspace *work)
{
    work->iterations = 0; work->sing_ind = -1; work->soft_slack = 0; work->n_active = 0;
    work->reuse_ind = 0; work->fval = 0;
}

int daqp_activate_constraints(DAQPWorkspace *work) { (void) work; return 1; }

static void *xalloc(size_t n)
{
    void *p = NULL;
    if (posix_memalign(&p, 64, n + 64)) abort();
    memset(p, 0, n + 64);
    return p;
}

int daqp_ldp(DAQPWorkspace *work)
{
    int n = work->n, m = work->m, i, j;
    int ne = 0, ng = 0, ns = 0;
    int *eq = malloc((m + 1) * sizeof(int)), *in = malloc((m + 1) * sizeof(int)), *so = malloc((m + 1) * sizeof(int));
    for (i = 0; i < m; i++)
    {
        if (DAQP_IS_IMMUTABLE(i))
        {
            if (work->sense[i] & DAQP_ACTIVE) eq[ne++] = i;
        }
        else
        {
            if (DAQP_IS_SOFT(i)) so[ns++] = ng;
            in[ng++] = i;
        }
    }
    void *dm = xalloc(d_dense_qp_dim_memsize());
    struct d_dense_qp_dim dim;
    d_dense_qp_dim_create(&dim, dm);
    d_dense_qp_dim_set_all(n, ne, 0, ng, 0, ns, &dim);
    void *qm = xalloc(d_dense_qp_memsize(&dim));
    struct d_dense_qp qp;
    d_dense_qp_create(&dim, &qp, qm);
    void *sm = xalloc(d_dense_qp_sol_memsize(&dim));
    struct d_dense_qp_sol sol;
    d_dense_qp_sol_create(&dim, &sol, sm);
    void *am = xalloc(d_dense_qp_ipm_arg_memsize(&dim));
    struct d_dense_qp_ipm_arg arg;
    d_dense_qp_ipm_arg_create(&dim, &arg, am);
    d_dense_qp_ipm_arg_set_default(ROBUST, &arg);
    double tol = 1e-12, treg = 1e-14, lm = 1e-16;
    int itmax = 200;
    d_dense_qp_ipm_arg_set_tol_stat(&tol, &arg);
    d_dense_qp_ipm_arg_set_tol_eq(&tol, &arg);
    d_dense_qp_ipm_arg_set_tol_ineq(&tol, &arg);
    d_dense_qp_ipm_arg_set_tol_comp(&tol, &arg);
    d_dense_qp_ipm_arg_set_iter_max(&itmax, &arg);
    (void) treg; (void) lm;

    blasfeo_dgese(n, n, 0.0, qp.Hv, 0, 0);
    blasfeo_dvecse(n + 2 * ns, 0.0, qp.gz, 0);
    for (i = 0; i < n; i++) BLASFEO_DMATEL(qp.Hv, i, i) = 1.0;
    for (i = 0; i < ne; i++)
    {
        for (j = 0; j < n; j++) BLASFEO_DMATEL(qp.A, i, j) = work->M[eq[i] * n + j];
        BLASFEO_DVECEL(qp.b, i) = (work->sense[eq[i]] & DAQP_LOWER) ? work->dlower[eq[i]] : work->dupper[eq[i]];
    }
    blasfeo_dvecse(2 * ng + 2 * ns, 1.0, qp.d_mask, 0);
    for (i = 0; i < ng; i++)
    {
        int c = in[i];
        for (j = 0; j < n; j++) BLASFEO_DMATEL(qp.Ct, j, i) = work->M[c * n + j];
        double lo = work->dlower[c], up = work->dupper[c];
        /* bounds of magnitude DAQP_INF (possibly scaled) are absent */
        if (lo < -1e19) { lo = -1e3; BLASFEO_DVECEL(qp.d_mask, i) = 0.0; }
        if (up > 1e19) { up = 1e3; BLASFEO_DVECEL(qp.d_mask, ng + i) = 0.0; }
        BLASFEO_DVECEL(qp.d, i) = lo;
        BLASFEO_DVECEL(qp.d, ng + i) = -up;
        qp.idxs_rev[i] = -1;
    }
    for (i = 0; i < ns; i++)
    {
        int g = so[i], c = in[g];
        qp.idxs_rev[g] = i;
        /* slack in constraint units: t = rho (s - d) >= 0, cost 0.5 rho s^2 = 0.5 t^2 / rho + d t + const */
        BLASFEO_DVECEL(qp.Z, i) = 1.0 / work->rho_ls[c];
        BLASFEO_DVECEL(qp.Z, ns + i) = 1.0 / work->rho_us[c];
        BLASFEO_DVECEL(qp.gz, n + i) = work->d_ls[c];
        BLASFEO_DVECEL(qp.gz, n + ns + i) = work->d_us[c];
        BLASFEO_DVECEL(qp.d, 2 * ng + i) = 0.0;
        BLASFEO_DVECEL(qp.d, 2 * ng + ns + i) = 0.0;
    }
    void *wm = xalloc(d_dense_qp_ipm_ws_memsize(&dim, &arg));
    struct d_dense_qp_ipm_ws ws;
    d_dense_qp_ipm_ws_create(&dim, &arg, &ws, wm);
    d_dense_qp_ipm_solve(&qp, &sol, &arg, &ws);
    int status, iter;
    d_dense_qp_ipm_get_status(&ws, &status);
    d_dense_qp_ipm_get_iter(&ws, &iter);
    double rs, re, ri, rc;
    d_dense_qp_ipm_get_max_res_stat(&ws, &rs);
    d_dense_qp_ipm_get_max_res_eq(&ws, &re);
    d_dense_qp_ipm_get_max_res_ineq(&ws, &ri);
    d_dense_qp_ipm_get_max_res_comp(&ws, &rc);
    work->iterations = iter;

    double *lam = calloc(m + 1, sizeof(double)), umax = 0, lmax = 0;
    for (i = 0; i < ne; i++) lam[eq[i]] = -BLASFEO_DVECEL(sol.pi, i);
    for (i = 0; i < ng; i++) lam[in[i]] = BLASFEO_DVECEL(sol.lam, ng + i) - BLASFEO_DVECEL(sol.lam, i);
    for (i = 0; i < m; i++) lmax = fmax(lmax, fabs(lam[i]));
    for (j = 0; j < n; j++)
    {
        work->u[j] = BLASFEO_DVECEL(sol.v, j);
        umax = fmax(umax, fabs(work->u[j]));
    }
    work->n_active = 0;
    int cap = n + 1;
    for (i = 0; i < m; i++) if (DAQP_IS_SOFT(i)) cap++;
    char *used = calloc(m + 1, 1);
    for (i = 0; i < cap; i++)
    {
        int best = -1;
        for (j = 0; j < m; j++)
            if (!used[j] && fabs(lam[j]) > 1e-10 && (best < 0 || fabs(lam[j]) > fabs(lam[best]))) best = j;
        if (best < 0) break;
        used[best] = 1;
        work->WS[work->n_active] = best;
        work->lam_star[work->n_active] = lam[best];
        work->n_active++;
        work->sense[best] |= DAQP_ACTIVE;
        if (lam[best] < 0 && !DAQP_IS_IMMUTABLE(best)) work->sense[best] |= DAQP_LOWER;
    }
    for (j = 0; j < m; j++)
        if (!used[j] && !DAQP_IS_IMMUTABLE(j)) work->sense[j] &= ~(DAQP_ACTIVE | DAQP_LOWER);

    int ret;
    double sc = 1.0 + umax + lmax;
    int bad = !(rs < 1e-6 * sc) || !(re < 1e-6 * sc) || !(ri < 1e-6 * sc) || !(rc < 1e-6 * sc);
    if (iter > work->settings->iter_limit) ret = DAQP_EXIT_ITERLIMIT;
    else if (!bad) ret = ns > 0 ? DAQP_EXIT_SOFT_OPTIMAL : DAQP_EXIT_OPTIMAL;
    else ret = DAQP_EXIT_INFEASIBLE;
    free(used); free(lam); free(wm); free(am); free(sm); free(qm); free(dm); free(eq); free(in); free(so);
    return ret;
}
