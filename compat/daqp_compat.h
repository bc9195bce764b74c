/* Stand-in for the DAQP headers/solver core that acados' adapter expects.
 * The DAQP of the CasADi wheel is older and was built without SOFT_WEIGHTS, so
 * its LDP core cannot be used with the adapter of this commit.  The core
 * (daqp_ldp) is replaced by an HPIPM dense solve of the same LDP
 *     min 0.5 u'u + sum_soft 0.5 rho s^2
 *     s.t. dlower - rho_ls (sl - d_ls) <= M u <= dupper + rho_us (su - d_us),
 *          sl >= d_ls, su >= d_us. */
#ifndef VP_DAQP_COMPAT_H
#define VP_DAQP_COMPAT_H
typedef double c_float;
#define DAQP_INF ((c_float)1e30)
#define DAQP_DEFAULT_RHO_SOFT 1e-3
#define DAQP_EXIT_SOFT_OPTIMAL 2
#define DAQP_EXIT_OPTIMAL 1
#define DAQP_EXIT_INFEASIBLE -1
#define DAQP_EXIT_CYCLE -2
#define DAQP_EXIT_UNBOUNDED -3
#define DAQP_EXIT_ITERLIMIT -4
#define DAQP_ACTIVE 1
#define DAQP_LOWER 2
#define DAQP_IMMUTABLE 4
#define DAQP_SOFT 8
#define DAQP_BINARY 16
#define DAQP_SLACK_FIXED 32
#define DAQP_IS_IMMUTABLE(x) (work->sense[x]&4)
#define DAQP_IS_SOFT(x) (work->sense[x]&8)
typedef struct { int n, m, ms; c_float *H, *f, *A, *bupper, *blower; int *sense; } DAQPProblem;
typedef struct {
    c_float primal_tol, dual_tol, zero_tol, pivot_tol, progress_tol;
    int cycle_tol, iter_limit;
    c_float fval_bound, eps_prox, eta_prox, rho_soft, rel_subopt, abs_subopt, sing_tol, refactor_tol, time_limit;
} DAQPSettings;
typedef struct {
    DAQPProblem *qp;
    int n, m, ms;
    c_float *M, *dupper, *dlower, *Rinv, *v;
    int *sense;
    c_float *scaling, *RinvD;
    c_float *x, *xold, *lam, *lam_star, *u, fval;
    c_float *L, *D, *xldl, *zldl;
    int reuse_ind;
    int *WS;
    int n_active, iterations, sing_ind;
    c_float soft_slack;
    c_float *d_ls, *d_us, *rho_ls, *rho_us;
    DAQPSettings *settings;
    void *bnb, *timer, *avi;
    c_float *Mu, *break_points;
    int n_prox, nh;
    int *prox_mask;
} DAQPWorkspace;
void daqp_default_settings(DAQPSettings *settings);
int daqp_check_bounds(DAQPWorkspace *work, c_float *bupper, c_float *blower);
void reset_daqp_workspace(DAQPWorkspace *work);
int daqp_activate_constraints(DAQPWorkspace *work);
int daqp_ldp(DAQPWorkspace *work);
#endif
