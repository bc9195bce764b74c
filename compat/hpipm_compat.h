/* Declarations that the acados commit under test expects from HPIPM and that the
 * HPIPM shipped with the CasADi wheel does not have (or has with another
 * signature).  Part of the environment, not of the code under test. */
#ifndef VP_HPIPM_COMPAT_H_
#define VP_HPIPM_COMPAT_H_
#include <hpipm_common.h>
#include <hpipm_d_ocp_qp_dim.h>
#include <hpipm_d_ocp_qp.h>
#include <hpipm_d_ocp_qp_sol.h>
#include <hpipm_d_ocp_qp_ipm.h>
#include <hpipm_d_ocp_qp_red.h>
#include <hpipm_d_dense_qp_dim.h>
#include <hpipm_d_dense_qp.h>
#include <hpipm_d_dense_qp_sol.h>
#include <hpipm_d_dense_qp_ipm.h>
#include <hpipm_d_cond.h>
#include <hpipm_d_part_cond.h>
#ifdef __cplusplus
extern "C" {
#endif

struct d_ocp_qp_seed {
    struct d_ocp_qp_dim *dim;
    struct blasfeo_dvec *seed_g;
    struct blasfeo_dvec *seed_b;
    struct blasfeo_dvec *seed_d;
    struct blasfeo_dvec *seed_m;
    hpipm_size_t memsize;
};
struct d_dense_qp_seed {
    struct d_dense_qp_dim *dim;
    struct blasfeo_dvec *seed_g;
    struct blasfeo_dvec *seed_b;
    struct blasfeo_dvec *seed_d;
    struct blasfeo_dvec *seed_m;
    hpipm_size_t memsize;
};
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim);
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *seed, void *mem);
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *seed);
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim);
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed, void *mem);
void d_dense_qp_seed_set_zero(struct d_dense_qp_seed *seed);

void d_ocp_qp_set_m_all(double *m, struct d_ocp_qp *qp);
void d_dense_qp_set_m_all(double *m, struct d_dense_qp *qp);
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec);

void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value);
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value);
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau);

void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red_sol,
                                struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red_seed,
                                 struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red_sol,
                                  struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg,
                                  struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol,
                        struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *dseed,
                         struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol,
                               struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_ocp_qp_sol *sol,
                             struct d_ocp_qp_sol *psol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pseed,
                              struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol,
                                    struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg,
                                    struct d_part_cond_qp_ws *ws);
/* signature differences */
void vp_red_arg_set_alias_unchanged(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vp_red_arg_set_comp_prim_sol(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vp_red_arg_set_comp_dual_sol_eq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vp_red_arg_set_comp_dual_sol_ineq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
/* the rhs-only condensing of the wheel's HPIPM mixes up upper bounds of softened state bounds:
 * condense completely instead (same result by definition of the split) */
void vp_part_cond_qp_cond_rhs(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void vp_cond_qp_cond_rhs(struct d_ocp_qp *qp, struct d_dense_qp *dq, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void vp_part_cond_qp_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol,
                                struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void vp_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg);
void vp_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg);
void vp_ocp_qp_ipm_arg_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_ipm_arg *arg, void *mem);
void vp_dense_qp_ipm_arg_create(struct d_dense_qp_dim *dim, struct d_dense_qp_ipm_arg *arg, void *mem);
void vp_ocp_qp_ipm_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg,
                         struct d_ocp_qp_ipm_ws *ws);
void vp_dense_qp_ipm_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg,
                           struct d_dense_qp_ipm_ws *ws);

#ifndef VP_HPIPM_COMPAT_IMPL
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged vp_red_arg_set_alias_unchanged
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol vp_red_arg_set_comp_prim_sol
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq vp_red_arg_set_comp_dual_sol_eq
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq vp_red_arg_set_comp_dual_sol_ineq
#define d_part_cond_qp_expand_sol vp_part_cond_qp_expand_sol
#define d_part_cond_qp_cond_rhs vp_part_cond_qp_cond_rhs
#define d_cond_qp_cond_rhs vp_cond_qp_cond_rhs
#define d_ocp_qp_ipm_arg_set vp_ocp_qp_ipm_arg_set
#define d_dense_qp_ipm_arg_set vp_dense_qp_ipm_arg_set
#define d_ocp_qp_ipm_arg_create vp_ocp_qp_ipm_arg_create
#define d_dense_qp_ipm_arg_create vp_dense_qp_ipm_arg_create
#define d_ocp_qp_ipm_solve vp_ocp_qp_ipm_solve
#define d_dense_qp_ipm_solve vp_dense_qp_ipm_solve
#endif
#ifdef __cplusplus
}
#endif
#endif
