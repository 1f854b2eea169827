/* Assumed contract on the HPIPM dependency: the structures the project accesses and the
 * functions it calls (declared without prototypes; meaning given by the checks). */
#ifndef VF_HPIPM_ALL_H_
#define VF_HPIPM_ALL_H_
#include "../../blasfeo_d_blas.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef size_t hpipm_size_t;
enum hpipm_mode { SPEED_ABS, SPEED, BALANCE, ROBUST };
enum hpipm_status { SUCCESS, MAX_ITER, MIN_STEP, NAN_SOL, INCONS_EQ };
struct d_ocp_qp_dim { int *nx, *nu, *nb, *nbx, *nbu, *ng, *ns, *nsbx, *nsbu, *nsg, *nbxe, *nbue, *nge; int N; hpipm_size_t memsize; };
struct d_ocp_qp { struct d_ocp_qp_dim *dim; struct blasfeo_dmat *BAbt, *RSQrq, *DCt; struct blasfeo_dvec *b, *rqz, *d, *d_mask, *m, *Z; int **idxb, **idxs_rev, **idxe; int *diag_H_flag; hpipm_size_t memsize; };
struct d_ocp_qp_sol { struct d_ocp_qp_dim *dim; struct blasfeo_dvec *ux, *pi, *lam, *t; void *misc; hpipm_size_t memsize; };
struct d_ocp_qp_seed { struct d_ocp_qp_dim *dim; struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m; hpipm_size_t memsize; };
struct d_ocp_qp_res { struct d_ocp_qp_dim *dim; struct blasfeo_dvec *res_g, *res_b, *res_d, *res_m; double res_max[4]; double res_mu; double obj; hpipm_size_t memsize; };
struct d_ocp_qp_res_ws { struct blasfeo_dvec *tmp_nbgM, *tmp_nsM; hpipm_size_t memsize; };
struct d_ocp_qp_ipm_arg { double mu0, alpha_min, res_g_max, res_b_max, res_d_max, res_m_max, dual_gap_max, reg_prim, lam_min, t_min, tau_min, lam0_min, t0_min; int iter_max, stat_max, pred_corr, cond_pred_corr, itref_pred_max, itref_corr_max, warm_start, square_root_alg, lq_fact, abs_form, comp_dual_sol_eq, comp_res_exit, comp_res_pred, split_step, var_init_scheme, t_lam_min, mode; hpipm_size_t memsize; };
struct d_ocp_qp_ipm_ws { struct d_ocp_qp_res *res; double *stat; int iter, stat_max, stat_m, status; hpipm_size_t memsize; };
struct d_ocp_qp_reduce_eq_dof_ws { hpipm_size_t memsize; };
struct d_ocp_qp_reduce_eq_dof_arg { double lam_min, t_min; int alias_unchanged, comp_prim_sol, comp_dual_sol_eq, comp_dual_sol_ineq; hpipm_size_t memsize; };
struct d_dense_qp_dim { int nv, ne, nb, ng, nsb, nsg, ns; hpipm_size_t memsize; };
struct d_dense_qp { struct d_dense_qp_dim *dim; struct blasfeo_dmat *Hv, *A, *Ct; struct blasfeo_dvec *gz, *b, *d, *d_mask, *m, *Z; int *idxb, *idxs_rev; hpipm_size_t memsize; };
struct d_dense_qp_sol { struct d_dense_qp_dim *dim; struct blasfeo_dvec *v, *pi, *lam, *t; void *misc; hpipm_size_t memsize; };
struct d_dense_qp_seed { struct d_dense_qp_dim *dim; struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m; hpipm_size_t memsize; };
struct d_dense_qp_res { struct d_dense_qp_dim *dim; struct blasfeo_dvec *res_g, *res_b, *res_d, *res_m; double res_max[4]; double res_mu; double obj; hpipm_size_t memsize; };
struct d_dense_qp_res_ws { struct blasfeo_dvec *tmp_nbg, *tmp_ns; hpipm_size_t memsize; };
struct d_dense_qp_ipm_arg { double mu0, alpha_min, res_g_max, res_b_max, res_d_max, res_m_max, reg_prim, reg_dual, lam_min, t_min, tau_min; int iter_max, stat_max, pred_corr, cond_pred_corr, scale, itref_pred_max, itref_corr_max, warm_start, lq_fact, abs_form, comp_res_exit, comp_res_pred, kkt_fact_alg, remove_lin_dep_eq, compute_obj, split_step, var_init_scheme, t_lam_min, mode; hpipm_size_t memsize; };
struct d_dense_qp_ipm_ws { struct d_dense_qp_res *res; double *stat; int iter, stat_max, stat_m, status; hpipm_size_t memsize; };
struct d_cond_qp_arg { int cond_last_stage, cond_alg, comp_prim_sol, comp_dual_sol_eq, comp_dual_sol_ineq, square_root_alg; hpipm_size_t memsize; };
struct d_cond_qp_ws { hpipm_size_t memsize; };
struct d_part_cond_qp_arg { struct d_cond_qp_arg *cond_arg; int N2; hpipm_size_t memsize; };
struct d_part_cond_qp_ws { hpipm_size_t memsize; };
void d_compute_qp_size_ocp2dense_rev();
void d_cond_qp_arg_create();
hpipm_size_t d_cond_qp_arg_memsize();
void d_cond_qp_arg_set_default();
void d_cond_qp_arg_set_ric_alg();
void d_cond_qp_compute_dim();
void d_cond_qp_cond();
void d_cond_qp_cond_lhs();
void d_cond_qp_cond_rhs();
void d_cond_qp_cond_seed();
void d_cond_qp_cond_sol();
void d_cond_qp_expand_sol();
void d_cond_qp_expand_sol_seed();
void d_cond_qp_ws_create();
hpipm_size_t d_cond_qp_ws_memsize();
void d_cvt_ocp_qp_sol_to_colmaj();
void d_dense_qp_codegen();
void d_dense_qp_codegen_matlab();
void d_dense_qp_create();
void d_dense_qp_dim_codegen();
void d_dense_qp_dim_create();
void d_dense_qp_dim_get();
void d_dense_qp_dim_get_nv();
hpipm_size_t d_dense_qp_dim_memsize();
void d_dense_qp_dim_set();
void d_dense_qp_get_A();
void d_dense_qp_get_C();
void d_dense_qp_get_H();
void d_dense_qp_get_Zl();
void d_dense_qp_get_Zu();
void d_dense_qp_get_all();
void d_dense_qp_get_all_rowmaj();
void d_dense_qp_get_b();
void d_dense_qp_get_g();
void d_dense_qp_get_idxb();
void d_dense_qp_get_idxs();
void d_dense_qp_get_lb();
void d_dense_qp_get_lg();
void d_dense_qp_get_ub();
void d_dense_qp_get_ug();
void d_dense_qp_get_zl();
void d_dense_qp_get_zu();
void d_dense_qp_ipm_arg_codegen();
void d_dense_qp_ipm_arg_create();
void d_dense_qp_ipm_arg_get();
hpipm_size_t d_dense_qp_ipm_arg_memsize();
void d_dense_qp_ipm_arg_set();
void d_dense_qp_ipm_arg_set_default();
void d_dense_qp_ipm_get_stat();
void d_dense_qp_ipm_get_stat_m();
void d_dense_qp_ipm_get_status();
void d_dense_qp_ipm_sens_adj();
void d_dense_qp_ipm_sens_frw();
void d_dense_qp_ipm_solve();
void d_dense_qp_ipm_ws_create();
hpipm_size_t d_dense_qp_ipm_ws_memsize();
hpipm_size_t d_dense_qp_memsize();
void d_dense_qp_res_compute();
void d_dense_qp_res_create();
hpipm_size_t d_dense_qp_res_memsize();
void d_dense_qp_res_ws_create();
hpipm_size_t d_dense_qp_res_ws_memsize();
void d_dense_qp_seed_create();
hpipm_size_t d_dense_qp_seed_memsize();
void d_dense_qp_set_A();
void d_dense_qp_set_C();
void d_dense_qp_set_H();
void d_dense_qp_set_Zl();
void d_dense_qp_set_Zu();
void d_dense_qp_set_b();
void d_dense_qp_set_g();
void d_dense_qp_set_idxb();
void d_dense_qp_set_idxs();
void d_dense_qp_set_lb();
void d_dense_qp_set_lg();
void d_dense_qp_set_m_all();
void d_dense_qp_set_ub();
void d_dense_qp_set_ug();
void d_dense_qp_set_zl();
void d_dense_qp_set_zu();
void d_dense_qp_sol_create();
hpipm_size_t d_dense_qp_sol_memsize();
void d_ocp_qp_codegen();
void d_ocp_qp_create();
void d_ocp_qp_dim_codegen();
void d_ocp_qp_dim_copy_all();
void d_ocp_qp_dim_create();
void d_ocp_qp_dim_get();
hpipm_size_t d_ocp_qp_dim_memsize();
void d_ocp_qp_dim_print();
void d_ocp_qp_dim_reduce_eq_dof();
void d_ocp_qp_dim_set();
void d_ocp_qp_get_A();
void d_ocp_qp_get_B();
void d_ocp_qp_get_C();
void d_ocp_qp_get_D();
void d_ocp_qp_get_Q();
void d_ocp_qp_get_R();
void d_ocp_qp_get_S();
void d_ocp_qp_get_Zl();
void d_ocp_qp_get_Zu();
void d_ocp_qp_get_b();
void d_ocp_qp_get_idxb();
void d_ocp_qp_get_idxe();
void d_ocp_qp_get_idxs();
void d_ocp_qp_get_idxs_rev();
void d_ocp_qp_get_lbu();
void d_ocp_qp_get_lbu_mask();
void d_ocp_qp_get_lbx();
void d_ocp_qp_get_lbx_mask();
void d_ocp_qp_get_lg();
void d_ocp_qp_get_lg_mask();
void d_ocp_qp_get_lls();
void d_ocp_qp_get_lls_mask();
void d_ocp_qp_get_lus();
void d_ocp_qp_get_lus_mask();
void d_ocp_qp_get_q();
void d_ocp_qp_get_r();
void d_ocp_qp_get_ubu();
void d_ocp_qp_get_ubu_mask();
void d_ocp_qp_get_ubx();
void d_ocp_qp_get_ubx_mask();
void d_ocp_qp_get_ug();
void d_ocp_qp_get_ug_mask();
void d_ocp_qp_get_zl();
void d_ocp_qp_get_zu();
void d_ocp_qp_ipm_arg_codegen();
void d_ocp_qp_ipm_arg_create();
void d_ocp_qp_ipm_arg_get();
hpipm_size_t d_ocp_qp_ipm_arg_memsize();
void d_ocp_qp_ipm_arg_print();
void d_ocp_qp_ipm_arg_set();
void d_ocp_qp_ipm_arg_set_default();
void d_ocp_qp_ipm_get_iter();
void d_ocp_qp_ipm_get_max_res_comp();
void d_ocp_qp_ipm_get_max_res_eq();
void d_ocp_qp_ipm_get_max_res_ineq();
void d_ocp_qp_ipm_get_max_res_stat();
void d_ocp_qp_ipm_get_ric_K();
void d_ocp_qp_ipm_get_ric_Lr();
void d_ocp_qp_ipm_get_ric_P();
void d_ocp_qp_ipm_get_ric_k();
void d_ocp_qp_ipm_get_ric_p();
void d_ocp_qp_ipm_get_stat();
void d_ocp_qp_ipm_get_stat_m();
void d_ocp_qp_ipm_get_status();
void d_ocp_qp_ipm_get_tau_iter();
void d_ocp_qp_ipm_sens_adj();
void d_ocp_qp_ipm_sens_frw();
void d_ocp_qp_ipm_solve();
void d_ocp_qp_ipm_ws_create();
hpipm_size_t d_ocp_qp_ipm_ws_memsize();
hpipm_size_t d_ocp_qp_memsize();
void d_ocp_qp_print();
void d_ocp_qp_reduce_eq_dof();
void d_ocp_qp_reduce_eq_dof_arg_create();
hpipm_size_t d_ocp_qp_reduce_eq_dof_arg_memsize();
void d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged();
void d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq();
void d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq();
void d_ocp_qp_reduce_eq_dof_arg_set_default();
void d_ocp_qp_reduce_eq_dof_lhs();
void d_ocp_qp_reduce_eq_dof_rhs();
void d_ocp_qp_reduce_eq_dof_seed();
void d_ocp_qp_reduce_eq_dof_sol();
void d_ocp_qp_reduce_eq_dof_ws_create();
hpipm_size_t d_ocp_qp_reduce_eq_dof_ws_memsize();
void d_ocp_qp_res_compute();
void d_ocp_qp_res_create();
void d_ocp_qp_res_get_all();
hpipm_size_t d_ocp_qp_res_memsize();
void d_ocp_qp_res_ws_create();
hpipm_size_t d_ocp_qp_res_ws_memsize();
void d_ocp_qp_restore_eq_dof();
void d_ocp_qp_restore_eq_dof_seed();
void d_ocp_qp_seed_create();
hpipm_size_t d_ocp_qp_seed_memsize();
void d_ocp_qp_seed_print();
void d_ocp_qp_seed_set_zero();
void d_ocp_qp_set();
void d_ocp_qp_set_A();
void d_ocp_qp_set_B();
void d_ocp_qp_set_C();
void d_ocp_qp_set_D();
void d_ocp_qp_set_Q();
void d_ocp_qp_set_R();
void d_ocp_qp_set_S();
void d_ocp_qp_set_b();
void d_ocp_qp_set_idxb();
void d_ocp_qp_set_lb();
void d_ocp_qp_set_lg();
void d_ocp_qp_set_m_all();
void d_ocp_qp_set_q();
void d_ocp_qp_set_r();
void d_ocp_qp_set_ub();
void d_ocp_qp_set_ug();
void d_ocp_qp_sol_copy_all();
void d_ocp_qp_sol_create();
void d_ocp_qp_sol_get_pi();
void d_ocp_qp_sol_get_sl();
void d_ocp_qp_sol_get_su();
void d_ocp_qp_sol_get_u();
void d_ocp_qp_sol_get_x();
hpipm_size_t d_ocp_qp_sol_memsize();
void d_ocp_qp_sol_print();
void d_part_cond_qp_arg_create();
hpipm_size_t d_part_cond_qp_arg_memsize();
void d_part_cond_qp_arg_set_default();
void d_part_cond_qp_arg_set_ric_alg();
void d_part_cond_qp_compute_block_size();
void d_part_cond_qp_compute_dim();
void d_part_cond_qp_cond();
void d_part_cond_qp_cond_lhs();
void d_part_cond_qp_cond_rhs();
void d_part_cond_qp_cond_seed();
void d_part_cond_qp_cond_sol();
void d_part_cond_qp_expand_sol();
void d_part_cond_qp_expand_sol_seed();
void d_part_cond_qp_ws_create();
hpipm_size_t d_part_cond_qp_ws_memsize();
#ifdef __cplusplus
}
#endif
#endif
