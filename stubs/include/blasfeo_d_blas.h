#ifndef VF_BLASFEO_D_BLAS_H_
#define VF_BLASFEO_D_BLAS_H_
#include "blasfeo_d_aux.h"
#ifdef __cplusplus
extern "C" {
#endif
void blasfeo_daxpy(int m, double alpha, vf_v *sx, int xi, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_daxpby(int m, double alpha, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dvecmul(int m, vf_v *sx, int xi, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dvecmulacc(int m, vf_v *sx, int xi, vf_v *sy, int yi, vf_v *sz, int zi);
double blasfeo_dvecmuldot(int m, vf_v *sx, int xi, vf_v *sy, int yi, vf_v *sz, int zi);
double blasfeo_ddot(int m, vf_v *sx, int xi, vf_v *sy, int yi);
void blasfeo_dgemv_n(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dgemv_t(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dgemv_d(int m, double alpha, vf_v *sA, int ai, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dsymv_l(int m, double alpha, vf_m *sA, int ai, int aj, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dsymv_l_mn(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_v *sx, int xi, double beta, vf_v *sy, int yi, vf_v *sz, int zi);
void blasfeo_dtrmv_lnn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrmv_ltn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_lnn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_lnu(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_ltn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_ltu(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_unn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dtrsv_utn(int m, vf_m *sA, int ai, int aj, vf_v *sx, int xi, vf_v *sz, int zi);
void blasfeo_dgemm_nn(int m, int n, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgemm_nt(int m, int n, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgemm_tn(int m, int n, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgemm_tt(int m, int n, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgemm_nd(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_v *sB, int bi, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgemm_dn(int m, int n, double alpha, vf_v *sA, int ai, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dsyrk_ln(int m, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dsyrk_ln_mn(int m, int n, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dsyrk_ut(int m, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dsyr2k_ln(int m, int k, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, double beta, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dtrmm_rlnn(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, vf_m *sD, int di, int dj);
void blasfeo_dtrsm_lunn(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, vf_m *sD, int di, int dj);
void blasfeo_dtrsm_llnu(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, vf_m *sD, int di, int dj);
void blasfeo_dtrsm_llnn(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, vf_m *sD, int di, int dj);
void blasfeo_dtrsm_rltn(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj, vf_m *sD, int di, int dj);
void blasfeo_dpotrf_l(int m, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dpotrf_l_mn(int m, int n, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj);
void blasfeo_dgetrf_rp(int m, int n, vf_m *sC, int ci, int cj, vf_m *sD, int di, int dj, int *ipiv);
#ifdef __cplusplus
}
#endif
#endif
