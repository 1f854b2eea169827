#ifndef VF_BLASFEO_D_AUX_H_
#define VF_BLASFEO_D_AUX_H_
#include "blasfeo_common.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct blasfeo_dmat vf_m; typedef struct blasfeo_dvec vf_v;
size_t blasfeo_memsize_dmat(int m, int n);
size_t blasfeo_memsize_diag_dmat(int m, int n);
size_t blasfeo_memsize_dvec(int m);
void blasfeo_create_dmat(int m, int n, vf_m *sA, void *memory);
void blasfeo_create_dvec(int m, vf_v *sA, void *memory);
void blasfeo_pack_dmat(int m, int n, double *A, int lda, vf_m *sB, int bi, int bj);
void blasfeo_pack_tran_dmat(int m, int n, double *A, int lda, vf_m *sB, int bi, int bj);
void blasfeo_pack_dvec(int m, double *x, int xi, vf_v *sa, int ai);
void blasfeo_unpack_dmat(int m, int n, vf_m *sA, int ai, int aj, double *B, int ldb);
void blasfeo_unpack_tran_dmat(int m, int n, vf_m *sA, int ai, int aj, double *B, int ldb);
void blasfeo_unpack_dvec(int m, vf_v *sa, int ai, double *x, int xi);
void blasfeo_dgein1(double a, vf_m *sA, int ai, int aj);
double blasfeo_dgeex1(vf_m *sA, int ai, int aj);
void blasfeo_dvecin1(double a, vf_v *sx, int xi);
double blasfeo_dvecex1(vf_v *sx, int xi);
void blasfeo_dgese(int m, int n, double alpha, vf_m *sA, int ai, int aj);
void blasfeo_dvecse(int m, double alpha, vf_v *sx, int xi);
void blasfeo_dgecp(int m, int n, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dgesc(int m, int n, double alpha, vf_m *sA, int ai, int aj);
void blasfeo_dgecpsc(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dgead(int m, int n, double alpha, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dgetr(int m, int n, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dtrcp_l(int m, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dtrtr_l(int m, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_dtrtr_u(int m, vf_m *sA, int ai, int aj, vf_m *sB, int bi, int bj);
void blasfeo_ddiare(int kmax, double alpha, vf_m *sA, int ai, int aj);
void blasfeo_ddiain(int kmax, double alpha, vf_v *sx, int xi, vf_m *sA, int ai, int aj);
void blasfeo_ddiaad(int kmax, double alpha, vf_v *sx, int xi, vf_m *sA, int ai, int aj);
void blasfeo_ddiaad_sp(int kmax, double alpha, vf_v *sx, int xi, int *idx, vf_m *sA, int ai, int aj);
void blasfeo_drowin(int kmax, double alpha, vf_v *sx, int xi, vf_m *sA, int ai, int aj);
void blasfeo_drowex(int kmax, double alpha, vf_m *sA, int ai, int aj, vf_v *sx, int xi);
void blasfeo_drowsc(int kmax, double alpha, vf_m *sA, int ai, int aj);
void blasfeo_drowsw(int kmax, vf_m *sA, int ai, int aj, vf_m *sC, int ci, int cj);
void blasfeo_drowpe(int kmax, int *ipiv, vf_m *sA);
void blasfeo_drowpei(int kmax, int *ipiv, vf_m *sA);
void blasfeo_dcolex(int kmax, vf_m *sA, int ai, int aj, vf_v *sx, int xi);
void blasfeo_dcolin(int kmax, vf_v *sx, int xi, vf_m *sA, int ai, int aj);
void blasfeo_dcolsc(int kmax, double alpha, vf_m *sA, int ai, int aj);
void blasfeo_dcolpe(int kmax, int *ipiv, vf_m *sA);
void blasfeo_dcolpei(int kmax, int *ipiv, vf_m *sA);
void blasfeo_dveccp(int m, vf_v *sa, int ai, vf_v *sc, int ci);
void blasfeo_dvecsc(int m, double alpha, vf_v *sa, int ai);
void blasfeo_dveccpsc(int m, double alpha, vf_v *sa, int ai, vf_v *sc, int ci);
void blasfeo_dvecad(int m, double alpha, vf_v *sa, int ai, vf_v *sc, int ci);
void blasfeo_dvecad_sp(int m, double alpha, vf_v *sx, int xi, int *idx, vf_v *sz, int zi);
void blasfeo_dvecin_sp(int m, double alpha, vf_v *sx, int xi, int *idx, vf_v *sz, int zi);
void blasfeo_dvecex_sp(int m, double alpha, int *idx, vf_v *sx, int x, vf_v *sz, int zi);
void blasfeo_dvecpe(int kmax, int *ipiv, vf_v *sx, int xi);
void blasfeo_dvecpei(int kmax, int *ipiv, vf_v *sx, int xi);
void blasfeo_dvecnrm_inf(int m, vf_v *sx, int xi, double *ptr_norm);
void blasfeo_dvecnrm_1(int m, vf_v *sx, int xi, double *ptr_norm);
#ifdef __cplusplus
}
#endif
#endif
