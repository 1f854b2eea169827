#ifndef VF_BLASFEO_D_AUX_EXT_DEP_H_
#define VF_BLASFEO_D_AUX_EXT_DEP_H_
#include "blasfeo_d_aux.h"
#ifdef __cplusplus
extern "C" {
#endif
void blasfeo_allocate_dmat(int m, int n, vf_m *sA);
void blasfeo_allocate_dvec(int m, vf_v *sa);
void blasfeo_free_dmat(vf_m *sA);
void blasfeo_free_dvec(vf_v *sa);
void blasfeo_print_dmat(int m, int n, vf_m *sA, int ai, int aj);
void blasfeo_print_exp_dmat(int m, int n, vf_m *sA, int ai, int aj);
void blasfeo_print_to_file_dmat(FILE *f, int m, int n, vf_m *sA, int ai, int aj);
void blasfeo_print_to_string_dmat(char **s, int m, int n, vf_m *sA, int ai, int aj);
void blasfeo_print_dvec(int m, vf_v *sa, int ai);
void blasfeo_print_exp_dvec(int m, vf_v *sa, int ai);
void blasfeo_print_tran_dvec(int m, vf_v *sa, int ai);
void blasfeo_print_exp_tran_dvec(int m, vf_v *sa, int ai);
void blasfeo_print_to_file_tran_dvec(FILE *f, int m, vf_v *sa, int ai);
void blasfeo_print_to_string_tran_dvec(char **s, int m, vf_v *sa, int ai);
void d_print_mat(int m, int n, double *A, int lda);
void d_print_exp_mat(int m, int n, double *A, int lda);
void d_print_exp_tran_mat(int m, int n, double *A, int lda);
void d_zeros(double **pA, int m, int n);
void d_free(double *pA);
#ifdef __cplusplus
}
#endif
#endif
