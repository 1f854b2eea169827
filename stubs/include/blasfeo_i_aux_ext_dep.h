#include "blasfeo_d_blas.h"
#include "blasfeo_d_aux_ext_dep.h"
void int_print_mat(int m, int n, int *A, int lda);
