#include "blasfeo_d_blas.h"
#include "blasfeo_d_aux_ext_dep.h"
