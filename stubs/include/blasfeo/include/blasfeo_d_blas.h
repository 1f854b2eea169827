#include "../../blasfeo_d_blas.h"
