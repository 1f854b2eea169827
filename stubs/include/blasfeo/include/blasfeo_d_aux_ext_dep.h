#include "../../blasfeo_d_aux_ext_dep.h"
