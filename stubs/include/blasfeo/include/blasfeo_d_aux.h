#include "../../blasfeo_d_aux.h"
