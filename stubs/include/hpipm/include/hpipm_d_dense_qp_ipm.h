#include "hpipm_all.h"
