#include "hypre_defs.h"
