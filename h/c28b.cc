#include "c28.h"
C28_UNIT(void other_unit)
