#include "common.h"
#define __arm__ 1
/* Lowest architecture: the run-time checks for coprocessor registers are compiled in */
#define __ARM_ARCH 5
