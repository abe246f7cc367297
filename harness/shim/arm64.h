#include "common.h"
#define __aarch64__ 1
#define __ARM_ARCH 8
