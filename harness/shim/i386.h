#include <cpuid.h>
#include "common.h"
#define __i386__ 1
