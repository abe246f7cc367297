#include "common.h"
#define __riscv 1
#define __riscv_xlen 64
