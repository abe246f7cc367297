#pragma once
#define CTL_HW 6
#define HW_CACHELINE 16
#define HW_L1ICACHESIZE 17
#define HW_L1DCACHESIZE 18
#define HW_L2CACHESIZE 20
#define HW_L3CACHESIZE 22
