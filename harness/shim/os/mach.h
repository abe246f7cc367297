#include "../headers.h"
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __ELF__
#define __APPLE__ 1
#define __MACH__ 1
#include "../bsd.h"
