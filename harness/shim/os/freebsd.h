#include "../headers.h"
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#define __FreeBSD__ 14
#include "../bsd.h"
