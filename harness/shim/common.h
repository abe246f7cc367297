#include "headers.h"
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
