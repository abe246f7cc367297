#include "../headers.h"
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#define __EMSCRIPTEN__ 1
#define __wasm__ 1
/* the sign of a computed NaN tells x86 hosts from others */
int venv_signbit(void);
#undef signbit
#define signbit(x) ((void)(x), venv_signbit())
#define __builtin_signbit(x) ((void)(x), venv_signbit())
#define __builtin_signbitf(x) ((void)(x), venv_signbit())
