#include "../headers.h"
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#define _WIN32 1
#ifdef __aarch64__
#define _M_ARM64 1
#elif defined(__x86_64__)
#define _M_X64 100
#define _M_AMD64 100
#endif
/* C library functions on two-byte characters */
#define wcsnlen venv_wcsnlen
#define wcslen venv_wcslen
size_t venv_wcsnlen(const wchar_t*, size_t);
size_t venv_wcslen(const wchar_t*);
int wcsncpy_s(wchar_t*, size_t, const wchar_t*, size_t);
int wcscpy_s(wchar_t*, size_t, const wchar_t*);
