#pragma once
int sysctlbyname(const char*, void*, size_t*, const void*, size_t);
int sysctl(const int*, unsigned, void*, size_t*, const void*, size_t);
size_t venv_strlcpy(char*, const char*, size_t);
#define strlcpy venv_strlcpy
