// Stand-ins for operating systems other than Linux.
#include "mc.h"
#include "venv.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>

using namespace venv;

extern "C" {
void* venv_malloc(size_t);
void* venv_calloc(size_t, size_t);
void venv_free(void*);
ssize_t venv_write(int, const void*, size_t);

#if VOS_mach || VOS_freebsd
static int answer(const std::string* v, const char* what, void* old, size_t* oldlen) {
	if (query_fails(what)) {
		errno = EPERM;
		return -1;
	}
	if (!v) {
		errno = ENOENT;
		return -1;
	}
	if (!old) {
		if (oldlen) *oldlen = v->size();
		return 0;
	}
	size_t n = std::min(*oldlen, v->size());
	check_buffer(old, *oldlen, what);
	memcpy(old, v->data(), n);
	bool small = *oldlen < v->size();
	*oldlen = n;
	if (small) {
		errno = ENOMEM;
		return -1;
	}
	return 0;
}
int sysctlbyname(const char* name, void* old, size_t* oldlen, const void* value, size_t n) {
	if (value || n) env.errors.push_back("a system parameter is written");
	auto it = env.sysctl.find(name);
	return answer(it == env.sysctl.end() ? nullptr : &it->second, name, old, oldlen);
}
int sysctl(const int* mib, unsigned n, void* old, size_t* oldlen, const void* value, size_t m) {
	if (value || m) env.errors.push_back("a system parameter is written");
	auto it = n == 2 && mib[0] == 6 ? env.sysctl_hw.find(mib[1]) : env.sysctl_hw.end();
	return answer(it == env.sysctl_hw.end() ? nullptr : &it->second, "sysctl", old, oldlen);
}
size_t venv_strlcpy(char* d, const char* s, size_t n) {
	size_t l = 0;
	for (;; l++) {
		check_buffer(s + l, 1, "strlcpy");
		if (!s[l]) break;
	}
	if (n) {
		size_t k = std::min(l, n - 1);
		check_buffer(d, k + 1, "strlcpy");
		memcpy(d, s, k);
		d[k] = 0;
	}
	return l;
}
#endif

#if VOS_emscripten || VOS_emscripten_threads
int emscripten_num_logical_cores(void) {
	env.n_query++;
	return env.logical_cores;
}
int venv_signbit(void) {
	return env.nan_negative;
}
#endif
}

#if VOS_windows
#include "shim/windows/windows.h"
static DWORD last_error;
static std::string narrow(const WCHAR* s) {
	std::string r;
	for (; *s; s++) r += (char)*s;
	return r;
}
extern "C" {
size_t venv_wcsnlen(const WCHAR* s, size_t n) {
	size_t k = 0;
	for (; k < n; k++) {
		check_buffer(s + k, 2, "wcsnlen");
		if (!s[k]) break;
	}
	return k;
}
size_t venv_wcslen(const WCHAR* s) {
	return venv_wcsnlen(s, SIZE_MAX);
}
int wcsncpy_s(WCHAR* d, size_t n, const WCHAR* s, size_t m) {
	size_t k = venv_wcsnlen(s, m);
	if (k >= n) {
		d[0] = 0;
		return 34;
	}
	check_buffer(d, 2 * (k + 1), "wcsncpy_s");
	memcpy(d, s, 2 * k);
	d[k] = 0;
	return 0;
}
int wcscpy_s(WCHAR* d, size_t n, const WCHAR* s) {
	return wcsncpy_s(d, n, s, SIZE_MAX);
}
BOOL InitOnceExecuteOnce(PINIT_ONCE once, PINIT_ONCE_FN fn, PVOID parameter, LPVOID* context) {
	env.n_once++;
	if (once->Ptr == nullptr) {
		if (!fn(once, parameter, context)) return FALSE; // and may be tried again
		once->Ptr = (PVOID)2;
	}
	return TRUE;
}
HANDLE GetProcessHeap(void) {
	return (HANDLE)0x1000;
}
LPVOID HeapAlloc(HANDLE, DWORD flags, SIZE_T n) {
	return flags & HEAP_ZERO_MEMORY ? venv_calloc(1, n) : venv_malloc(n);
}
BOOL HeapFree(HANDLE, DWORD, LPVOID p) {
	venv_free(p);
	return TRUE;
}
HANDLE GetStdHandle(DWORD h) {
	return (HANDLE)(uintptr_t)h;
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD written, void*) {
	ssize_t r = venv_write((DWORD)(uintptr_t)h == STD_ERROR_HANDLE ? 2 : 1, p, n);
	if (written) *written = r < 0 ? 0 : (DWORD)r;
	return r >= 0;
}
DWORD GetLastError(void) {
	return last_error;
}
HMODULE GetModuleHandleW(LPCWSTR name) {
	return narrow(name) == "ntdll.dll" ? (HMODULE)0x2000 : nullptr;
}
FARPROC GetProcAddress(HMODULE, LPCSTR name) {
	return env.wine && strcmp(name, "wine_get_version") == 0 ? (FARPROC)0x3000 : nullptr;
}
WORD GetMaximumProcessorGroupCount(void) {
	if (env.wine) env.errors.push_back("GetMaximumProcessorGroupCount called under Wine");
	env.n_query++;
	return (WORD)env.groups.size();
}
WORD GetActiveProcessorGroupCount(void) {
	env.n_query++;
	return (WORD)(env.active.empty() ? env.groups : env.active).size();
}
static DWORD count_of(const std::vector<uint32_t>& v, WORD g) {
	env.n_query++;
	if (g == ALL_PROCESSOR_GROUPS) {
		DWORD n = 0;
		for (uint32_t k : v) n += k;
		return n;
	}
	if (g < v.size()) return v[g];
	last_error = ERROR_INVALID_PARAMETER;
	return 0;
}
DWORD GetMaximumProcessorCount(WORD g) {
	return count_of(env.groups, g);
}
DWORD GetActiveProcessorCount(WORD g) {
	return count_of(env.active.empty() ? env.groups : env.active, g);
}
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP kind, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX buffer, PDWORD size) {
	if (query_fails("GetLogicalProcessorInformationEx")) {
		last_error = ERROR_GEN_FAILURE;
		return FALSE;
	}
	std::string v;
	for (auto& r : env.relations)
		if (kind == RelationAll || r.first == (int)kind) v += r.second;
	if (!buffer || *size < v.size()) {
		*size = (DWORD)v.size();
		last_error = ERROR_INSUFFICIENT_BUFFER;
		return FALSE;
	}
	check_buffer(buffer, v.size(), "GetLogicalProcessorInformationEx");
	memcpy((void*)buffer, v.data(), v.size());
	*size = (DWORD)v.size();
	return TRUE;
}
void GetSystemInfo(LPSYSTEM_INFO p) {
	memset(p, 0, sizeof *p);
	p->wProcessorLevel = env.processor_level;
}
void GetNativeSystemInfo(LPSYSTEM_INFO p) {
	GetSystemInfo(p);
}
BOOL IsProcessorFeaturePresent(DWORD f) {
	env.n_query++;
	return f < 64 ? env.features >> f & 1 : 0;
}
LSTATUS RegGetValueW(HKEY, LPCWSTR sub, LPCWSTR value, DWORD flags, LPDWORD type, PVOID data, LPDWORD size) {
	std::string name = narrow(sub) + ":" + narrow(value);
	if (query_fails(name.c_str())) return 5;
	auto it = env.registry.find(name);
	if (it == env.registry.end()) return ERROR_FILE_NOT_FOUND;
	uint32_t t = it->second.first;
	const std::string& v = it->second.second;
	if (!((t == REG_SZ && (flags & RRF_RT_REG_SZ)) || (t == REG_DWORD && (flags & RRF_RT_REG_DWORD)) || (t == REG_QWORD && (flags & RRF_RT_REG_QWORD)))) return ERROR_UNSUPPORTED_TYPE;
	if (type) *type = t;
	if (!data) {
		if (size) *size = (DWORD)v.size();
		return 0;
	}
	if (*size < v.size()) {
		*size = (DWORD)v.size();
		return ERROR_MORE_DATA;
	}
	check_buffer(data, v.size(), "RegGetValueW");
	memcpy(data, v.data(), v.size());
	*size = (DWORD)v.size();
	return 0;
}
int WideCharToMultiByte(UINT, DWORD flags, LPCWCH s, int n, LPSTR d, int m, LPCCH, LPBOOL) {
	if (!s) {
		last_error = ERROR_INVALID_PARAMETER;
		return 0;
	}
	size_t len = n < 0 ? venv_wcslen(s) + 1 : (size_t)n;
	std::string r;
	for (size_t i = 0; i < len; i++) {
		uint32_t c = s[i];
		if (c >= 0xD800 && c < 0xDC00 && i + 1 < len && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
		else if (c >= 0xD800 && c < 0xE000) {
			if (flags & WC_ERR_INVALID_CHARS) {
				last_error = ERROR_NO_UNICODE_TRANSLATION;
				return 0;
			}
			c = 0xFFFD;
		}
		if (c < 0x80) r += (char)c;
		else if (c < 0x800) r += (char)(0xC0 | c >> 6), r += (char)(0x80 | (c & 63));
		else if (c < 0x10000) r += (char)(0xE0 | c >> 12), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
		else r += (char)(0xF0 | c >> 18), r += (char)(0x80 | (c >> 12 & 63)), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
	}
	if (m == 0) return (int)r.size();
	if ((size_t)m < r.size()) {
		last_error = ERROR_INSUFFICIENT_BUFFER;
		return 0;
	}
	check_buffer(d, r.size(), "WideCharToMultiByte");
	memcpy(d, r.data(), r.size());
	return (int)r.size();
}
}
#endif
