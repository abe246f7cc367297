/* Log calls, compiled like a source file of the library. */
#include <clog.h>
#include <cpuinfo/log.h>
#include <stddef.h>

const int vl_built_level = CPUINFO_LOG_LEVEL;
static const char* module;
static int enabled;

CLOG_DEFINE_LOG_DEBUG(t_log_debug, module, enabled)
CLOG_DEFINE_LOG_INFO(t_log_info, module, enabled)
CLOG_DEFINE_LOG_WARNING(t_log_warning, module, enabled)
CLOG_DEFINE_LOG_ERROR(t_log_error, module, enabled)
CLOG_DEFINE_LOG_FATAL(t_log_fatal, module, enabled)

#define ALL(prefix, ...)                                   \
	do {                                               \
		switch (level) {                           \
			case 5:                            \
				prefix##_debug(__VA_ARGS__);   \
				break;                     \
			case 4:                            \
				prefix##_info(__VA_ARGS__);    \
				break;                     \
			case 3:                            \
				prefix##_warning(__VA_ARGS__); \
				break;                     \
			case 2:                            \
				prefix##_error(__VA_ARGS__);   \
				break;                     \
			default:                           \
				prefix##_fatal(__VA_ARGS__);   \
		}                                          \
	} while (0)

#define SHAPES(prefix)                                                                        \
	switch (shape) {                                                                      \
		case 0:                                                                       \
			ALL(prefix, text);                                                    \
			break;                                                                \
		case 1:                                                                       \
			ALL(prefix, "%s", text);                                              \
			break;                                                                \
		case 2:                                                                       \
			ALL(prefix, "%d:%.*s", -7, (int)length, text);                        \
			break;                                                                \
		case 3:                                                                       \
			ALL(prefix, "%s%" PRIu32 "%%%zu", text, UINT32_C(4294967295), length); \
			break;                                                                \
		case 4:                                                                       \
			ALL(prefix, "%08" PRIx64 "%s%c%s", UINT64_C(0x123456789A), "", 'z', text); \
			break;                                                                \
		default:                                                                      \
			ALL(prefix, "%*s", (int)length, "x");                                 \
	}

void vl_cpuinfo(int level, int shape, const char* text, size_t length) {
	SHAPES(cpuinfo_log)
}
void vl_clog(int level, int shape, const char* text, size_t length, const char* m, int e) {
	module = m;
	enabled = e;
	SHAPES(t_log)
}
