// Simulated environment: everything the library can observe is answered from here.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "vdesc.h"

namespace venv {

struct Regs {
	uint32_t a = 0, b = 0, c = 0, d = 0;
};
struct HwProbe {
	int ret = 0;
	uint64_t vendor = 0, arch = 0, imp = 0;
	uint32_t unsupported = 0; // bit k: key k is answered with key -1
};

struct Env {
	std::unordered_map<std::string, std::string> files;
	// x86
	std::map<uint64_t, Regs> cpuid; // leaf << 32 | subleaf
	std::function<Regs(uint32_t, uint32_t)> cpuid_default; // others; zero if empty
	uint64_t xcr0 = 0;
	// arm
	uint64_t hwcap = 0, hwcap2 = 0;
	uint32_t fpsid = 0, mvfr0 = 0, wcid = 0;
	int sve_vl = -1;
	bool have_getauxval = true, have_libc = true;
	std::map<std::string, std::string> props;
	// riscv
	std::map<uint32_t, HwProbe> hwprobe;
	// other operating systems
	std::map<std::string, std::string> sysctl; // values by name
	std::map<int, std::string> sysctl_hw; // values below CTL_HW
	int logical_cores = 1; // WebAssembly
	bool nan_negative = true;
	std::vector<uint32_t> groups, active; // Windows: maximum number of processors of each group, and number of active ones if other
	std::map<int, std::string> relations; // by kind of relationship
	std::map<std::string, std::pair<uint32_t, std::string>> registry; // type, bytes
	uint64_t features = 0;
	uint16_t processor_level = 0;
	bool wine = false;
	// getcpu
	int getcpu_ret = 0;
	uint32_t getcpu_cpu = 0;
	// faults: 0-based index of the failing event of each kind
	std::vector<uint64_t> fail_alloc, fail_open, fail_read;
	std::vector<uint64_t> fail_event; // indices in the common sequence of allocations, opens and reads
	std::vector<std::string> hits; // which of them came true: kind a (memory), s (processor set), o (open), r (read), and the path
	int fail_errno_read = 5;
	// short reads
	uint32_t chunk = 0; // 0: unlimited
	std::vector<std::pair<std::string, uint64_t>> splits; // reads of that file stop at the offset
	std::vector<uint64_t> short_reads; // 0-based indices of non-empty reads which return one byte only
	// memory
	uint8_t fill = 0xA5; // contents of memory which nobody initialized
	uint32_t fill_period = 0, fill_phase = 0; // every so many bytes of it are zero
	uint8_t fill_at(size_t i) const { return fill_period && (i + fill_phase) % fill_period == 0 ? 0 : fill; }
	// sort: 0 stable, 1 ties reversed, 2 ties enumerated with mc::choose
	int sort_mode = 0;

	// ---- observations ----
	uint64_t n_alloc = 0, n_free = 0, n_open = 0, n_read = 0, n_close = 0, n_cpuid = 0, n_sys = 0, n_sort = 0, n_once = 0, n_xgetbv = 0, n_query = 0;
	std::vector<std::string> errors; // protocol errors of the library against the environment
	std::string log; // bytes written to the standard streams
	std::vector<std::pair<int, std::string>> writes; // only if keep_writes
	bool keep_writes = false;
	std::vector<std::string> opened; // paths, if keep_opened
	bool keep_opened = false;
	std::vector<std::string> reads; // path:offset:len if keep_opened
	std::function<int64_t(int, const char*, size_t)> write_hook;
	uint64_t max_alloc = 1ull << 28;

	void file(const std::string& p, const std::string& c) {
		files[p] = c;
	}
	void leaf(uint32_t l, uint32_t sub, Regs r) {
		cpuid[(uint64_t)l << 32 | sub] = r;
	}
	uint64_t events() const {
		return n_alloc + n_free + n_open + n_read + n_close + n_cpuid + n_sys + n_query;
	}
};
extern Env env;

// If not empty, the first initialize() of each execution is repeated on the same machine under other circumstances which must not
// matter, and ends the execution: "memory" (previous memory contents, order of ties), "split" (how reads are split).
extern std::string twin;
void setup();
void fresh(); // new environment and pristine library state (all statics as at program start)
void reset_library(); // pristine library state, frees what the previous run left
void reset_observations();
struct Outcome {
	bool aborted = false;
	bool ok = false;
};
// set while threads are simulated
struct ThreadHooks {
	int (*once)(int*, void (*)(void));
	int (*mutex)(void*, int op);
	void (*range)(const void*, size_t, bool write);
	void (*fresh)(const void*, size_t);
	void (*yield)();
	void (*abort)();
};
extern ThreadHooks* threads;
Outcome initialize(); // commit()s the execution, runs cpuinfo_initialize
Outcome guarded(void (*fn)(void*), void* arg); // runs fn with abort() interception, inside library code
bool current_answers(const vdesc& d, std::vector<uint32_t>* out);
bool dump(vdesc* d); // false if a getter aborted
extern vdesc D; // last dump
uint64_t digest(const vdesc& d, bool with_names = true);
std::string diff(const vdesc& a, const vdesc& b); // first difference, "" if equal
// live blocks
size_t live_blocks();
size_t open_files();
// number of live blocks not reachable from the library's static data
size_t unreachable_blocks();
// structural consistency of the description; "" if consistent
struct GraphOptions {
	bool ids_reset_per_package = true; // core_id / cluster_id count within the package
	bool contiguous = true;
};
std::string graph_errors(const vdesc& d);
bool query_fails(const char* what); // a question to the operating system, an event which may be made to fail
void check_buffer(const void* p, size_t n, const char* what); // ends the process if the library does not own the memory
void print_environment();
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string text(const vdesc& d);

} // namespace venv
