#include "venv.h"
#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
extern char __start_vt_data[] __attribute__((weak)), __stop_vt_data[] __attribute__((weak));
extern char __start_vt_bss[] __attribute__((weak)), __stop_vt_bss[] __attribute__((weak));
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
}
// make sure that both sections exist
__attribute__((section("vt_data"), used)) static long vt_dummy_data = 1;
__attribute__((section("vt_bss"), used)) static long vt_dummy_bss = 0;

namespace venv {

Env env;
vdesc D;
static std::vector<char> snap_data, snap_bss;
static jmp_buf abort_jmp;
static bool abort_armed = false;

struct Block {
	char* p;
	size_t n;
};
static std::vector<Block> live, dead; // dead: given back and not handed out again
struct OpenFile {
	const std::string* content;
	std::string path;
	size_t off;
	bool open;
};
static std::vector<OpenFile> fds;
static const int FD_BASE = 4000;
static bool tracing = false;

std::string fmt(const char* f, ...) {
	char b[8192];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

void setup() {
	auto save = [](std::vector<char>& v, const volatile char* b, const volatile char* e) {
		v.resize(e - b);
		for (size_t i = 0; i < v.size(); i++) v[i] = b[i];
	};
	save(snap_data, __start_vt_data, __stop_vt_data);
	save(snap_bss, __start_vt_bss, __stop_vt_bss);
}

static void copy_back(char* dst, const std::vector<char>& src) {
	volatile char* d = dst;
	size_t n = src.size(), i = 0;
	const char* s = src.data();
	if (((uintptr_t)dst & 7) == 0)
		for (; i + 8 <= n; i += 8) *(volatile uint64_t*)(d + i) = *(const uint64_t*)(s + i);
	for (; i < n; i++) d[i] = s[i];
}

void reset_observations() {
	env.n_alloc = env.n_free = env.n_open = env.n_read = env.n_close = env.n_cpuid = env.n_sys = env.n_sort = env.n_once = env.n_query = 0;
	env.hits.clear();
	env.errors.clear();
	env.log.clear();
	env.writes.clear();
	env.opened.clear();
	env.reads.clear();
}

void reset_library() {
	copy_back(__start_vt_data, snap_data);
	copy_back(__start_vt_bss, snap_bss);
	for (auto& b : live) free(b.p);
	live.clear();
	dead.clear();
	fds.clear();
}

void fresh() {
	env = Env();
	reset_library();
}

__attribute__((noinline)) static void paint_stack(uint8_t v) {
	volatile char buf[40960];
	if (env.fill_period)
		for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)env.fill_at(i);
	else
		for (size_t i = 0; i < sizeof buf; i += 8) *(volatile uint64_t*)(buf + i) = v * 0x0101010101010101ull;
}

__attribute__((noinline)) static Outcome guarded_inner(void (*fn)(void*), void* arg) {
	Outcome o;
	mc::commit();
	paint_stack(env.fill);
	bool nested = abort_armed;
	if (setjmp(abort_jmp) == 0) {
		abort_armed = true;
		mc::in_target = true;
		fn(arg);
	} else {
		o.aborted = true;
	}
	mc::in_target = false;
	abort_armed = nested;
	mc::commit(); // a choice made inside of the library may have handed the execution to another shard
	return o;
}

// Starts the code under test at the same offset within a page in each process, so that it meets the painted stack alike.
__attribute__((noinline, no_sanitize("address", "undefined"))) Outcome guarded(void (*fn)(void*), void* arg) {
	volatile char* pad = (volatile char*)__builtin_alloca(((uintptr_t)__builtin_frame_address(0) & 4095) + 16);
	pad[0] = 0;
	return guarded_inner(fn, arg);
}

std::string twin;
ThreadHooks* threads;

#if VENV_MOCK
// Hands the simulated machine to the library through its own simulation interface.
extern "C" {
struct mock_cpuid { uint32_t leaf, sub, a, b, c, d; };
struct mock_file { const char* path; size_t size; const char* content; size_t offset; };
struct mock_property { const char *key, *value; };
void cpuinfo_mock_set_cpuid(mock_cpuid*, size_t);
void cpuinfo_mock_filesystem(mock_file*);
void cpuinfo_mock_android_properties(mock_property*) __attribute__((weak));
void cpuinfo_set_hwcap(uint32_t) __attribute__((weak));
void cpuinfo_set_hwcap2(uint64_t) __attribute__((weak));
void cpuinfo_set_fpsid(uint32_t) __attribute__((weak));
void cpuinfo_set_wcid(uint32_t) __attribute__((weak));
}
bool real_files, mock_reversed;
static void install() {
	static std::vector<mock_cpuid> leaves;
	static std::vector<mock_file> files;
	static std::vector<mock_property> props;
	leaves.clear(), files.clear(), props.clear();
#if VARCH_x86_64 || VARCH_i386
	for (auto& l : env.cpuid) leaves.push_back({(uint32_t)(l.first >> 32), (uint32_t)l.first, l.second.a, l.second.b, l.second.c, l.second.d});
	if (mock_reversed) // leaves in the other order, each with its sub-leaves in order
		std::stable_sort(leaves.begin(), leaves.end(), [](const mock_cpuid& x, const mock_cpuid& y) { return x.leaf > y.leaf; });
	cpuinfo_mock_set_cpuid(leaves.data(), leaves.size());
#endif
	if (cpuinfo_set_hwcap) cpuinfo_set_hwcap((uint32_t)env.hwcap);
	if (cpuinfo_set_hwcap2) cpuinfo_set_hwcap2(env.hwcap2);
	if (cpuinfo_set_fpsid) cpuinfo_set_fpsid(env.fpsid);
	if (cpuinfo_set_wcid) cpuinfo_set_wcid(env.wcid);
	for (auto& f : env.props) props.push_back({f.first.c_str(), f.second.c_str()});
	if (mock_reversed) std::reverse(props.begin(), props.end());
	props.push_back({nullptr, nullptr});
	if (cpuinfo_mock_android_properties) cpuinfo_mock_android_properties(props.data());
	if (real_files) return;
	for (auto& f : env.files) files.push_back({f.first.c_str(), f.second.size(), f.second.data(), 0});
	std::sort(files.begin(), files.end(), [](const mock_file& x, const mock_file& y) { return (strcmp(x.path, y.path) < 0) != mock_reversed; });
	files.push_back({nullptr, 0, nullptr, 0});
	cpuinfo_mock_filesystem(files.data());
}
#endif

static Outcome initialize_once() {
	mc::commit();
	reset_observations();
	static int ok;
	ok = 0;
	Outcome o = guarded([](void*) {
#if VENV_MOCK
		mc::in_target = false;
		install();
		mc::in_target = true;
#endif
		ok = vd_initialize();
	}, nullptr);
#if VENV_MOCK
	if (!real_files && env.n_open + env.n_read + env.n_close) mc::fail("real", "the real file system was consulted although files are simulated");
#endif
	o.ok = !o.aborted && ok;
	mc::count_transitions(env.events());
	return o;
}

// What the library answers to a thread on each processor the kernel may name, whether or not it is a part of the machine.
bool current_answers(const vdesc& d, std::vector<uint32_t>* out) {
	uint32_t top = 0;
	for (uint32_t i = 0; i < d.nproc; i++) top = std::max(top, (uint32_t)d.proc[i].linux_id);
	top = std::min(top + 3, 300u);
	uint32_t keep = env.getcpu_cpu;
	out->resize(4 * (top + 1));
	bool ok = !guarded([](void* p) {
		auto& v = *(std::vector<uint32_t>*)p;
		for (uint32_t c = 0; c < v.size() / 4; c++) {
			env.getcpu_cpu = c;
			v[4 * c] = (uint32_t)vd_current_processor(), v[4 * c + 1] = (uint32_t)vd_current_core();
			v[4 * c + 2] = vd_current_uarch_index(), v[4 * c + 3] = vd_current_uarch_index_with_default(77);
		}
	}, out).aborted;
	env.getcpu_cpu = keep;
	return ok;
}

static Outcome twins() {
	// what the simulation interface of the library cannot express
	if (twin == "mock" && (env.cpuid_default || env.mvfr0 || !env.have_getauxval || !env.have_libc || env.chunk || !env.splits.empty() || env.hwcap >> 32)) mc::done();
	Outcome o = initialize_once();
	static vdesc first;
	std::vector<uint32_t> answers, others;
	if (o.ok && !(dump(&first) && (twin != "memory" || current_answers(first, &answers)))) mc::fail("abort", "a query aborted after success");
	uint64_t dg = o.ok ? digest(first) : o.aborted ? 2 : 1;
	mc::outcome(dg);
	mc::state(dg);
	auto again = [&](const char* what) {
		reset_library();
		Outcome p = initialize_once();
		if (p.ok && !dump(&D)) mc::fail("abort", "a query aborted after success, %s", what);
		if (p.ok != o.ok || p.aborted != o.aborted) mc::fail("differs", "initialization %s, but it %s %s", o.ok ? "succeeds" : o.aborted ? "aborts" : "fails", p.ok ? "succeeds" : p.aborted ? "aborts" : "fails", what);
		if (o.ok) {
			std::string df = diff(first, D);
			if (df.empty() && digest(D) != dg) df = "unknown difference";
			if (!df.empty()) mc::fail("differs", "another description (%s) %s", df.c_str(), what);
			if (twin == "memory") {
				if (!current_answers(D, &others)) mc::fail("abort", "a query aborted after success, %s", what);
				for (size_t i = 0; i < answers.size(); i++)
					if (answers[i] != others[i]) mc::fail("current", "query %zu of the current processor on kernel processor %zu gives another answer (%u, not %u) %s", i % 4, i / 4, others[i], answers[i], what);
			}
		}
		mc::count_validated();
		mc::count_nontrivial();
	};
	if (twin == "mock") {
		mc::count_validated();
		mc::count_nontrivial();
#if VENV_MOCK
		mock_reversed = true;
		again("when files, leaves and properties are listed in the other order");
		real_files = true;
		mock_reversed = false;
		again("when only registers and properties are simulated");
		real_files = false;
#endif
	} else if (twin == "memory") {
		static const struct { uint8_t fill; uint32_t period, phase; int sort; const char* what; } v[] = {
			{0x00, 0, 0, 1, "with zero memory and ties in reverse order"},
			{0xFF, 0, 0, 0, "with memory full of ones"},
			{'1', 7, 3, 1, "with memory full of digits and ties in reverse order"},
		};
		for (auto& x : v) {
			env.fill = x.fill, env.fill_period = x.period, env.fill_phase = x.phase, env.sort_mode = x.sort;
			again(x.what);
			if (!env.errors.empty()) mc::fail("order", "%s", env.errors[0].c_str());
		}
	} else {
		static const struct { uint32_t chunk; const char* what; } v[] = {{1, "when reads return single bytes"}, {3, "when reads return three bytes"}, {61, "when reads return 61 bytes"}};
		for (auto& x : v) {
			env.chunk = x.chunk;
			again(x.what);
		}
	}
	mc::done();
}

Outcome initialize() {
	return twin.empty() ? initialize_once() : twins();
}

// tables which the library hands out are memory which it still owns
static void check_tables() {
	static const char* const table[] = {"processors", "cores", "clusters", "packages", "microarchitectures", "L1I caches", "L1D caches", "L2 caches", "L3 caches", "L4 caches"};
	static uint64_t array[10], count[10];
	if (guarded([](void*) {
			for (int t = 0; t < 10; t++) array[t] = vd_call(t, 0), count[t] = vd_call(20 + t, 0);
		}, nullptr).aborted) return;
	for (int t = 0; t < 10; t++) {
		uint64_t n = count[t] * vd_element_size(t);
		if (!array[t] || !n) continue;
		for (auto& b : dead)
			if (array[t] < (uintptr_t)b.p + b.n && (uintptr_t)b.p < array[t] + n) mc::fail("freed", "the table of %s is in memory which has been freed", table[t]);
		for (auto& b : live)
			if (array[t] >= (uintptr_t)b.p && array[t] < (uintptr_t)b.p + b.n && array[t] + n > (uintptr_t)b.p + b.n)
				mc::fail("beyond", "the table of %s has %u elements, more than fit in its memory", table[t], (unsigned)count[t]);
	}
}
bool dump(vdesc* d) {
	Outcome o = guarded([](void* p) { vd_dump((vdesc*)p); }, d);
	if (o.aborted) return false;
	check_tables();
	return true;
}

static uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
	const uint32_t* w = (const uint32_t*)p;
	for (size_t i = 0; i < n / 4; i++) h = mc::mix(h, w[i]);
	return h;
}

uint64_t digest(const vdesc& d, bool with_names) {
	uint64_t h = 77;
	h = hash_bytes(h, &d.nproc, 4 * 10);
	auto lim = [](uint32_t n) { return std::min<uint32_t>(n, VD_MAX); };
	h = hash_bytes(h, d.proc, sizeof(vd_processor) * lim(d.nproc));
	for (uint32_t i = 0; i < lim(d.ncore); i++) {
		auto& c = d.core[i];
		uint32_t v[] = {c.processor_start, c.processor_count, c.core_id, (uint32_t)c.cluster, (uint32_t)c.package, c.vendor, c.uarch, c.id, (uint32_t)c.frequency};
		h = hash_bytes(h, v, sizeof v);
	}
	for (uint32_t i = 0; i < lim(d.ncluster); i++) {
		auto& c = d.cluster[i];
		uint32_t v[] = {c.processor_start, c.processor_count, c.core_start, c.core_count, c.cluster_id, (uint32_t)c.package, c.vendor, c.uarch, c.id, (uint32_t)c.frequency};
		h = hash_bytes(h, v, sizeof v);
	}
	for (uint32_t i = 0; i < lim(d.npackage); i++) {
		auto& c = d.package[i];
		if (with_names) h = hash_bytes(h, c.name, 64);
		h = hash_bytes(h, &c.name_terminated, 28);
	}
	h = hash_bytes(h, d.uarch, sizeof(vd_uarch) * lim(d.nuarch));
	for (int k = 0; k < 5; k++) h = hash_bytes(h, d.cache[k], sizeof(vd_cache) * lim(d.ncache[k]));
	h = mc::mix(h, d.max_cache_size);
	h = mc::mix(h, d.sve_length);
	for (int i = 0; i < VI_COUNT; i++) h = mc::mix(h, d.isa[i]);
	return h;
}

std::string diff(const vdesc& a, const vdesc& b) {
#define DIFF1(x) \
	if (a.x != b.x) return fmt(#x " %lld vs %lld", (long long)a.x, (long long)b.x)
	DIFF1(nproc);
	DIFF1(ncore);
	DIFF1(ncluster);
	DIFF1(npackage);
	DIFF1(nuarch);
	for (int k = 0; k < 5; k++) DIFF1(ncache[k]);
	DIFF1(truncated);
	DIFF1(null_array);
	if (a.null_array) return "";
#define DIFFE(arr, i, f) \
	if (a.arr[i].f != b.arr[i].f) return fmt(#arr "[%u]." #f " %lld vs %lld", i, (long long)a.arr[i].f, (long long)b.arr[i].f)
	auto lim = [](uint32_t n) { return std::min<uint32_t>(n, VD_MAX); };
	for (uint32_t i = 0; i < lim(a.nproc); i++) {
		DIFFE(proc, i, smt_id);
		DIFFE(proc, i, core);
		DIFFE(proc, i, cluster);
		DIFFE(proc, i, package);
		DIFFE(proc, i, linux_id);
		DIFFE(proc, i, apic_id);
		for (int k = 0; k < 5; k++)
			if (a.proc[i].cache[k] != b.proc[i].cache[k]) return fmt("proc[%u].cache[%d] %d vs %d", i, k, a.proc[i].cache[k], b.proc[i].cache[k]);
	}
	for (uint32_t i = 0; i < lim(a.ncore); i++) {
		DIFFE(core, i, processor_start);
		DIFFE(core, i, processor_count);
		DIFFE(core, i, core_id);
		DIFFE(core, i, cluster);
		DIFFE(core, i, package);
		DIFFE(core, i, vendor);
		DIFFE(core, i, uarch);
		DIFFE(core, i, id);
		DIFFE(core, i, frequency);
	}
	for (uint32_t i = 0; i < lim(a.ncluster); i++) {
		DIFFE(cluster, i, processor_start);
		DIFFE(cluster, i, processor_count);
		DIFFE(cluster, i, core_start);
		DIFFE(cluster, i, core_count);
		DIFFE(cluster, i, cluster_id);
		DIFFE(cluster, i, package);
		DIFFE(cluster, i, vendor);
		DIFFE(cluster, i, uarch);
		DIFFE(cluster, i, id);
		DIFFE(cluster, i, frequency);
	}
	for (uint32_t i = 0; i < lim(a.npackage); i++) {
		if (strcmp(a.package[i].name, b.package[i].name)) return fmt("package[%u].name \"%s\" vs \"%s\"", i, a.package[i].name, b.package[i].name);
		DIFFE(package, i, processor_start);
		DIFFE(package, i, processor_count);
		DIFFE(package, i, core_start);
		DIFFE(package, i, core_count);
		DIFFE(package, i, cluster_start);
		DIFFE(package, i, cluster_count);
		DIFFE(package, i, name_terminated);
	}
	for (uint32_t i = 0; i < lim(a.nuarch); i++) {
		DIFFE(uarch, i, uarch);
		DIFFE(uarch, i, id);
		DIFFE(uarch, i, processor_count);
		DIFFE(uarch, i, core_count);
	}
	for (int k = 0; k < 5; k++)
		for (uint32_t i = 0; i < lim(a.ncache[k]); i++)
			if (memcmp(&a.cache[k][i], &b.cache[k][i], sizeof(vd_cache))) return fmt("cache level %d entry %u", k, i);
	DIFF1(max_cache_size);
	DIFF1(sve_length);
	for (int i = 0; i < VI_COUNT; i++)
		if (a.isa[i] != b.isa[i]) return fmt("isa %s %d vs %d", vd_isa_names[i], a.isa[i], b.isa[i]);
	return "";
}

std::string text(const vdesc& d) {
	std::string s = fmt("%u processors %u cores %u clusters %u packages %u uarchs caches %u/%u/%u/%u/%u\n", d.nproc, d.ncore, d.ncluster, d.npackage, d.nuarch, d.ncache[0], d.ncache[1], d.ncache[2], d.ncache[3], d.ncache[4]);
	for (uint32_t i = 0; i < std::min(d.nproc, 16u); i++) {
		auto& p = d.proc[i];
		s += fmt(" proc %u: linux %u apic %x smt %u core %d cluster %d package %d caches %d %d %d %d %d\n", i, p.linux_id, p.apic_id, p.smt_id, p.core, p.cluster, p.package, p.cache[0], p.cache[1], p.cache[2], p.cache[3], p.cache[4]);
	}
	for (uint32_t i = 0; i < std::min(d.ncore, 16u); i++) {
		auto& c = d.core[i];
		s += fmt(" core %u: procs %u+%u id %u cluster %d package %d uarch %x id %x\n", i, c.processor_start, c.processor_count, c.core_id, c.cluster, c.package, c.uarch, c.id);
	}
	for (uint32_t i = 0; i < std::min(d.ncluster, 16u); i++) {
		auto& c = d.cluster[i];
		s += fmt(" cluster %u: procs %u+%u cores %u+%u id %u package %d uarch %x id %x\n", i, c.processor_start, c.processor_count, c.core_start, c.core_count, c.cluster_id, c.package, c.uarch, c.id);
	}
	for (uint32_t i = 0; i < std::min(d.npackage, 16u); i++) {
		auto& c = d.package[i];
		s += fmt(" package %u: \"%s\" procs %u+%u cores %u+%u clusters %u+%u\n", i, c.name, c.processor_start, c.processor_count, c.core_start, c.core_count, c.cluster_start, c.cluster_count);
	}
	for (uint32_t i = 0; i < std::min(d.nuarch, 16u); i++) s += fmt(" uarch %u: %x id %x procs %u cores %u\n", i, d.uarch[i].uarch, d.uarch[i].id, d.uarch[i].processor_count, d.uarch[i].core_count);
	for (int k = 0; k < 5; k++)
		for (uint32_t i = 0; i < std::min(d.ncache[k], 16u); i++) {
			auto& c = d.cache[k][i];
			s += fmt(" cache %d/%u: size %u assoc %u sets %u part %u line %u flags %x procs %u+%u\n", k, i, c.size, c.associativity, c.sets, c.partitions, c.line_size, c.flags, c.processor_start, c.processor_count);
		}
	return s;
}

size_t live_blocks() {
	return live.size();
}
size_t open_files() {
	size_t n = 0;
	for (auto& f : fds) n += f.open;
	return n;
}

size_t unreachable_blocks() {
	std::vector<bool> mark(live.size(), false);
	std::vector<size_t> work;
	auto visit = [&](const char* b, size_t n) {
		for (size_t i = 0; i + sizeof(void*) <= n; i += sizeof(void*)) {
			uintptr_t v;
			// byte-wise, the source may be sanitizer-poisoned
			const volatile char* s = b + i;
			char t[sizeof v];
			for (size_t k = 0; k < sizeof v; k++) t[k] = s[k];
			memcpy(&v, t, sizeof v);
			for (size_t k = 0; k < live.size(); k++)
				if (!mark[k] && v >= (uintptr_t)live[k].p && v <= (uintptr_t)live[k].p + (live[k].n ? live[k].n - 1 : 0)) {
					mark[k] = true;
					work.push_back(k);
				}
		}
	};
	visit(__start_vt_data, __stop_vt_data - __start_vt_data);
	visit(__start_vt_bss, __stop_vt_bss - __start_vt_bss);
	while (!work.empty()) {
		size_t k = work.back();
		work.pop_back();
		visit(live[k].p, live[k].n);
	}
	size_t bad = 0;
	for (size_t k = 0; k < live.size(); k++) bad += !mark[k];
	return bad;
}

std::string graph_errors(const vdesc& d) {
	if (d.null_array) return "an array is NULL although its count is not zero";
	if (d.truncated) return fmt("implausible count (processors %u cores %u clusters %u packages %u uarchs %u)", d.nproc, d.ncore, d.ncluster, d.npackage, d.nuarch);
	if (d.nproc == 0) return "no processors";
	if (d.ncore == 0 || d.ncluster == 0 || d.npackage == 0 || d.nuarch == 0) return "an empty table next to processors";
	// processors
	for (uint32_t i = 0; i < d.nproc; i++) {
		auto& p = d.proc[i];
		if (p.core < 0 || p.cluster < 0 || p.package < 0) return fmt("processor %u has an invalid core, cluster or package pointer", i);
		for (int k = 0; k < 5; k++)
			if (p.cache[k] == VD_BAD) return fmt("processor %u has an invalid cache pointer (%d)", i, k);
		auto& c = d.core[p.core];
		auto& cl = d.cluster[p.cluster];
		auto& pk = d.package[p.package];
		if (c.cluster != p.cluster || c.package != p.package) return fmt("processor %u and its core disagree about cluster or package", i);
		if (cl.package != p.package) return fmt("processor %u and its cluster disagree about the package", i);
		if (i < c.processor_start || i - c.processor_start >= c.processor_count) return fmt("processor %u outside of the range of its core", i);
		if (i < cl.processor_start || i - cl.processor_start >= cl.processor_count) return fmt("processor %u outside of the range of its cluster", i);
		if (i < pk.processor_start || i - pk.processor_start >= pk.processor_count) return fmt("processor %u outside of the range of its package", i);
		if ((uint32_t)p.core < cl.core_start || p.core - cl.core_start >= cl.core_count) return fmt("core of processor %u outside of the range of its cluster", i);
		if ((uint32_t)p.core < pk.core_start || p.core - pk.core_start >= pk.core_count) return fmt("core of processor %u outside of the range of its package", i);
		if ((uint32_t)p.cluster < pk.cluster_start || p.cluster - pk.cluster_start >= pk.cluster_count) return fmt("cluster of processor %u outside of the range of its package", i);
		for (uint32_t j = 0; j < i; j++)
			if (d.proc[j].linux_id == p.linux_id) return fmt("kernel processor %u listed twice", p.linux_id);
	}
	// partitions
	uint32_t next = 0;
	for (uint32_t i = 0; i < d.ncore; i++) {
		auto& c = d.core[i];
		if (c.processor_start != next || c.processor_count == 0) return fmt("core %u: processor range %u+%u does not follow the previous core", i, c.processor_start, c.processor_count);
		next += c.processor_count;
		for (uint32_t j = c.processor_start; j < next && j < d.nproc; j++)
			if (d.proc[j].core != (int)i) return fmt("processor %u in the range of core %u belongs to core %d", j, i, d.proc[j].core);
	}
	if (next != d.nproc) return fmt("cores cover %u of %u processors", next, d.nproc);
	next = 0;
	uint32_t nc = 0;
	for (uint32_t i = 0; i < d.ncluster; i++) {
		auto& c = d.cluster[i];
		if (c.processor_start != next || c.processor_count == 0) return fmt("cluster %u: processor range %u+%u does not follow the previous cluster", i, c.processor_start, c.processor_count);
		if (c.core_start != nc || c.core_count == 0) return fmt("cluster %u: core range %u+%u does not follow the previous cluster", i, c.core_start, c.core_count);
		next += c.processor_count;
		nc += c.core_count;
		for (uint32_t j = c.processor_start; j < next && j < d.nproc; j++)
			if (d.proc[j].cluster != (int)i) return fmt("processor %u in the range of cluster %u belongs to cluster %d", j, i, d.proc[j].cluster);
		for (uint32_t j = c.core_start; j < nc && j < d.ncore; j++)
			if (d.core[j].cluster != (int)i) return fmt("core %u in the range of cluster %u belongs to cluster %d", j, i, d.core[j].cluster);
	}
	if (next != d.nproc || nc != d.ncore) return fmt("clusters cover %u of %u processors and %u of %u cores", next, d.nproc, nc, d.ncore);
	next = nc = 0;
	uint32_t ncl = 0;
	for (uint32_t i = 0; i < d.npackage; i++) {
		auto& c = d.package[i];
		if (!c.name_terminated) return fmt("name of package %u is not terminated", i);
		if (c.processor_start != next || c.processor_count == 0 || c.core_start != nc || c.core_count == 0 || c.cluster_start != ncl || c.cluster_count == 0)
			return fmt("package %u: ranges do not follow the previous package", i);
		next += c.processor_count;
		nc += c.core_count;
		ncl += c.cluster_count;
		for (uint32_t j = c.processor_start; j < next && j < d.nproc; j++)
			if (d.proc[j].package != (int)i) return fmt("processor %u in the range of package %u belongs to package %d", j, i, d.proc[j].package);
		for (uint32_t j = c.core_start; j < nc && j < d.ncore; j++)
			if (d.core[j].package != (int)i) return fmt("core %u in the range of package %u belongs to package %d", j, i, d.core[j].package);
		for (uint32_t j = c.cluster_start; j < ncl && j < d.ncluster; j++)
			if (d.cluster[j].package != (int)i) return fmt("cluster %u in the range of package %u belongs to package %d", j, i, d.cluster[j].package);
	}
	if (next != d.nproc || nc != d.ncore || ncl != d.ncluster) return "packages do not cover all processors, cores and clusters";
	// caches
	for (int k = 0; k < 5; k++) {
		for (uint32_t i = 0; i < d.ncache[k]; i++) {
			auto& c = d.cache[k][i];
			if (c.processor_count == 0 || c.processor_start >= d.nproc || c.processor_count > d.nproc - c.processor_start)
				return fmt("cache %d/%u: processor range %u+%u exceeds %u processors", k, i, c.processor_start, c.processor_count, d.nproc);
			for (uint32_t j = 0; j < d.nproc; j++) {
				bool in = j >= c.processor_start && j - c.processor_start < c.processor_count;
				if (in != (d.proc[j].cache[k] == (int)i)) return fmt("cache %d/%u: range %u+%u but processor %u points to cache %d", k, i, c.processor_start, c.processor_count, j, d.proc[j].cache[k]);
			}
		}
	}
	// microarchitectures
	uint32_t up = 0, uc = 0;
	for (uint32_t i = 0; i < d.nuarch; i++) up += d.uarch[i].processor_count, uc += d.uarch[i].core_count;
	if (up != d.nproc || uc != d.ncore) return fmt("microarchitectures cover %u of %u processors and %u of %u cores", up, d.nproc, uc, d.ncore);
	return "";
}

void print_environment() {
	std::vector<std::string> names;
	for (auto& f : env.files) names.push_back(f.first);
	std::sort(names.begin(), names.end());
	for (auto& n : names) {
		std::string c = env.files[n];
		printf("--- %s (%zu bytes)\n", n.c_str(), c.size());
		for (size_t i = 0; i < c.size() && i < 3000; i++) {
			unsigned char ch = c[i];
			if (ch == '\n') putchar('\n');
			else if (ch < 32 || ch >= 127) printf("\\x%02x", ch);
			else putchar(ch);
		}
		printf("\n");
	}
	for (auto& l : env.cpuid) printf("cpuid %08x.%x: %08x %08x %08x %08x\n", (uint32_t)(l.first >> 32), (uint32_t)l.first, l.second.a, l.second.b, l.second.c, l.second.d);
	if (vd_arch < 2) printf("xcr0 %llx\n", (unsigned long long)env.xcr0);
	else printf("hwcap %llx hwcap2 %llx\n", (unsigned long long)env.hwcap, (unsigned long long)env.hwcap2);
	for (auto& v : env.sysctl) {
		printf("sysctl %s:", v.first.c_str());
		for (unsigned char c : v.second) printf(v.second.size() > 8 * 8 ? "%c" : " %02x", c);
		printf("\n");
	}
	for (auto& v : env.sysctl_hw) {
		printf("sysctl hw %d:", v.first);
		for (unsigned char c : v.second) printf(" %02x", c);
		printf("\n");
	}
	for (auto& p : env.props) printf("prop %s=%s\n", p.first.c_str(), p.second.c_str());
	for (auto x : env.fail_alloc) printf("failing allocation %llu\n", (unsigned long long)x);
	for (auto x : env.fail_open) printf("failing open %llu\n", (unsigned long long)x);
	for (auto x : env.fail_read) printf("failing read %llu\n", (unsigned long long)x);
	for (auto x : env.fail_event) printf("failing event %llu\n", (unsigned long long)x);
	for (auto& x : env.hits) printf("failed: %s\n", x.c_str());
	if (env.chunk) printf("reads return at most %u bytes\n", env.chunk);
	for (auto& s : env.splits) printf("reads of %s stop at %llu\n", s.first.c_str(), (unsigned long long)s.second);
	printf("last description:\n%s", text(D).c_str());
}

static bool listed(const std::vector<uint64_t>& v, uint64_t i) {
	for (uint64_t x : v)
		if (x == i) return true;
	return false;
}

// a fault of the common sequence of events
static bool fault(char kind, const char* path) {
	if (env.fail_event.empty() || !listed(env.fail_event, env.n_alloc + env.n_open + env.n_read + env.n_query)) return false;
	env.hits.push_back(std::string(1, kind) + path);
	return true;
}

bool query_fails(const char* what) {
	bool f = fault('q', what);
	env.n_query++;
	return f;
}
void check_buffer(const void* p, size_t n, const char* what) {
	if (n && __asan_region_is_poisoned && __asan_region_is_poisoned((void*)p, n)) {
		fprintf(stderr, "%s: %zu bytes exceed the buffer\n", what, n);
		_exit(98);
	}
}

static void* do_alloc(size_t n, bool zero, char kind = 'a') {
	bool f = fault(kind, "");
	uint64_t i = env.n_alloc++;
	if (f || listed(env.fail_alloc, i) || n > env.max_alloc) {
		errno = ENOMEM;
		return nullptr;
	}
	char* p = (char*)malloc(n);
	if (!p) abort();
	memset(p, zero ? 0 : env.fill, n);
	if (!zero && env.fill_period)
		for (size_t k = 0; k < n; k++) p[k] = (char)env.fill_at(k);
	for (size_t k = 0; k < dead.size();)
		if (dead[k].p < p + n && p < dead[k].p + dead[k].n) dead[k] = dead.back(), dead.pop_back();
		else k++;
	live.push_back({p, n});
	if (threads) threads->fresh(p, n);
	return p;
}

static void do_free(void* p) {
	env.n_free++;
	if (!p) return;
	for (size_t k = 0; k < live.size(); k++)
		if (live[k].p == p) {
			memset(p, 0xDD, live[k].n);
			dead.push_back(live[k]);
			live[k] = live.back();
			live.pop_back();
			free(p);
			return;
		}
	// not a live block of the library: the sanitizer reports the double or invalid free
	free(p);
	env.errors.push_back("free of a pointer which is not an allocated block");
}

} // namespace venv

using namespace venv;

extern "C" {

int venv_open(const char* path, int flags, ...) {
	bool f = fault('o', path);
	uint64_t i = env.n_open++;
	if (f || listed(env.fail_open, i)) {
		errno = EMFILE;
		return -1;
	}
	if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
		env.errors.push_back(fmt("file %s opened for writing", path));
		errno = EACCES;
		return -1;
	}
	if (env.keep_opened) env.opened.push_back(path);
	auto it = env.files.find(path);
	if (it == env.files.end()) {
		errno = ENOENT;
		return -1;
	}
	for (size_t k = 0; k < fds.size(); k++)
		if (!fds[k].open) {
			fds[k] = {&it->second, path, 0, true};
			return FD_BASE + (int)k;
		}
	fds.push_back({&it->second, path, 0, true});
	return FD_BASE + (int)fds.size() - 1;
}
int venv_open64(const char* path, int flags, ...) {
	return venv_open(path, flags);
}
int venv_openat(int, const char* path, int flags, ...) {
	return venv_open(path, flags);
}

ssize_t venv_read(int fd, void* buf, size_t n) {
	int k = fd - FD_BASE;
	bool f_ = fault('r', k >= 0 && k < (int)fds.size() ? fds[k].path.c_str() : "");
	uint64_t i = env.n_read++;
	if (k < 0 || k >= (int)fds.size() || !fds[k].open) {
		env.errors.push_back(fmt("read of a descriptor (%d) which is not open", fd));
		errno = EBADF;
		return -1;
	}
	if (f_ || listed(env.fail_read, i)) {
		errno = env.fail_errno_read;
		return -1;
	}
	if (n > 0 && __asan_region_is_poisoned) {
		if (void* bad = __asan_region_is_poisoned(buf, n)) {
			// touch it in instrumented fashion is not possible here; report directly
			fprintf(stderr, "read(%s, %zu bytes) exceeds its buffer at +%zu\n", fds[k].path.c_str(), n, (size_t)((char*)bad - (char*)buf));
			_exit(98);
		}
	}
	OpenFile& f = fds[k];
	size_t left = f.content->size() - f.off;
	size_t m = std::min(n, left);
	if (env.chunk && m > env.chunk) m = env.chunk;
	for (auto& s : env.splits)
		if (s.first == f.path && s.second > f.off && s.second < f.off + m) m = s.second - f.off;
	if (m > 1 && listed(env.short_reads, i)) m = 1;
	memcpy(buf, f.content->data() + f.off, m);
	if (env.keep_opened) env.reads.push_back(fmt("%s:%zu:%zu", f.path.c_str(), f.off, m));
	f.off += m;
	return (ssize_t)m;
}

int venv_close(int fd) {
	env.n_close++;
	int k = fd - FD_BASE;
	if (k < 0 || k >= (int)fds.size() || !fds[k].open) {
		env.errors.push_back(fmt("close of a descriptor (%d) which is not open", fd));
		errno = EBADF;
		return -1;
	}
	fds[k].open = false;
	return 0;
}

void* venv_malloc(size_t n) {
	return do_alloc(n, false);
}
void* venv_calloc(size_t a, size_t b) {
	if (b && a > SIZE_MAX / b) {
		env.n_alloc++;
		errno = ENOMEM;
		return nullptr;
	}
	return do_alloc(a * b, true);
}
void venv_free(void* p) {
	do_free(p);
}
void* venv_realloc(void* p, size_t n) {
	void* q = do_alloc(n, false);
	if (!q) return nullptr;
	if (p) {
		for (auto& b : live)
			if (b.p == p) memcpy(q, p, std::min(b.n, n));
		do_free(p);
	}
	return q;
}
char* venv_strdup(const char* s) {
	size_t n = strlen(s) + 1;
	char* p = (char*)do_alloc(n, false);
	if (p) memcpy(p, s, n);
	return p;
}
void* venv_sched_cpualloc(size_t count) {
	return do_alloc((count + 63) / 64 * 8, false, 's');
}
void venv_sched_cpufree(void* p) {
	do_free(p);
}

static int do_getcpu(unsigned* cpu, unsigned* node) {
	if (env.getcpu_ret != 0) {
		errno = ENOSYS;
		return -1;
	}
	if (cpu) *cpu = env.getcpu_cpu;
	if (node) *node = 0;
	return 0;
}
struct probe_pair {
	int64_t key;
	uint64_t value;
};
#ifndef HOST_NR_GETCPU
#define HOST_NR_GETCPU 309
#endif
long venv_syscall(long nr, long a1, long a2, long a3, long a4, long a5, long) {
	env.n_sys++;
	if (nr == HOST_NR_GETCPU) return do_getcpu((unsigned*)a1, (unsigned*)a2);
	if (nr == 258) {
		// riscv_hwprobe(pairs, count, cpusetsize, cpus, flags)
		probe_pair* p = (probe_pair*)a1;
		const unsigned long* cpus = (const unsigned long*)a4;
		int cpu = -1, ncpu = 0;
		for (size_t b = 0; b < (size_t)a3 * 8; b++)
			if (cpus[b / 64] >> (b % 64) & 1) {
				cpu = (int)b;
				ncpu++;
			}
		if (ncpu != 1) {
			env.errors.push_back(fmt("hardware probe asked for %d processors", ncpu));
			errno = EINVAL;
			return -1;
		}
		HwProbe h;
		auto it = env.hwprobe.find(cpu);
		if (it != env.hwprobe.end()) h = it->second;
		else h.ret = -1;
		if (h.ret != 0) {
			errno = ENOSYS;
			return -1;
		}
		for (long i = 0; i < a2; i++) {
			if (p[i].key < 0 || p[i].key > 2 || (h.unsupported >> p[i].key & 1)) {
				p[i].key = -1;
				p[i].value = 0;
			} else
				p[i].value = p[i].key == 0 ? h.vendor : p[i].key == 1 ? h.arch : h.imp;
		}
		(void)a5;
		return 0;
	}
	env.errors.push_back(fmt("unexpected system call %ld", nr));
	errno = ENOSYS;
	return -1;
}
int venv_getcpu(unsigned* c, unsigned* n) {
	env.n_sys++;
	return do_getcpu(c, n);
}
int venv_sched_getcpu(void) {
	env.n_sys++;
	unsigned c;
	return do_getcpu(&c, nullptr) ? -1 : (int)c;
}
unsigned long venv_getauxval(unsigned long t) {
	env.n_sys++;
	if (t == 16) return env.hwcap;
	if (t == 26) return env.hwcap2;
	errno = ENOENT;
	return 0;
}
int venv_prctl(int op, ...) {
	env.n_sys++;
	if (op == 51) {
		if (env.sve_vl < 0) {
			errno = EINVAL;
			return -1;
		}
		return env.sve_vl;
	}
	errno = EINVAL;
	return -1;
}
uint32_t venv_read_fpsid(void) {
	return env.fpsid;
}
uint32_t venv_read_mvfr0(void) {
	return env.mvfr0;
}
uint32_t venv_read_wcid(void) {
	return env.wcid;
}
void* venv_dlopen(const char*, int) {
	static int lib;
	return env.have_libc ? &lib : nullptr;
}
void* venv_dlsym(void*, const char* n) {
	if (strcmp(n, "getauxval") == 0 && env.have_getauxval) return (void*)venv_getauxval;
	return nullptr;
}
int venv_dlclose(void*) {
	return 0;
}
char* venv_dlerror(void) {
	return (char*)"simulated";
}
int venv_property_get(const char* k, char* v) {
	auto it = env.props.find(k);
	v[0] = 0;
	if (it == env.props.end()) return 0;
	size_t n = std::min<size_t>(it->second.size(), 91);
	if (__asan_region_is_poisoned && __asan_region_is_poisoned(v, 92)) {
		fprintf(stderr, "property buffer too small for %s\n", k);
		_exit(98);
	}
	memcpy(v, it->second.data(), n);
	v[n] = 0;
	return (int)n;
}

int venv_pthread_once(int* once, void (*fn)(void)) {
	env.n_once++;
	if (venv::threads) return venv::threads->once(once, fn);
	if (*once == 0) {
		*once = 1;
		fn();
		*once = 2;
	}
	return 0;
}

void venv_call_once(int* once, void (*fn)(void)) {
	venv_pthread_once(once, fn);
}
int venv_pthread_mutex_lock(void* m) {
	return venv::threads ? venv::threads->mutex(m, 0) : 0;
}
int venv_pthread_mutex_trylock(void* m) {
	return venv::threads ? venv::threads->mutex(m, 1) : 0;
}
int venv_pthread_mutex_unlock(void* m) {
	return venv::threads ? venv::threads->mutex(m, 2) : 0;
}
int venv_sched_yield(void) {
	if (venv::threads) venv::threads->yield();
	return 0;
}

ssize_t venv_write(int fd, const void* buf, size_t n) {
	if (__asan_region_is_poisoned && n && __asan_region_is_poisoned((void*)buf, n)) {
		fprintf(stderr, "write of %zu bytes exceeds its buffer\n", n);
		_exit(98);
	}
	if (env.write_hook) return env.write_hook(fd, (const char*)buf, n);
	if (env.keep_writes) env.writes.push_back({fd, std::string((const char*)buf, n)});
	return (ssize_t)n;
}

void venv_abort(void) {
	if (venv::threads) venv::threads->abort();
	if (abort_armed) {
		abort_armed = false;
		longjmp(abort_jmp, 1);
	}
	abort();
}
void venv_assert_fail(const char* e, const char* f, unsigned l, const char*) {
	fprintf(stderr, "assertion %s failed at %s:%u\n", e, f, l);
	_exit(97);
}

typedef int (*cmp_fn)(const void*, const void*);
void venv_qsort(void* base, size_t n, size_t sz, cmp_fn cmp) {
	env.n_sort++;
	if (n < 2) return;
	if (venv::threads) venv::threads->range(base, n * sz, true);
	char* b = (char*)base;
	std::vector<char> copy(b, b + n * sz);
	std::vector<size_t> ix(n);
	for (size_t i = 0; i < n; i++) ix[i] = i;
	// insertion sort: total even with an inconsistent comparator
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(b + ix[j - 1] * sz, b + ix[j] * sz) > 0; j--) std::swap(ix[j], ix[j - 1]);
	if (env.sort_mode) {
		if (n <= 64)
			for (size_t i = 0; i < n; i++)
				for (size_t j = i + 1; j < n; j++) {
					int x = cmp(b + ix[i] * sz, b + ix[j] * sz), y = cmp(b + ix[j] * sz, b + ix[i] * sz);
					if (x > 0 || y < 0 || (x == 0) != (y == 0)) env.errors.push_back("sort comparator does not define an order");
				}
		for (size_t i = 0; i < n;) {
			size_t j = i + 1;
			while (j < n && cmp(b + ix[j - 1] * sz, b + ix[j] * sz) == 0) j++;
			size_t k = j - i;
			if (k > 1) {
				if (env.sort_mode == 1)
					std::reverse(ix.begin() + i, ix.begin() + j);
				else if (k <= 4) {
					uint32_t f = 1;
					for (uint32_t q = 2; q <= k; q++) f *= q;
					uint32_t r = mc::choose(f, "tie order");
					while (r--) std::next_permutation(ix.begin() + i, ix.begin() + j);
				} else {
					uint32_t r = mc::choose(3, "tie order");
					if (r == 1) std::reverse(ix.begin() + i, ix.begin() + j);
					if (r == 2) std::rotate(ix.begin() + i, ix.begin() + i + 1, ix.begin() + j);
				}
			}
			i = j;
		}
	}
	for (size_t i = 0; i < n; i++) memcpy(b + i * sz, copy.data() + ix[i] * sz, sz);
}

// x86 registers
#if !VENV_MOCK
void cpuinfo_mock_get_cpuidex(uint32_t eax, uint32_t ecx, uint32_t regs[4]) {
	env.n_cpuid++;
	auto it = env.cpuid.find((uint64_t)eax << 32 | ecx);
	Regs r;
	if (it != env.cpuid.end()) r = it->second;
	else if (env.cpuid_default) r = env.cpuid_default(eax, ecx);
	regs[0] = r.a;
	regs[1] = r.b;
	regs[2] = r.c;
	regs[3] = r.d;
}
void cpuinfo_mock_get_cpuid(uint32_t eax, uint32_t regs[4]) {
	// CPUID without subleaf: ECX is whatever the compiler left there; leaves with subleaves must not be asked this way
	cpuinfo_mock_get_cpuidex(eax, 0, regs);
}
#endif
uint64_t cpuinfo_verif_xgetbv(uint32_t reg) {
	venv::env.n_xgetbv++;
	env.n_cpuid++;
	return reg == 0 ? env.xcr0 : 0;
}
}
