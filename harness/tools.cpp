// The command-line programs. P31: the reports agree with the description which the library gives. P32: the raw dumps are complete.
#include <cpuinfo.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include "machines.h"

using venv::D;
using venv::env;
using venv::fmt;

// ---------------------------------------------------------------- standard output and the end of a program

static std::string out, err;
static int status;
static bool exited;
extern "C" {
void venv_abort(void);
int vtool_cpu_info(int, char**);
int vtool_cache_info(int, char**);
int vtool_isa_info(int, char**);
int vtool_cpuinfo_dump(int, char**) __attribute__((weak));
int vtool_auxv_dump(int, char**) __attribute__((weak));
int vtool_cpuid_dump(int, char**) __attribute__((weak));

static std::string& stream(FILE* f) {
	if (f != stdout && f != stderr) {
		fprintf(stderr, "output to something else than the standard streams\n");
		_exit(98);
	}
	return f == stdout ? out : err;
}
static int put(FILE* f, const char* format, va_list a) {
	char b[4096];
	int n = vsnprintf(b, sizeof b, format, a);
	stream(f).append(b, n < (int)sizeof b ? (size_t)n : sizeof b - 1);
	return n;
}
int venv_printf(const char* format, ...) {
	va_list a;
	va_start(a, format);
	int n = put(stdout, format, a);
	va_end(a);
	return n;
}
int venv_fprintf(FILE* f, const char* format, ...) {
	va_list a;
	va_start(a, format);
	int n = put(f, format, a);
	va_end(a);
	return n;
}
int venv_vprintf(const char* format, va_list a) {
	return put(stdout, format, a);
}
int venv_vfprintf(FILE* f, const char* format, va_list a) {
	return put(f, format, a);
}
int venv_puts(const char* s) {
	out += s;
	out += '\n';
	return 1;
}
int venv_fputs(const char* s, FILE* f) {
	stream(f) += s;
	return 1;
}
int venv_fputc(int c, FILE* f) {
	stream(f) += (char)c;
	return c;
}
int venv_putc(int c, FILE* f) {
	return venv_fputc(c, f);
}
int venv_putchar(int c) {
	return venv_fputc(c, stdout);
}
size_t venv_fwrite(const void* p, size_t size, size_t n, FILE* f) {
	venv::check_buffer(p, size * n, "fwrite");
	stream(f).append((const char*)p, size * n);
	return n;
}
int venv_fflush(FILE*) {
	return 0;
}
void venv_exit(int s) {
	status = s;
	exited = true;
	venv_abort();
	__builtin_unreachable();
}
}
typedef int (*program)(int, char**);
static void run(program p) {
	out.clear();
	err.clear();
	status = 0;
	exited = false;
	static program q;
	q = p;
	auto o = venv::guarded([](void*) {
		static char name[] = "program";
		char* argv[] = {name, nullptr};
		status = q(1, argv);
	}, nullptr);
	MC_CHECK(!o.aborted || exited, "abort", "the program ends in abort()");
	mc::count_transitions(env.events());
}

// ---------------------------------------------------------------- P31

enum { CPU, CACHE, ISA, REPORTS };
static const program reports[REPORTS] = {vtool_cpu_info, vtool_cache_info, vtool_isa_info};
static const char* const report_names[REPORTS] = {"cpu-info", "cache-info", "isa-info"};

static std::string vendor_name(uint32_t v) {
	switch (v) {
#define V(n, t) \
	case cpuinfo_vendor_##n: return t;
#define U(n, t)
#include "tools_names.inc"
#undef V
#undef U
	}
	return "";
}
static std::string uarch_name(uint32_t u) {
	switch (u) {
#define V(n, t)
#define U(n, t) \
	case cpuinfo_uarch_##n: return t;
#include "tools_names.inc"
#undef V
#undef U
	}
	return "";
}
static std::string some(uint32_t n, uint32_t start, const char* one, const char* many) {
	return n == 1 ? fmt("1 %s (%u)", one, start) : fmt("%u %s (%u-%u)", n, many, start, start + n - 1);
}
static std::string identity(uint32_t v, uint32_t u) {
	std::string vn = vendor_name(v), un = uarch_name(u);
	if (vn.empty()) return fmt(", vendor 0x%08x uarch 0x%08x\n", v, u);
	if (un.empty()) return ", " + vn + fmt(" uarch 0x%08x\n", u);
	return ", " + vn + " " + un + "\n";
}
static std::string cpu_report(const vdesc& d) {
	std::string s;
	if (vd_android) {
		s += std::string("SoC name: ") + d.package[0].name + "\n";
	} else {
		s += "Packages:\n";
		for (uint32_t i = 0; i < d.npackage; i++) s += fmt("\t%u: %s\n", i, d.package[i].name);
	}
	s += "Microarchitectures:\n";
	for (uint32_t i = 0; i < d.nuarch; i++) {
		std::string n = uarch_name(d.uarch[i].uarch);
		s += fmt("\t%ux %s\n", d.uarch[i].core_count, n.empty() ? fmt("Unknown (0x%08x)", d.uarch[i].uarch).c_str() : n.c_str());
	}
	s += "Cores:\n";
	for (uint32_t i = 0; i < d.ncore; i++) {
		auto& c = d.core[i];
		s += fmt("\t%u: ", i) + some(c.processor_count, c.processor_start, "processor", "processors") + identity(c.vendor, c.uarch);
	}
	s += "Clusters:\n";
	for (uint32_t i = 0; i < d.ncluster; i++) {
		auto& c = d.cluster[i];
		s += fmt("\t%u: ", i) + some(c.processor_count, c.processor_start, "processor", "processors") + fmt(",\t%u: ", i) + some(c.core_count, c.core_start, "core", "cores") + identity(c.vendor, c.uarch);
	}
#if VOS_linux
	s += "Logical processors (System ID):\n";
#else
	s += "Logical processors:\n";
#endif
	for (uint32_t i = 0; i < d.nproc; i++) {
		s += fmt("\t%u", i);
#if VOS_linux
		s += fmt(" (%u)", d.proc[i].linux_id);
#endif
		if (vd_arch <= 1) s += fmt(": APIC ID 0x%08x", d.proc[i].apic_id);
		s += "\n";
	}
	return s;
}
static std::string cache_report(const vdesc& d) {
	std::string s = fmt("Max cache size (upper bound): %u bytes\n", d.max_cache_size);
	for (int k = 0; k < 5; k++) {
		if (d.ncache[k] == 0) continue;
		auto& c = d.cache[k][0];
		bool unified = c.flags & CPUINFO_CACHE_UNIFIED;
		if (k == 0 && unified) continue; // reported as data cache
		s += fmt("L%d %s cache: ", k == 0 ? 1 : k, unified ? "unified" : k == 0 ? "instruction" : "data");
		if (d.ncache[k] != 1) s += fmt("%u x ", d.ncache[k]);
		if (c.size % 1048576 == 0) s += fmt("%u MB", c.size / 1048576);
		else if (c.size % 1024 == 0) s += fmt("%u KB", c.size / 1024);
		else s += fmt("%u bytes", c.size);
		if (k >= 2) s += c.flags & CPUINFO_CACHE_INCLUSIVE ? " (inclusive)" : " (exclusive)";
		s += ", ";
		s += c.associativity * c.line_size == c.size ? "fully associative" : fmt("%u-way set associative", c.associativity);
		if (c.sets != 0) {
			s += fmt(" (%u sets", c.sets);
			if (c.partitions != 1) s += fmt(", %u partitions", c.partitions);
			if (c.flags & CPUINFO_CACHE_COMPLEX_INDEXING) s += ", complex indexing";
			s += ")";
			s += ", ";
		}
		s += fmt("%u byte lines", c.line_size);
		if (c.processor_count != 0) s += fmt(", shared by %u processors", c.processor_count);
		s += "\n";
	}
	return s;
}
enum { X86 = 3, I386 = 2, ARM64 = 4, ARM32 = 8, RISCV = 16 };
enum { TITLE = -1, LENGTH = -2 };
static const struct {
	int archs;
	const char* label;
	int query;
} isa_lines[] = {
#include "tools_isa.inc"
};
static std::string isa_report(const vdesc& d) {
	std::string s;
	for (auto& l : isa_lines) {
		if (!(l.archs >> vd_arch & 1)) continue;
		if (l.query == TITLE) s += std::string(l.label) + "\n";
		else if (l.query == LENGTH) s += fmt("\t%s: %u\n", l.label, d.sve_length);
		else s += fmt("\t%s: %s\n", l.label, d.isa[l.query] ? "yes" : "no");
	}
	return s;
}
static std::string first_difference(const std::string& a, const std::string& b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t s = i ? a.rfind('\n', i - 1) + 1 : 0;
	auto line = [s](const std::string& x) { return s > x.size() ? std::string() : x.substr(s, x.find('\n', s) - s + 1); };
	return "'" + line(a) + "' instead of '" + line(b) + "'";
}
// the machine is set up
static void judge_report(int which) {
	venv::reset_observations();
	run(reports[which]);
	static int ok;
	MC_CHECK(!venv::guarded([](void*) { ok = vd_initialize(); }, nullptr).aborted, "abort", "initialization aborts");
	if (!ok) {
		MC_CHECK(status != 0, "status", "%s reports success although the library could not be initialized", report_names[which]);
		MC_CHECK(out.empty() && !err.empty(), "failure", "%s does not report the failure of the library on the error stream only: '%s'", report_names[which], out.c_str());
		mc::count_validated();
		mc::state(1);
		return;
	}
	MC_CHECK(venv::dump(&D), "abort", "a query aborted");
	MC_CHECK(!D.truncated && !D.null_array, "tables", "a table is missing");
	std::string e = which == CPU ? cpu_report(D) : which == CACHE ? cache_report(D) : isa_report(D);
	MC_CHECK(out == e, "text", "%s prints %s", report_names[which], first_difference(out, e).c_str());
	MC_CHECK(status == 0 && err.empty(), "status", "%s ends with status %d and the message '%s'", report_names[which], status, err.c_str());
	uint64_t h = 1;
	for (char c : out) h = mc::mix(h, (uint8_t)c);
	mc::state(h);
	mc::count_nontrivial();
	mc::count_validated();
}
#if VOS_mach
template <class T>
static std::string bytes(T v) {
	return std::string((const char*)&v, sizeof v);
}
MC_FAMILY(P31, apple, "every family of Apple processors, 1-12 cores, cache sizes known or not; the reports of processors and caches", 0) {
	static const uint32_t family[] = {0x37a09642, 0x2c91a47e, 0x92fb37c8, 0x67ceee93, 0xe81e7ef6, 0x07d34b9f, 0x462504d2, 0x1b588bb3, 0xda33d83d, 0x8765edea};
	uint32_t f = mc::pick(family, "family"), which = mc::choose(2, "report");
	int n = 1 + (int)mc::choose(12, "cores");
	uint32_t caches = mc::choose(16, "caches");
	mc::commit();
	venv::fresh();
	env.sysctl["hw.cpufamily"] = bytes(f);
	env.sysctl["hw.packages"] = bytes(1);
	env.sysctl["hw.physicalcpu_max"] = env.sysctl["hw.logicalcpu_max"] = bytes(n);
	static const int key[4] = {17, 18, 20, 22};
	env.sysctl_hw[16] = bytes(128u);
	for (int k = 0; k < 4; k++)
		if (caches >> k & 1) env.sysctl_hw[key[k]] = bytes(k < 2 ? 65536u << k : k == 2 ? 3u << 20 : 8u << 20);
	judge_report(which);
}
#else
MC_FAMILY(P31, machines, "every representative machine, each report", 0) {
	int k = mc::choose(machines::count(), "machine"), which = mc::choose(REPORTS, "report");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	judge_report(which);
}
MC_FAMILY(P31, faults, "every representative machine, each report; every pair of failing allocations, opens and reads", 0) {
	int k = mc::choose(machines::basic(), "machine"), which = mc::choose(REPORTS, "report");
	static uint32_t events[64];
	if (!events[k]) {
		mc::Probe probe;
		venv::fresh();
		machines::emit(k);
		venv::initialize();
		events[k] = (uint32_t)(env.n_alloc + env.n_open + env.n_read);
	}
	uint32_t a = mc::choose(events[k], "first fault"), b = a + mc::choose(events[k] - a, "second fault");
	if (b != a && b - a > 12 && !mc::thorough()) mc::reject();
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.fail_event = {a, b};
	judge_report(which);
}
#if VARCH_x86_64 || VARCH_i386
MC_FAMILY(P31, shapes, "1-3 packages of 1-4 cores of 1-4 threads, gaps in the numbering or not; the report of processors", 0) {
	x86::Machine m;
	uint32_t np = 1 + mc::choose(3, "packages"), nc = 1 + mc::choose(4, "cores"), nt = 1 + mc::choose(4, "threads"), step = 1 + mc::choose(3, "step"), which = mc::choose(2, "report");
	m.thread_bits = nt == 1 ? 0 : nt == 2 ? 1 : 2;
	m.core_bits = 2;
	m.caches = {{1, 1, 8, 1, 64, 64, 0, 1u << m.thread_bits}, {1, 2, 8, 1, 64, 64, 0, 1u << m.thread_bits}, {2, 3, 4, 1, 64, 1024, 0, 1u << m.width()}};
	m.kernel_max = 511;
	for (uint32_t p = 0; p < np; p++)
		for (uint32_t c = 0; c < nc; c++)
			for (uint32_t t = 0; t < nt; t++) m.procs.push_back({(uint32_t)m.procs.size() * step, p << m.width() | c << m.thread_bits | t});
	mc::commit();
	venv::fresh();
	m.emit();
	machines::brand("Intel(R) Xeon(R) CPU E5-2690 v3 @ 2.60GHz");
	judge_report(which);
}
MC_FAMILY(P31, identities, "15 vendors, every family up to 31 and every model; the report of processors", 0) {
	static const char* const vendors[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "CyrixInstead", "RiseRiseRise", "GenuineTMx86", "UMC UMC UMC ", "Geode by NSC", "NexGenDriven", "SiS SiS SiS ", "Genuine  RDC", "Vortex86 SoC", "AMDisbetter!", "NotAVendor!!"};
	x86::Machine m;
	const char* v = mc::pick(vendors, "vendor");
	uint32_t f = mc::choose(32, "family"), mo = mc::choose(256, "model");
	m.signature = (f > 15 ? (f - 15) << 20 | 15 << 8 : f << 8) | mo >> 4 << 16 | (mo & 15) << 4;
	m.procs = {{0, 0}};
	mc::commit();
	venv::fresh();
	m.emit();
	auto& r = env.cpuid[0];
	memcpy(&r.b, v, 4);
	memcpy(&r.d, v + 4, 4);
	memcpy(&r.c, v + 8, 4);
	judge_report(CPU);
}
MC_FAMILY(P31, caches, "each cache: separate or unified first level, 7 sizes, 4 line sizes, 5 associativities, 1-3 partitions, flags, shared by 1, 2 or 4 processors; every subset of the other levels", 0) {
	uint32_t level = mc::choose(5, "cache"), others = mc::choose(16, "others");
	static const uint32_t sets[] = {1, 3, 16, 64, 1000, 1024, 8192}, lines[] = {16, 32, 64, 48}, ways[] = {1, 2, 8, 12, 16};
	x86::Cache c;
	c.level = level < 2 ? 1 : level;
	c.type = level == 0 ? 2 : level == 1 ? (mc::flag("unified") ? 3 : 1) : 3;
	c.sets = mc::pick(sets, "sets");
	c.line = mc::pick(lines, "line");
	c.ways = mc::pick(ways, "ways");
	c.partitions = 1 + mc::choose(3, "partitions");
	c.edx = mc::choose(4, "flags") << 1;
	c.sharing = 1u << mc::choose(3, "sharing");
	if (!mc::thorough() && others % 5 != 0) mc::reject();
	x86::Machine m;
	m.thread_bits = 1;
	m.core_bits = 1;
	static const x86::Cache rest[5] = {{1, 2, 8, 1, 64, 64, 0, 2}, {1, 1, 8, 1, 64, 64, 0, 2}, {2, 3, 4, 1, 64, 1024, 0, 2}, {3, 3, 16, 1, 64, 8192, 6, 4}, {4, 3, 16, 1, 64, 65536, 0, 4}};
	for (uint32_t k = 0, bit = 0; k < 5; k++)
		if (k == level) m.caches.push_back(c);
		else if (others >> bit++ & 1 && !(k == 0 && c.level == 1 && c.type == 3)) m.caches.push_back(rest[k]);
	for (uint32_t i = 0; i < 4; i++) m.procs.push_back({i, i});
	mc::commit();
	venv::fresh();
	m.emit();
	judge_report(CACHE);
}
MC_FAMILY(P31, features, "every feature register bit and every pair of bits of a register, with and without all others; the report of features", 0) {
	// leaf 1 ecx edx, 7.0 ebx ecx edx, 7.1 eax edx, 80000001 ecx edx, 80000008 ebx
	uint32_t r[10], reg = mc::choose(10, "register"), a = mc::choose(32, "bit"), b = mc::choose(32, "other bit");
	bool ones = mc::flag("others"), amd = mc::flag("AMD");
	if (b < a) mc::reject();
	for (auto& x : r) x = ones ? 0xFFFFFFFF : 0;
	r[reg] ^= 1u << a | 1u << b;
	x86::Machine m;
	m.vendor = amd ? x86::AMD : x86::INTEL;
	m.procs = {{0, 0}};
	m.topo = x86::NO_TOPOLOGY;
	m.max_base = 0x24;
	mc::commit();
	venv::fresh();
	m.emit();
	env.leaf(1, 0, {0x000906EA, 0x800, (r[0] | 0x0C000000) & ~(1u << 21), r[1] & ~(1u << 28)});
	env.leaf(7, 0, {1, r[2], r[3], r[4]});
	env.leaf(7, 1, {r[5], 0, 0, r[6]});
	env.leaf(0xD, 0, {0x602FF, 0, 0, 0});
	env.leaf(0x24, 0, {0, 2, 0, 0});
	env.leaf(0x80000001, 0, {0, 0, r[7], r[8]});
	env.leaf(0x80000008, 0, {0, r[9], 0, 0});
	env.xcr0 = 0x602FF;
	judge_report(ISA);
}
#elif VARCH_riscv64
MC_FAMILY(P31, features, "every set of the 26 letters of up to three letters, and all but three; the report of features", 0) {
	uint32_t a = mc::choose(26, "letter"), b = a + mc::choose(26 - a, "letter"), c = b + mc::choose(26 - b, "letter");
	uint32_t w = 1u << a | 1u << b | 1u << c;
	if (mc::flag("others")) w = ~w & 0x3FFFFFF;
	mc::commit();
	venv::fresh();
	machines::emit(0);
	env.hwcap = w;
	judge_report(ISA);
}
MC_FAMILY(P31, shapes, "1-3 packages of 1-3 clusters of 1-3 cores of 1-2 threads, gaps in the numbering or not, three vendors; the report of processors", 0) {
	riscv::Machine m;
	uint32_t np = 1 + mc::choose(3, "packages"), nl = 1 + mc::choose(3, "clusters"), nc = 1 + mc::choose(3, "cores"), nt = 1 + mc::choose(2, "threads"), step = 1 + mc::choose(2, "step"), v = mc::choose(3, "vendor");
	for (uint32_t i = 0; i < np * nl * nc * nt; i++) m.add(i * step, i / nt, i / nt / nc, i / nt / nc / nl);
	for (auto& p : m.procs) {
		p.core_id = p.core;
		p.probe.vendor = v == 0 ? 0 : v == 1 ? 0x489 : 0x5B7;
	}
	mc::commit();
	venv::fresh();
	m.emit();
	judge_report(CPU);
}
#else
MC_FAMILY(P31, identities, "one processor: 14 implementers, every part number, two variants; the report of processors", 0) {
	static const uint32_t impl[] = {0x41, 0x42, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x50, 0x51, 0x53, 0x54, 0x56, 0x61, 0x69};
	arm::Machine m;
	uint32_t i = mc::pick(impl, "implementer"), part = mc::choose(4096, "part"), var = mc::choose(2, "variant");
	m.add(0, i << 24 | var << 20 | 0xF0000 | part << 4 | 1, 0, 1000000);
	mc::commit();
	venv::fresh();
	m.emit();
	judge_report(CPU);
}
MC_FAMILY(P31, clusters, "up to three clusters of up to three processors with every combination of 7 identities, gaps in the numbering or not; the reports of processors and caches", 0) {
	static const uint32_t ids[] = {arm::A53, arm::A57, arm::A55, arm::A76, arm::X1, 0x41FD8100 /* unnamed */, 0x510F2110};
	arm::Machine m;
	uint32_t n = 1 + mc::choose(3, "clusters"), step = 1 + mc::choose(2, "step"), which = mc::choose(2, "report"), id = 0;
	for (uint32_t c = 0; c < n; c++) {
		uint32_t k = 1 + mc::choose(3, "processors"), midr = mc::pick(ids, "identity");
		for (uint32_t i = 0; i < k; i++, id += step) m.add(id, midr, (int)c, 1000000 + 100000 * c);
	}
	mc::commit();
	venv::fresh();
	m.emit();
	judge_report(which);
}
MC_FAMILY(P31, features, "every capability bit of both words and every pair of bits, with and without all others; the report of features", 0) {
	uint32_t a = mc::choose(96, "bit"), b = a + mc::choose(96 - a, "other bit"), len = mc::choose(3, "vector length");
	bool ones = mc::flag("others");
	arm::Machine m;
	m.add(0, arm::is64() ? arm::A76 : 0x410FC0F0, 0);
	mc::commit();
	venv::fresh();
	m.emit();
	uint64_t w[2] = {ones ? ~0ull : 0, ones ? ~0ull : 0};
	if (!arm::is64()) w[0] &= 0xFFFFFFFF, w[1] &= 0xFFFFFFFF;
	auto flip = [&](uint32_t x) { x < 32 ? w[0] ^= 1ull << x : x < 64 ? w[1] ^= 1ull << (x - 32) : arm::is64() ? w[1] ^= 1ull << (x - 32) : 0; };
	flip(a);
	if (b != a) flip(b);
	env.hwcap = w[0];
	env.hwcap2 = w[1];
	env.sve_vl = len == 0 ? -1 : len == 1 ? 16 : 256;
	judge_report(ISA);
}
#endif

// ---------------------------------------------------------------- P32

static void same_text(const std::string& e, const char* what) {
	MC_CHECK(out == e, "text", "%s prints %s", what, first_difference(out, e).c_str());
	MC_CHECK(status == 0 && err.empty(), "status", "%s ends with status %d and the message '%s'", what, status, err.c_str());
	uint64_t h = 1;
	for (char c : out) h = mc::mix(h, (uint8_t)c);
	mc::state(h);
	mc::count_nontrivial();
	mc::count_validated();
}
static void failed(const char* what) {
	MC_CHECK(status != 0 && !err.empty(), "failure", "%s fails silently", what);
	mc::count_validated();
	mc::state(2);
}
static std::string text_of(uint32_t n) {
	std::string s;
	for (uint32_t i = 0; i < n; i++) s += (char)(i % 61 == 60 ? '\n' : i % 977 == 976 ? 0 : 32 + i * 7 % 95);
	return s;
}
MC_FAMILY(P32, text, "/proc/cpuinfo of every length up to 300 and within 20 bytes of 4096, 8192 and 12288; reads limited to 1, 7, 512, 4095, 4096 or not at all", 0) {
	uint32_t k = mc::choose(300 + 3 * 41, "length");
	uint32_t n = k < 300 ? k : 4096 * ((k - 300) / 41 + 1) - 20 + (k - 300) % 41;
	uint32_t chunk = mc::pick({0u, 1u, 7u, 512u, 4095u, 4096u}, "read size");
	mc::commit();
	venv::fresh();
	env.file("/proc/cpuinfo", text_of(n));
	env.chunk = chunk;
	run(vtool_cpuinfo_dump);
	same_text(text_of(n), "cpuinfo-dump");
	MC_CHECK(venv::open_files() == 0, "open", "the file is left open");
}
MC_FAMILY(P32, text_failures, "/proc/cpuinfo missing, not readable from any read on, of up to 12300 bytes in reads of 512 or more bytes", 0) {
	uint32_t n = mc::choose(42, "length") * 300, chunk = mc::pick({0u, 512u, 1000u}, "read size"), at = mc::choose(30, "failing read");
	mc::commit();
	venv::fresh();
	uint32_t c = chunk ? chunk : 4096, reads = (n + c - 1) / c + 1;
	if (at) env.file("/proc/cpuinfo", text_of(n));
	env.chunk = chunk;
	if (at > 1) env.fail_read = {at - 2};
	run(vtool_cpuinfo_dump);
	if (at == 0 || (at > 1 && at - 2 < reads)) {
		failed("cpuinfo-dump");
		MC_CHECK(out == (at == 0 ? "" : text_of(std::min(n, (at - 2) * c))), "text", "cpuinfo-dump prints something else than what it has read");
	} else same_text(text_of(n), "cpuinfo-dump");
}
MC_FAMILY(P32, auxiliary, "every bit and pair of bits of the capability words; the system call library or the function missing", 0) {
	uint32_t a = mc::choose(64, "bit"), b = a + mc::choose(64 - a, "bit"), missing = mc::choose(3, "missing");
	mc::commit();
	venv::fresh();
	uint32_t w[2] = {};
	w[a / 32] |= 1u << a % 32;
	w[b / 32] |= 1u << b % 32;
	env.hwcap = w[0];
	env.hwcap2 = w[1];
	env.have_libc = missing != 1;
	env.have_getauxval = missing != 2;
	run(vtool_auxv_dump);
	if (missing) {
		failed("auxv-dump");
		MC_CHECK(out.empty(), "text", "auxv-dump prints values which it cannot know");
	} else same_text(fmt("AT_HWCAP = 0x%08X\n", w[0]) + (vd_arch == 3 ? fmt("AT_HWCAP2 = 0x%08X\n", w[1]) : ""), "auxv-dump");
}
#if VARCH_x86_64 || VARCH_i386
static venv::Regs distinct(uint32_t leaf, uint32_t sub) {
	uint64_t h = mc::mix(mc::mix(leaf, sub), 12345), g = mc::mix(h, 99);
	return {(uint32_t)h, (uint32_t)(h >> 32), (uint32_t)g, (uint32_t)(g >> 32)};
}
struct Leaves {
	uint32_t max_base = 0x24, max_ext = 0x80000008, caches = 4, structured = 1, levels = 2, sections = 3, trace = 1, soc = 3, vectors = 0;
	bool sgx = true, named = true, brand = true;
	venv::Regs at(uint32_t leaf, uint32_t sub) const {
		auto r = distinct(leaf, sub);
		switch (leaf) {
			case 0: r.a = max_base; if (!named) r.b = r.c = r.d = 0; break;
			case 4: r.a = (r.a & ~31u) | (sub < caches ? 1 + sub % 3 : 0); break;
			case 7: if (sub == 0) r.a = structured; r.b = (r.b & ~4u) | (sgx ? 4 : 0); if (sub) r.b ^= 4; break;
			case 0xB: r.c = (r.c & ~0xFF00u) | (sub < levels ? (1 + sub) << 8 : 0); break;
			case 0x12: r.a = sub < 2 ? r.a & ~15u : (r.a & ~15u) | (sub < 2 + sections ? 1 : 0); break;
			case 0x14: if (sub == 0) r.a = trace; break;
			case 0x17: if (sub == 0) r.a = soc; break;
			case 0x24: if (sub == 0) r.a = vectors; break;
			case 0x80000000: r.a = max_ext; if (!named) r.b = r.c = r.d = 0; break;
			case 0x80000002: case 0x80000003: case 0x80000004: if (!brand) r.b &= 0xFFFF00FF; break;
		}
		return r;
	}
	std::string line(uint32_t leaf, uint32_t sub, const char* tail) const {
		auto r = at(leaf, sub);
		return fmt("CPUID %08X: %08X-%08X-%08X-%08X%s\n", leaf, r.a, r.b, r.c, r.d, tail);
	}
	std::string words(std::initializer_list<uint32_t> w) const {
		char b[17] = {};
		size_t n = 0;
		for (uint32_t x : w) memcpy(b + 4 * n++, &x, 4);
		return " [" + std::string(b) + "]";
	}
	std::string report() const {
		std::string s;
		auto leaf = [&](uint32_t l) {
			auto r = at(l, 0);
			int subs = -1; // not enumerated
			switch (l) {
				case 4: subs = (int)caches; break;
				case 7: subs = (int)structured + 1; break;
				case 0xB: subs = (int)levels; break;
				case 0x12: subs = sgx && max_base >= 7 ? 2 + (int)sections : 0; break;
				case 0x14: subs = (int)trace + 1; break;
				case 0x17: subs = (int)soc + 1; break;
				case 0x24: subs = (int)vectors + 1; break;
			}
			if (subs >= 0) {
				for (int i = 0; i < subs; i++) s += line(l, i, fmt(" [SL %02X]", i).c_str());
			} else if (l == 0 || l == 0x80000000) s += line(l, 0, named ? words({r.b, r.d, r.c}).c_str() : "");
			else if (l >= 0x80000002 && l <= 0x80000004) s += line(l, 0, words({r.a, r.b, r.c, r.d}).c_str());
			else s += line(l, 0, "");
		};
		for (uint32_t l = 0; l <= max_base; l++) leaf(l);
		for (uint32_t l = 0x80000000; l <= max_ext; l++) leaf(l);
		return s;
	}
};
static void dump_cpuid(const Leaves& x) {
	mc::commit();
	venv::fresh();
	env.cpuid_default = [&x](uint32_t l, uint32_t s) { return x.at(l, s); };
	run(vtool_cpuid_dump);
	env.cpuid_default = nullptr;
	same_text(x.report(), "cpuid-dump");
}
MC_FAMILY(P32, cpuid, "every maximum basic leaf up to 0x28 and extended leaf up to 0x80000028, none included; two kinds of names", 0) {
	Leaves x;
	x.max_base = mc::choose(0x29, "maximum leaf");
	uint32_t e = mc::choose(0x2B, "maximum extended leaf");
	x.max_ext = e == 0 ? 0 : e == 1 ? 0x7FFFFFFF : 0x80000000 + e - 2;
	x.named = mc::flag("named");
	x.brand = mc::flag("brand");
	dump_cpuid(x);
}
MC_FAMILY(P32, cpuid_levels, "every combination of 0-5 caches, 1-3 structured leaves, 0-3 topology levels, 0-3 sections with and without SGX, 1-4 trace, 1-4 vendor and 1-3 vector leaves", 0) {
	Leaves x;
	x.caches = mc::choose(6, "caches");
	x.structured = mc::choose(3, "structured");
	x.levels = mc::choose(4, "levels");
	x.sgx = mc::flag("SGX");
	x.sections = mc::choose(4, "sections");
	x.trace = mc::choose(4, "trace");
	x.soc = mc::choose(4, "vendor");
	x.vectors = mc::choose(3, "vectors");
	dump_cpuid(x);
}
#endif
#endif
