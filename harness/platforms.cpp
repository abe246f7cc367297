// P26-P30: the description on operating systems other than Linux.
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include "mc.h"
#include "venv.h"
#include "x86_model.h"
#include "arm_parts.h"

using venv::env;

// ---------------------------------------------------------------- judging one execution

static std::string hits_text() {
	std::string s;
	for (auto& h : env.hits) s += " [" + (h[0] == 'a' ? std::string("allocation") : h.substr(1)) + " failed]";
	return s;
}
// Whatever happened: either a complete description, or a refusal which leaves nothing behind. Returns whether there is a description.
static bool settle(venv::Outcome o) {
	std::string what = hits_text();
	MC_CHECK(!o.aborted, "abort", "initialization aborted%s", what.c_str());
	for (auto& e : env.errors) mc::fail("protocol", "%s%s", e.c_str(), what.c_str());
	if (o.ok) {
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after success%s", what.c_str());
		std::string g = venv::graph_errors(venv::D);
		MC_CHECK(g.empty(), "inconsistent", "%s%s", g.c_str(), what.c_str());
		g = x86::check_ids(venv::D);
		MC_CHECK(g.empty(), "ids", "%s%s", g.c_str(), what.c_str());
		MC_CHECK(venv::unreachable_blocks() == 0, "leak", "%zu blocks are lost%s", venv::unreachable_blocks(), what.c_str());
	} else {
		MC_CHECK(venv::live_blocks() == 0, "leak", "failure, but %zu blocks are still allocated%s", venv::live_blocks(), what.c_str());
		for (int g = 0; g < vd_getters_count; g++) {
			static int getter;
			getter = g;
			auto q = venv::guarded([](void*) { vd_call(getter, 0); }, nullptr);
			MC_CHECK(q.aborted, "visible", "%s answers although initialization failed%s", vd_getters[g].name, what.c_str());
		}
	}
	// final
	env.fail_event.clear();
	static int again;
	uint64_t blocks = venv::live_blocks(), events = env.n_alloc + env.n_query;
	auto r = venv::guarded([](void*) { again = vd_initialize(); }, nullptr);
	MC_CHECK(!r.aborted && !!again == o.ok, "not final", "a second call of the initialization answers otherwise%s", what.c_str());
	MC_CHECK(venv::live_blocks() == blocks && env.n_alloc + env.n_query == events, "not final", "a second call of the initialization detects again%s", what.c_str());
	if (o.ok) {
		static vdesc e;
		e = venv::D;
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after the second call%s", what.c_str());
		std::string d = venv::diff(e, venv::D);
		MC_CHECK(d.empty(), "not final", "%s after a second call%s", d.c_str(), what.c_str());
		// which processor the thread runs on is not known on these systems
		static int32_t p, c;
		static uint32_t u, v;
		r = venv::guarded([](void*) { p = vd_current_processor(), c = vd_current_core(), u = vd_current_uarch_index(), v = vd_current_uarch_index_with_default(0); }, nullptr);
		MC_CHECK(!r.aborted && p != VD_BAD && c != VD_BAD && u < e.nuarch && v < e.nuarch, "current", "current-processor queries: processor %d, core %d, microarchitectures %u and %u", p, c, u, v);
		mc::state(venv::digest(e));
	} else {
		mc::state(7);
	}
	mc::count_validated();
	mc::count_nontrivial();
	return o.ok;
}

// What belongs together, by processor
struct Want {
	std::vector<uint32_t> core, package, cluster; // a number for each group; cluster may be empty (not known)
	std::vector<uint32_t> cache[5]; // empty: no such cache
	std::vector<uint32_t> id; // as dumped, empty: the index
};
static const char* const level_name[5] = {"L1I", "L1D", "L2", "L3", "L4"};
static void check_layout(const Want& w) {
	const vdesc& d = venv::D;
	size_t n = w.core.size();
	MC_CHECK(d.nproc == n, "count", "%u processors reported, %zu expected", d.nproc, n);
	std::vector<int> at(n);
	for (size_t i = 0; i < n; i++) {
		at[i] = w.id.empty() ? (int)i : x86::find(d, w.id[i]);
		MC_CHECK(at[i] >= 0, "missing", "processor %#x is not reported", w.id[i]);
	}
	for (int k = 0; k < 5; k++) MC_CHECK((d.ncache[k] != 0) == !w.cache[k].empty(), "presence", "%u %s caches reported, %s expected", d.ncache[k], level_name[k], w.cache[k].empty() ? "none" : "some");
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j <= i; j++) {
			auto &p = d.proc[at[i]], &q = d.proc[at[j]];
			MC_CHECK((p.core == q.core) == (w.core[i] == w.core[j]), "core", "processors %zu and %zu: cores %d and %d", i, j, p.core, q.core);
			MC_CHECK((p.package == q.package) == (w.package[i] == w.package[j]), "package", "processors %zu and %zu: packages %d and %d", i, j, p.package, q.package);
			if (!w.cluster.empty()) MC_CHECK((p.cluster == q.cluster) == (w.cluster[i] == w.cluster[j]), "cluster", "processors %zu and %zu: clusters %d and %d", i, j, p.cluster, q.cluster);
			for (int k = 0; k < 5; k++) {
				MC_CHECK((p.cache[k] >= 0) == !w.cache[k].empty(), "presence", "%s of processor %zu is %d", level_name[k], i, p.cache[k]);
				if (!w.cache[k].empty()) MC_CHECK((p.cache[k] == q.cache[k]) == (w.cache[k][i] == w.cache[k][j]), "sharing", "%s: processors %zu and %zu use caches %d and %d", level_name[k], i, j, p.cache[k], q.cache[k]);
			}
		}
}
static void check_geometry() {
	const vdesc& d = venv::D;
	for (int k = 0; k < 5; k++)
		for (uint32_t i = 0; i < d.ncache[k]; i++) {
			auto& c = d.cache[k][i];
			MC_CHECK(c.size && c.line_size && c.associativity && c.sets && c.partitions, "geometry", "%s %u has a zero size, line, associativity, number of sets or partitions", level_name[k], i);
			MC_CHECK((uint64_t)c.line_size * c.associativity * c.sets * c.partitions == c.size, "geometry", "%s %u: %u bytes are not %u ways of %u sets of %u bytes in %u partitions", level_name[k], i, c.size, c.associativity, c.sets, c.line_size, c.partitions);
		}
}

// every set of at most depth failing allocations and queries
static void explore_faults(uint32_t machines, void (*emit)(uint32_t), int depth, void (*more)(uint32_t) = nullptr) {
	uint32_t k = mc::choose(machines, "machine");
	static std::map<std::vector<uint64_t>, uint64_t> memo;
	std::vector<uint64_t> f;
	for (int i = 0; i < depth; i++) {
		std::vector<uint64_t> key = f;
		key.push_back(k);
		auto it = memo.find(key);
		uint64_t n;
		if (it != memo.end()) n = it->second;
		else {
			mc::Probe probe;
			venv::fresh();
			emit(k);
			env.fail_event = f;
			venv::initialize();
			n = env.n_alloc + env.n_query;
			if (f.size() <= 1) memo[key] = n;
		}
		uint64_t from = f.empty() ? 0 : f.back() + 1;
		uint32_t c = mc::choose((uint32_t)(n > from ? n - from : 0) + 1, "event");
		if (c == 0) break;
		f.push_back(from + c - 1);
	}
	mc::commit();
	venv::fresh();
	emit(k);
	env.fail_event = f;
	auto o = venv::initialize();
	MC_CHECK(o.ok || !env.hits.empty() || o.aborted, "failed", "initialization of machine %u fails without a fault", k);
	bool ok = settle(o);
	if (ok && more) more(k);
}
// everything fails from some event on
static void explore_persistent(uint32_t machines, void (*emit)(uint32_t)) {
	uint32_t k = mc::choose(machines, "machine");
	uint32_t from = mc::choose(128, "from");
	mc::commit();
	venv::fresh();
	emit(k);
	for (uint64_t i = from; i < 1024; i++) env.fail_event.push_back(i);
	settle(venv::initialize());
}

// ---------------------------------------------------------------- WebAssembly

#if VOS_emscripten || VOS_emscripten_threads
static void check_wasm(int cores, bool x86_host) {
	const vdesc& d = venv::D;
	uint32_t n = cores > 0 ? (uint32_t)cores : 1;
	MC_CHECK(d.nproc == n, "count", "%u processors described, the browser reports %d", d.nproc, cores);
	MC_CHECK(d.npackage == 1 && d.package[0].name[0], "package", "%u packages, the first has the name \"%s\"", d.npackage, d.package[0].name);
	uint32_t per_core = x86_host && n % 2 == 0 ? 2 : 1;
	for (uint32_t i = 0; i < n; i++)
		for (uint32_t j = 0; j < i; j++) {
			auto &p = d.proc[i], &q = d.proc[j];
			bool core = i / per_core == j / per_core;
			MC_CHECK((p.core == q.core) == core, "core", "processors %u and %u of %u: cores %d and %d", i, j, n, p.core, q.core);
			for (int k = 0; k < 2; k++) MC_CHECK(p.cache[k] >= 0 && (p.cache[k] == q.cache[k]) == core, "sharing", "%s of processors %u and %u of %u: %d and %d", level_name[k], i, j, n, p.cache[k], q.cache[k]);
			MC_CHECK((p.cache[2] == q.cache[2]) == (x86_host ? core : p.cluster == q.cluster), "sharing", "L2 of processors %u and %u of %u: %d and %d", i, j, n, p.cache[2], q.cache[2]);
			MC_CHECK(!x86_host || p.cluster == q.cluster, "cluster", "processors %u and %u of %u are in different clusters", i, j, n);
		}
	for (uint32_t i = 0; i < n; i++) {
		MC_CHECK(d.proc[i].cache[2] >= 0, "presence", "no L2 for processor %u of %u", i, n);
		MC_CHECK((d.proc[i].cache[3] >= 0) == x86_host, "presence", "L3 of processor %u of %u is %d", i, n, d.proc[i].cache[3]);
	}
	check_geometry();
	uint32_t largest = 0;
	for (int k = 1; k < 5; k++)
		for (uint32_t i = 0; i < d.ncache[k]; i++) largest = std::max(largest, d.cache[k][i].size);
	MC_CHECK(d.max_cache_size >= largest, "max", "maximum cache size %u, but one has %u", d.max_cache_size, largest);
}
MC_FAMILY(P26, counts, "every number of logical processors up to 200 and invalid ones, both kinds of host", 0) {
	int n = (int)mc::choose(204, "processors") - 3;
	bool x = mc::flag("x86");
	mc::commit();
	venv::fresh();
	env.logical_cores = n == -3 ? INT32_MIN : n;
	env.nan_negative = x;
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails with %d processors", n);
	settle(o);
	check_wasm(n, x);
}
static void emit_wasm(uint32_t k) {
	static const int counts[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16};
	env.logical_cores = counts[k / 2];
	env.nan_negative = k % 2;
}
MC_FAMILY(P26, faults, "1-9 and 16 processors on both kinds of host; every set of at most four failing allocations", 0) {
	explore_faults(20, emit_wasm, 4, [](uint32_t) { check_wasm(env.logical_cores, env.nan_negative); });
}
MC_FAMILY(P26, persistent, "the same machines; everything fails from event k on", 0) {
	explore_persistent(20, emit_wasm);
}
#endif

// ---------------------------------------------------------------- values of system parameters

#if VOS_mach || VOS_freebsd
template <class T>
static std::string bytes(T v) {
	return std::string((const char*)&v, sizeof v);
}
static const int ABSENT = INT32_MIN;
static void set_int(const char* name, int v) {
	if (v != ABSENT) env.sysctl[name] = bytes(v);
}
static std::string c_string(const std::string& s) {
	return s + std::string(1, 0);
}
#endif

#if VOS_mach || VOS_freebsd || VOS_windows
// ---------------------------------------------------------------- x86 caches

static x86::Machine x86_machine(uint32_t thread_bits, uint32_t core_bits, uint32_t present = 15) {
	x86::Machine m;
	m.thread_bits = thread_bits;
	m.core_bits = core_bits;
	uint32_t all = 1u << (thread_bits + core_bits);
	if (present & 1) m.caches.push_back({1, 1, 8, 1, 64, 64, 0, 1u << thread_bits});
	if (present & 2) m.caches.push_back({1, 2, 4, 1, 64, 128, 0, 1u << thread_bits});
	if (present & 4) m.caches.push_back({2, 3, 4, 1, 64, 1024, 0, 1u << thread_bits});
	if (present & 8) m.caches.push_back({3, 3, 12, 1, 64, 8192, 6, all});
	if (present & 16) m.caches.push_back({4, 3, 16, 16, 64, 8192, 0, all});
	return m;
}
static void check_x86_geometry(const x86::Machine& m) {
	const vdesc& d = venv::D;
	uint32_t largest = 0;
	for (int s = 0; s < 5; s++) {
		x86::Cache c = {};
		bool have = m.reported(s, &c);
		MC_CHECK((d.ncache[s] != 0) == have, "presence", "%s: %u caches reported, CPUID declares %s", level_name[s], d.ncache[s], have ? "one" : "none");
		uint32_t flags = (c.edx & 2 ? 2 : 0) | (c.edx & 4 ? 4 : 0) | (c.type == 3 ? 1 : 0);
		for (uint32_t i = 0; i < d.ncache[s]; i++) {
			auto& r = d.cache[s][i];
			MC_CHECK(r.associativity == c.ways && r.partitions == c.partitions && r.line_size == c.line && r.sets == c.sets && r.size == c.ways * c.partitions * c.line * c.sets && r.flags == flags, "geometry",
				"%s %u: reported %u bytes %u ways %u partitions %u line %u sets flags %u, declared %u ways %u partitions %u line %u sets flags %u", level_name[s], i, r.size, r.associativity, r.partitions, r.line_size, r.sets, r.flags, c.ways, c.partitions, c.line, c.sets, flags);
			if (s) largest = r.size;
		}
	}
	MC_CHECK(d.max_cache_size == largest, "max", "maximum cache size is %u, the last level has %u", d.max_cache_size, largest);
}
static void check_x86_identity(const x86::Machine& m) {
	const vdesc& d = venv::D;
	for (uint32_t i = 0; i < d.ncore; i++)
		MC_CHECK(d.core[i].vendor == cpuinfo_vendor_intel && d.core[i].uarch == cpuinfo_uarch_sky_lake && d.core[i].id == m.signature, "identity", "core %u: vendor %u, microarchitecture %#x, signature %#x", i, d.core[i].vendor, d.core[i].uarch, d.core[i].id);
	for (uint32_t i = 0; i < d.ncluster; i++)
		MC_CHECK(d.cluster[i].vendor == cpuinfo_vendor_intel && d.cluster[i].uarch == cpuinfo_uarch_sky_lake && d.cluster[i].id == m.signature, "identity", "cluster %u: vendor %u, microarchitecture %#x, signature %#x", i, d.cluster[i].vendor, d.cluster[i].uarch, d.cluster[i].id);
	MC_CHECK(d.nuarch == 1 && d.uarch[0].uarch == cpuinfo_uarch_sky_lake && d.uarch[0].id == m.signature && d.uarch[0].processor_count == d.nproc && d.uarch[0].core_count == d.ncore, "identity", "%u microarchitectures, the first is %#x, of %u processors and %u cores", d.nuarch, d.uarch[0].uarch, d.uarch[0].processor_count, d.uarch[0].core_count);
}
static void emit_name(const char* name) {
	char b[48] = {};
	strncpy(b, name, 47);
	for (uint32_t l = 0; l < 3; l++) {
		venv::Regs r;
		memcpy(&r.a, b + 16 * l, 4), memcpy(&r.b, b + 16 * l + 4, 4), memcpy(&r.c, b + 16 * l + 8, 4), memcpy(&r.d, b + 16 * l + 12, 4);
		env.leaf(0x80000002 + l, 0, r);
	}
}
static void check_names(const char* want) {
	for (uint32_t i = 0; i < venv::D.npackage; i++) MC_CHECK(strcmp(venv::D.package[i].name, want) == 0, "name", "package %u is named \"%s\"", i, venv::D.package[i].name);
}
#define FULL_NAME "Intel(R) Core(TM) i7-8700 CPU @ 3.20GHz"
#define SHORT_NAME "Intel Core i7-8700"
#endif

// ---------------------------------------------------------------- x86 on macOS and FreeBSD

#if (VOS_mach || VOS_freebsd) && VARCH_x86_64
struct Counts {
	int packages, cores, threads; // as reported
	bool regular() const {
		return packages > 0 && cores > 0 && threads > 0 && cores % packages == 0 && threads % cores == 0;
	}
};
// sharing of each level in processors, 0: not reported
static Want layout(const Counts& c, const x86::Machine& m, const uint32_t share[5]) {
	Want w;
	uint32_t n = c.threads, tpc = c.threads / c.cores, tpp = c.threads / c.packages;
	uint32_t t[5];
	x86::Cache x;
	bool l3 = m.reported(3, &x);
	t[0] = t[1] = share[1] ? share[1] : tpc;
	t[2] = share[2] ? share[2] : l3 ? tpc : tpp;
	t[3] = share[3] ? share[3] : tpp;
	t[4] = share[4] ? share[4] : n;
	for (uint32_t i = 0; i < n; i++) {
		w.core.push_back(i / tpc);
		w.package.push_back(i / tpp);
		for (int k = 0; k < 5; k++)
			if (m.reported(k, &x)) w.cache[k].push_back(i / t[k]);
	}
	w.cluster = w.package; // a cluster of x86 cores is a package
	return w;
}
static void check_apic(const Counts& c, const x86::Machine& m) {
	const vdesc& d = venv::D;
	if ((uint32_t)(c.threads / c.cores) > 1u << m.thread_bits || (uint32_t)(c.cores / c.packages) > 1u << m.core_bits) return;
	std::set<uint32_t> seen;
	for (uint32_t i = 0; i < d.nproc; i++) {
		auto& p = d.proc[i];
		MC_CHECK(seen.insert(p.apic_id).second, "apic", "two processors have the APIC ID %#x", p.apic_id);
		MC_CHECK((p.apic_id & ((1u << m.thread_bits) - 1)) == p.smt_id, "apic", "APIC ID %#x of thread %u", p.apic_id, p.smt_id);
		MC_CHECK(p.apic_id >> (m.thread_bits + m.core_bits) == (uint32_t)p.package, "apic", "APIC ID %#x of package %d", p.apic_id, p.package);
	}
}
static void judge(const Counts& c, const x86::Machine& m, const uint32_t share[5]) {
	auto o = venv::initialize();
	if (c.regular()) MC_CHECK(o.ok || o.aborted, "failed", "initialization fails with %d packages, %d cores, %d threads", c.packages, c.cores, c.threads);
	if (!settle(o)) return;
	check_x86_geometry(m);
	check_x86_identity(m);
	check_names(SHORT_NAME);
	if (c.threads > 0) MC_CHECK(venv::D.nproc == (uint32_t)c.threads, "count", "%u processors described, the system reports %d packages, %d cores, %d threads", venv::D.nproc, c.packages, c.cores, c.threads);
	if (!c.regular()) return;
	check_layout(layout(c, m, share));
	check_apic(c, m);
}

#if VOS_mach
static void emit_counts(const Counts& c) {
	set_int("hw.packages", c.packages);
	set_int("hw.physicalcpu_max", c.cores);
	set_int("hw.logicalcpu_max", c.threads);
}
static void emit_sharing(const std::vector<uint64_t>& v) {
	std::string s;
	for (uint64_t x : v) s += bytes(x);
	env.sysctl["hw.cacheconfig"] = s;
}
static int count_choice(const char* label, int most) {
	int k = (int)mc::choose((uint32_t)most + 4, label);
	return k == 0 ? ABSENT : k == 1 ? -1 : k == 2 ? INT32_MIN + 1 : k - 3;
}
MC_FAMILY(P27, counts, "macOS; packages absent, invalid, 0-4, cores absent, invalid, 0-12, threads absent, invalid, 0-24, independently; three sets of caches", 0) {
	Counts c;
	c.packages = count_choice("packages", 5);
	c.cores = count_choice("cores", 13);
	c.threads = count_choice("threads", 25);
	x86::Machine m = x86_machine(1, 4, mc::pick({15u, 7u, 31u}, "caches"));
	mc::commit();
	venv::fresh();
	m.emit();
	emit_name(FULL_NAME);
	emit_counts(c);
	Counts e = c;
	if (e.packages == ABSENT) e.packages = 0;
	if (e.threads == ABSENT) e.threads = 0;
	static const uint32_t none[5] = {};
	judge(e, m, none);
}
MC_FAMILY(P27, sharing, "macOS; 1-12 threads of one or two per core in one or two packages; sharing of each of four levels absent, 1-6, 8, 12, 16, independently", 0) {
	Counts c;
	uint32_t tpc = 1 + mc::choose(2, "threads per core");
	c.packages = 1 + (int)mc::choose(2, "packages");
	c.cores = c.packages * (int)(1 + mc::choose(12 / (tpc * c.packages), "cores per package"));
	c.threads = c.cores * (int)tpc;
	uint32_t share[5] = {};
	for (int k = 1; k < 5; k++) share[k] = mc::pick({0u, 1u, 2u, 3u, 4u, 5u, 6u, 8u, 12u, 16u}, "sharing");
	x86::Machine m = x86_machine(tpc - 1, 4, 31);
	mc::commit();
	venv::fresh();
	m.emit();
	emit_name(FULL_NAME);
	emit_counts(c);
	emit_sharing({(uint64_t)c.threads, share[1], share[2], share[3], share[4], 0, 0, 0, 0, 0});
	judge(c, m, share);
}
MC_FAMILY(P27, levels, "macOS; every subset of caches; lists of cache sharing of 0 to 16 entries, and none; with two kinds of sharing; one or two packages", 0) {
	Counts c = {1 + (int)mc::choose(2, "packages"), 4, 8};
	uint32_t present = mc::choose(32, "caches");
	uint32_t len = mc::choose(18, "entries");
	bool wide = mc::flag("wide");
	x86::Machine m = x86_machine(1, 2, present);
	mc::commit();
	venv::fresh();
	m.emit();
	emit_name(FULL_NAME);
	emit_counts(c);
	uint32_t full[16] = {8, wide ? 4u : 2u, wide ? 4u : 2u, wide ? 8u : 4u, 8, 3, 5, 7, 9, 11, 13, 15, 1, 1, 1, 1}, share[5] = {};
	if (len < 17) {
		std::vector<uint64_t> v(full, full + len);
		emit_sharing(v);
		for (uint32_t k = 1; k < 5 && k < len; k++) share[k] = full[k];
	}
	judge(c, m, share);
}
static const struct {
	Counts c;
	uint32_t present;
	bool sharing;
} mach_machines[] = {{{1, 1, 1}, 15, true}, {{1, 4, 8}, 15, true}, {{1, 4, 8}, 31, false}, {{2, 4, 4}, 7, true}, {{2, 6, 12}, 31, true}};
static void emit_machine(uint32_t k) {
	auto& x = mach_machines[k];
	x86_machine(1, 3, x.present).emit();
	emit_name(FULL_NAME);
	emit_counts(x.c);
	uint64_t n = x.c.threads, tpc = n / x.c.cores, tpp = n / x.c.packages;
	if (x.sharing) emit_sharing({n, tpc, tpc, tpp, n, 0, 0, 0, 0, 0});
}
static const uint32_t machine_count = 5;
#endif

#if VOS_freebsd
static std::string group(int level, int cache, const std::string& inner) {
	return venv::fmt("<group level=\"%d\" cache-level=\"%d\">\n <cpu count=\"8\" mask=\"ff,0,0,0\">0, 1, 2, 3, 4, 5, 6, 7</cpu>\n%s</group>\n", level, cache, inner.empty() ? "" : ("<children>\n" + inner + "</children>\n").c_str());
}
static std::string topology_text(int packages, int style) {
	std::string inner;
	switch (style) {
		case 0: // the root alone is a package, with caches below
			for (int i = 0; i < 3; i++) inner += group(2, 3, i ? "" : group(3, 2, ""));
			return "<groups>\n" + group(1, 0, inner) + "</groups>\n";
		case 1: // packages below the root
			for (int i = 0; i < packages; i++) inner += group(2, 0, group(3, 3, "") + group(3, 3, group(4, 2, "")));
			return "<groups>\n" + group(1, 0, inner) + "</groups>\n";
		default: // the root shares a cache
			return "<groups>\n" + group(1, 3, group(2, 2, "") + group(2, 2, "")) + "</groups>\n";
	}
}
static void emit_counts(const Counts& c, int threads_per_core, int style, int end = 0) {
	if (style >= 0) {
		std::string s = style < 3 ? topology_text(c.packages, style) : style == 3 ? "<groups>\n</groups>\n" : style == 4 ? "x" : "";
		if (end == 0) s = c_string(s);
		env.sysctl["kern.sched.topology_spec"] = s;
	}
	set_int("kern.smp.cores", c.cores);
	set_int("kern.smp.threads_per_core", threads_per_core);
}
MC_FAMILY(P27, counts, "FreeBSD; 1-6 packages described in three ways, or no description, or useless ones; cores absent, invalid, 0-16; threads per core absent, invalid, 0-8; three sets of caches; text with or without end mark", 0) {
	Counts c;
	int style = (int)mc::choose(7, "description") - 1;
	c.packages = style == 1 ? 1 + (int)mc::choose(6, "packages") : 1;
	int k = (int)mc::choose(20, "cores");
	c.cores = k == 0 ? ABSENT : k == 1 ? -1 : k == 2 ? INT32_MIN + 1 : k - 3;
	k = (int)mc::choose(12, "threads per core");
	int tpc = k == 0 ? ABSENT : k == 1 ? -1 : k == 2 ? INT32_MIN + 1 : k - 3;
	int end = (int)mc::choose(2, "end");
	x86::Machine m = x86_machine(tpc == 2 ? 1 : 3, 4, mc::pick({15u, 7u, 31u}, "caches"));
	mc::commit();
	venv::fresh();
	m.emit();
	emit_name(FULL_NAME);
	emit_counts(c, tpc, style, end);
	c.threads = c.cores > 0 && tpc > 0 ? c.cores * tpc : 0;
	if (style < 0 || style > 2) c.packages = 0;
	static const uint32_t none[5] = {};
	judge(c, m, none);
}
MC_FAMILY(P27, levels, "FreeBSD; every subset of caches; 1-3 packages, 1-4 cores each, 1-4 threads each", 0) {
	Counts c;
	c.packages = 1 + (int)mc::choose(3, "packages");
	c.cores = c.packages * (1 + (int)mc::choose(4, "cores"));
	int tpc = 1 + (int)mc::choose(4, "threads");
	c.threads = c.cores * tpc;
	x86::Machine m = x86_machine(tpc == 1 ? 0 : tpc == 2 ? 1 : 2, 2, mc::choose(32, "caches"));
	mc::commit();
	venv::fresh();
	m.emit();
	emit_name(FULL_NAME);
	emit_counts(c, tpc, 1);
	static const uint32_t none[5] = {};
	judge(c, m, none);
}
static const struct {
	Counts c;
	int style;
	uint32_t present;
} bsd_machines[] = {{{1, 1, 1}, 0, 15}, {{1, 4, 8}, 2, 31}, {{2, 4, 4}, 1, 7}, {{3, 6, 12}, 1, 31}};
static void emit_machine(uint32_t k) {
	auto& x = bsd_machines[k];
	x86_machine(1, 3, x.present).emit();
	emit_name(FULL_NAME);
	emit_counts(x.c, x.c.threads / x.c.cores, x.style);
}
static const uint32_t machine_count = 4;
#endif

MC_FAMILY(P27, faults, "representative machines; every set of at most three failing allocations and questions to the system", 0) {
	explore_faults(machine_count, emit_machine, 3);
}
MC_FAMILY(P27, persistent, "representative machines; everything fails from event k on", 0) {
	explore_persistent(machine_count, emit_machine);
}
#endif

// ---------------------------------------------------------------- Apple processors

#if VOS_mach && VARCH_arm64
#ifdef VERIF_IPHONE
static const bool phone = true;
#else
static const bool phone = false;
#endif
struct AppleFamily {
	uint32_t id;
	uint32_t big, small; // equal if there is one kind of cores
	bool v81, v84; // known to implement LSE, RDM, FP16 / FHM, FCMA, JSCVT, dot product
};
static const AppleFamily apple[] = {
	{0x37a09642, cpuinfo_uarch_cyclone, cpuinfo_uarch_cyclone, false, false},
	{0x2c91a47e, cpuinfo_uarch_typhoon, cpuinfo_uarch_typhoon, false, false},
	{0x92fb37c8, cpuinfo_uarch_twister, cpuinfo_uarch_twister, false, false},
	{0x67ceee93, cpuinfo_uarch_hurricane, cpuinfo_uarch_hurricane, false, false},
	{0xe81e7ef6, cpuinfo_uarch_monsoon, cpuinfo_uarch_mistral, true, false},
	{0x07d34b9f, cpuinfo_uarch_vortex, cpuinfo_uarch_tempest, true, false},
	{0x462504d2, cpuinfo_uarch_lightning, cpuinfo_uarch_thunder, true, true},
	{0x1b588bb3, cpuinfo_uarch_firestorm, cpuinfo_uarch_icestorm, true, true},
	{0xda33d83d, cpuinfo_uarch_avalanche, cpuinfo_uarch_blizzard, false, false},
	{0x8765edea, cpuinfo_uarch_unknown, cpuinfo_uarch_unknown, false, false}, // not known to the library
	{0, cpuinfo_uarch_unknown, cpuinfo_uarch_unknown, false, false}, // not reported
};
static const uint32_t families = sizeof apple / sizeof *apple;
static void emit_apple(const AppleFamily& f, int packages, int cores, int threads) {
	if (f.id) env.sysctl["hw.cpufamily"] = bytes(f.id);
	set_int("hw.packages", packages);
	set_int("hw.physicalcpu_max", cores);
	set_int("hw.logicalcpu_max", threads);
}
static void emit_caches(uint32_t line, uint32_t l1i, uint32_t l1d, uint32_t l2, uint32_t l3) {
	const uint32_t v[5] = {line, l1i, l1d, l2, l3};
	static const int key[5] = {16, 17, 18, 20, 22};
	for (int k = 0; k < 5; k++)
		if (v[k]) env.sysctl_hw[key[k]] = bytes(v[k]);
}
static void check_kinds(const AppleFamily& f, bool documented) {
	const vdesc& d = venv::D;
	std::map<uint32_t, uint32_t> count;
	for (uint32_t i = 0; i < d.ncore; i++) {
		auto& c = d.core[i];
		MC_CHECK(c.vendor == cpuinfo_vendor_apple, "vendor", "vendor of core %u is %u", i, c.vendor);
		MC_CHECK(c.uarch == f.big || c.uarch == f.small, "microarchitecture", "core %u of %u has the microarchitecture %#x", i, d.ncore, c.uarch);
		MC_CHECK(d.cluster[c.cluster].uarch == c.uarch && d.cluster[c.cluster].vendor == c.vendor, "cluster", "core %u and its cluster are of different kinds", i);
		count[c.uarch]++;
	}
	// performance cores come first
	for (uint32_t i = 1; i < d.ncore; i++) MC_CHECK(f.big == f.small || !(d.core[i].uarch == f.big && d.core[i - 1].uarch == f.small), "order", "performance core %u follows an efficiency core", i);
	if (documented && f.big != f.small) {
		uint32_t big = d.ncore - 4;
		MC_CHECK(count[f.big] == big && count[f.small] == 4, "microarchitecture", "%u performance and %u efficiency cores among %u", count[f.big], count[f.small], d.ncore);
	}
}
MC_FAMILY(P28, counts, "every family, unknown and unreported ones; packages absent, invalid, 0-3; cores absent, invalid, 0-12; threads absent, invalid, 0-24", 0) {
	auto& f = apple[mc::choose(families, "family")];
	auto value = [](uint32_t most, const char* label) {
		int k = (int)mc::choose(most + 4, label);
		return k == 0 ? ABSENT : k == 1 ? -1 : k == 2 ? INT32_MIN + 1 : k - 3;
	};
	int packages = phone ? 1 : value(4, "packages"), cores = value(13, "cores"), threads = value(25, "threads");
	bool caches = mc::flag("caches");
	mc::commit();
	venv::fresh();
	emit_apple(f, packages, cores, threads);
	if (caches) emit_caches(128, 131072, 65536, 4 << 20, 8 << 20);
	bool regular = packages > 0 && cores > 0 && threads > 0 && cores % packages == 0 && threads % cores == 0;
	auto o = venv::initialize();
	if (regular) MC_CHECK(o.ok || o.aborted, "failed", "initialization fails with %d packages, %d cores, %d threads", packages, cores, threads);
	if (!settle(o)) return;
	if (threads > 0) MC_CHECK(venv::D.nproc == (uint32_t)threads, "count", "%u processors described of %d", venv::D.nproc, threads);
	// documented: 2 + 4 cores, and 4 + 4 cores except for the oldest pair
	bool documented = regular && packages == 1 && (cores == 6 || (cores == 8 && f.big != cpuinfo_uarch_monsoon));
	check_kinds(f, documented);
	if (caches) check_geometry();
	if (!regular) return;
	Want w;
	for (int i = 0; i < threads; i++) {
		w.core.push_back(i / (threads / cores));
		w.package.push_back(i / (threads / packages));
		w.cluster.push_back(w.package.back() << 16 | venv::D.core[venv::D.proc[i].core].uarch % 65536);
	}
	if (caches) {
		w.cache[0] = w.cache[1] = w.core;
		w.cache[2] = w.cache[3] = std::vector<uint32_t>(threads, 0);
	}
	check_layout(w);
}
MC_FAMILY(P28, caches, "every family; sizes of each cache and of the lines absent or of several values, of four or eight bytes; 1-8 cores", 0) {
	auto& f = apple[mc::choose(families, "family")];
	int cores = 1 + (int)mc::choose(8, "cores");
	uint32_t line = mc::pick({0u, 64u, 128u}, "line");
	uint32_t l1i = mc::pick({0u, 65536u, 196608u}, "L1I"), l1d = mc::pick({0u, 65536u, 131072u}, "L1D"), l2 = mc::pick({0u, 1u << 20, 12u << 20}, "L2"), l3 = mc::pick({0u, 4u << 20, 8u << 20}, "L3");
	uint32_t wide = mc::choose(6, "eight bytes"); // which value is reported as eight bytes
	mc::commit();
	venv::fresh();
	emit_apple(f, 1, cores, cores);
	emit_caches(line, l1i, l1d, l2, l3);
	static const int key[5] = {16, 17, 18, 20, 22};
	uint32_t v[5] = {line, l1i, l1d, l2, l3};
	bool unsure = false;
	if (wide && v[wide - 1]) env.sysctl_hw[key[wide - 1]] = bytes((uint64_t)v[wide - 1]), unsure = true;
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails");
	settle(o);
	check_kinds(f, false);
	check_geometry();
	const vdesc& d = venv::D;
	MC_CHECK(d.nproc == (uint32_t)cores && d.ncore == (uint32_t)cores, "count", "%u processors and %u cores described of %d", d.nproc, d.ncore, cores);
	uint32_t largest = 0;
	for (int k = 0; k < 4; k++) {
		bool have = v[k + 1] != 0 && line != 0;
		if (unsure && wide - 1 == 0) { // the line size may count as unknown
			if (!d.ncache[k]) continue;
		} else if (unsure && (int)wide - 2 == k && !d.ncache[k]) continue;
		MC_CHECK((d.ncache[k] != 0) == have, "presence", "%u %s caches described, size %u and line size %u are reported", d.ncache[k], level_name[k], v[k + 1], line);
		for (uint32_t i = 0; i < d.ncache[k]; i++) {
			MC_CHECK(d.cache[k][i].size == v[k + 1] && d.cache[k][i].line_size == line, "size", "%s %u: %u bytes in lines of %u, reported are %u and %u", level_name[k], i, d.cache[k][i].size, d.cache[k][i].line_size, v[k + 1], line);
			if (k) largest = d.cache[k][i].size;
			MC_CHECK(d.cache[k][i].processor_count == (k < 2 ? 1u : (uint32_t)cores), "sharing", "%s %u is shared by %u processors of %d", level_name[k], i, d.cache[k][i].processor_count, cores);
		}
	}
	MC_CHECK(d.max_cache_size >= largest, "max", "maximum cache size %u, but the last level has %u", d.max_cache_size, largest);
}

// name of the package
static std::string chip_of(const std::string& device, uint32_t major, uint32_t minor, bool* known) {
	*known = true;
	if (device == "iPhone" && major >= 3 && major <= 15) return venv::fmt("Apple A%u", major + 1);
	if (device == "iPad") {
		if (major == 2 && minor >= 1 && minor <= 7) return "Apple A5";
		if (major == 3 && minor >= 1 && minor <= 3) return "Apple A5X";
		if (major == 3 && minor >= 4 && minor <= 6) return "Apple A6X";
		if (major == 4 && minor >= 1 && minor <= 9) return "Apple A7";
		if (major == 5 && (minor == 1 || minor == 2)) return "Apple A8";
		if (major == 5 && (minor == 3 || minor == 4)) return "Apple A8X";
		if (major == 6 && (minor == 3 || minor == 4 || minor == 7 || minor == 8)) return "Apple A9X";
		if (major == 6 && (minor == 11 || minor == 12)) return "Apple A9";
		if (major == 7 && minor >= 1 && minor <= 4) return "Apple A10X";
		if (major == 7 && (minor == 5 || minor == 6)) return "Apple A10";
	}
	if (device == "iPod" && major == 5 && minor == 1) return "Apple A5";
	if (device == "iPod" && major == 7 && minor == 1) return "Apple A8";
	*known = false;
	return "";
}
MC_FAMILY(P28, devices, "iPhone, iPad, iPod, AppleTV, Watch, other devices; every major version 0-20 and minor version 0-20", 0) {
	std::string device = mc::pick({"iPhone", "iPad", "iPod", "AppleTV", "Watch", "Mac", "VirtualMac", "iPhon", "iPads", "x"}, "device");
	uint32_t major = mc::choose(21, "major"), minor = mc::choose(21, "minor");
	mc::commit();
	venv::fresh();
	emit_apple(apple[4], 1, 6, 6);
	env.sysctl["hw.machine"] = c_string(venv::fmt("%s%u,%u", device.c_str(), major, minor));
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails");
	settle(o);
	bool known;
	std::string want = chip_of(device, major, minor, &known), name = venv::D.package[0].name;
	if (known) MC_CHECK(name == want, "name", "%s%u,%u has the chip \"%s\", not \"%s\"", device.c_str(), major, minor, name.c_str(), want.c_str());
	else if (device == "iPhone" || device == "iPad" || device == "iPod") MC_CHECK(name.empty() || name.compare(0, 7, "Apple A") == 0, "name", "%s%u,%u has the chip \"%s\"", device.c_str(), major, minor, name.c_str());
	else MC_CHECK(name.empty(), "name", "%s%u,%u has the chip \"%s\"", device.c_str(), major, minor, name.c_str());
}
MC_FAMILY(P28, names, "brand strings of every length 0-100 or none; malformed device names; one and two packages", 0) {
	uint32_t kind = mc::choose(2, "brand string");
	uint32_t len = kind ? mc::choose(101, "length") : 0;
	std::string machine = mc::pick({"", "arm64", "iPhone", "iPhone,", "iPhone11", "iPhone11,", ",", "11,2", "iPhone99999999999,1", "iPhone4294967295,1", "iPad6,99999999999", "iPhone11,2x", "aVeryLongNameOfADevice12,3", "-"}, "device");
	uint32_t packages = 1 + mc::choose(phone ? 1 : 2, "packages");
	mc::commit();
	venv::fresh();
	emit_apple(apple[7], (int)packages, 8, 8);
	std::string brand;
	for (uint32_t i = 0; i < len; i++) brand += (char)('!' + i % 90);
	if (kind) env.sysctl["machdep.cpu.brand_string"] = c_string(brand);
	if (machine != "-") env.sysctl["hw.machine"] = c_string(machine);
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails");
	settle(o);
	for (uint32_t i = 0; i < venv::D.npackage; i++) {
		std::string name = venv::D.package[i].name;
		if (kind) MC_CHECK(name == brand.substr(0, CPUINFO_PACKAGE_NAME_MAX - 1), "name", "package %u: \"%s\", the system reports \"%s\"", i, name.c_str(), brand.c_str());
		else if (machine == "iPhone11,2x") MC_CHECK(name == "Apple A12" || name.empty(), "name", "\"%s\" from %s", name.c_str(), machine.c_str());
		else MC_CHECK(name.empty() || name.compare(0, 7, "Apple A") == 0, "name", "\"%s\" from %s", name.c_str(), machine.c_str());
	}
}

// instruction sets
static const struct {
	const char* parameter;
	int isa[2];
	int known; // 0 never, 1: v81, 2: v84
} features[] = {
	{"hw.optional.arm.FEAT_LSE", {VI_arm_atomics, -1}, 1},
	{"hw.optional.arm.FEAT_RDM", {VI_arm_neon_rdm, -1}, 1},
	{"hw.optional.arm.FEAT_FP16", {VI_arm_fp16_arith, VI_arm_neon_fp16_arith}, 1},
	{"hw.optional.arm.FEAT_FHM", {VI_arm_fhm, -1}, 2},
	{"hw.optional.armv8_2_fhm", {VI_arm_fhm, -1}, 2},
	{"hw.optional.arm.FEAT_BF16", {VI_arm_bf16, VI_arm_neon_bf16}, 0},
	{"hw.optional.arm.FEAT_FCMA", {VI_arm_fcma, -1}, 2},
	{"hw.optional.arm.FEAT_JSCVT", {VI_arm_jscvt, -1}, 2},
	{"hw.optional.arm.FEAT_DotProd", {VI_arm_neon_dot, -1}, 2},
	{"hw.optional.arm.FEAT_I8MM", {VI_arm_i8mm, -1}, 0},
	{"hw.optional.arm.FEAT_SME", {VI_arm_sme, -1}, 0},
	{"hw.optional.arm.FEAT_SME2", {VI_arm_sme2, -1}, 0},
};
static const uint32_t nfeatures = sizeof features / sizeof *features;
static void judge_isa(const AppleFamily& f, const uint8_t* state) {
	venv::fresh();
	emit_apple(f, 1, 8, 8);
	bool yes[VI_COUNT] = {}, unsure[VI_COUNT] = {};
	for (uint32_t i = 0; i < nfeatures; i++) {
		if (state[i] == 1 || state[i] == 2) env.sysctl[features[i].parameter] = bytes((int)(state[i] - 1));
		if (state[i] == 3) env.sysctl[features[i].parameter] = bytes((uint64_t)1);
		bool known = features[i].known == 1 ? f.v81 : features[i].known == 2 ? f.v84 : false;
		for (int k : features[i].isa)
			if (k >= 0) {
				yes[k] |= state[i] == 2 || known;
				unsure[k] |= state[i] == 3 || (state[i] == 1 && known);
			}
	}
	for (int k : {VI_arm_aes, VI_arm_sha1, VI_arm_sha2, VI_arm_pmull, VI_arm_crc32}) yes[k] = true;
	for (int k : {VI_arm_neon, VI_arm_neon_v8, VI_arm_neon_fma, VI_arm_neon_fp16, VI_arm_thumb, VI_arm_thumb2, VI_arm_v5e, VI_arm_v6, VI_arm_v6k, VI_arm_v7, VI_arm_v7mp, VI_arm_v8, VI_arm_idiv, VI_arm_vfpv2, VI_arm_vfpv3, VI_arm_vfpv3_d32, VI_arm_vfpv3_fp16, VI_arm_vfpv3_fp16_d32, VI_arm_vfpv4, VI_arm_vfpv4_d32}) unsure[k] = true; // fixed by the architecture
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails");
	settle(o);
	for (int k = 0; k < VI_COUNT; k++)
		if (!unsure[k]) MC_CHECK(!!venv::D.isa[k] == yes[k], "instruction set", "%s is reported as %d with family %#x", vd_isa_names[k], venv::D.isa[k], f.id);
}
MC_FAMILY(P28, isa, "every family; every pair of features absent, 0, 1 or of eight bytes, all others together absent, 0 or 1", 0) {
	auto& f = apple[mc::choose(families, "family")];
	uint8_t others = (uint8_t)mc::choose(3, "others");
	uint32_t i = mc::choose(nfeatures, "feature"), j = mc::choose(nfeatures, "feature");
	if (j < i) mc::reject();
	uint8_t state[nfeatures];
	memset(state, others, sizeof state);
	state[i] = (uint8_t)mc::choose(4, "value");
	if (j != i) state[j] = (uint8_t)mc::choose(4, "value");
	mc::commit();
	judge_isa(f, state);
}
MC_FAMILY(P28, isa_sets, "unknown family and one with features known; every combination of features absent or 1", 0) {
	auto& f = apple[mc::pick({9u, 6u, 4u}, "family")];
	uint32_t set = mc::choose(1u << nfeatures, "features");
	mc::commit();
	uint8_t state[nfeatures];
	for (uint32_t i = 0; i < nfeatures; i++) state[i] = set >> i & 1 ? 2 : 0;
	judge_isa(f, state);
}
static void emit_machine(uint32_t k) {
	static const struct {
		int family, packages, cores, threads;
		bool brand;
	} m[] = {{0, 1, 2, 2, false}, {5, 1, 6, 6, false}, {7, 1, 8, 8, true}, {7, 2, 8, 16, true}, {9, 1, 4, 4, false}};
	auto& x = m[k];
	emit_apple(apple[x.family], phone ? 1 : x.packages, x.cores, x.threads);
	emit_caches(64, 65536, 65536, 4 << 20, 8 << 20);
	if (x.brand) env.sysctl["machdep.cpu.brand_string"] = c_string("Apple M1");
	env.sysctl["hw.machine"] = c_string("iPhone11,2");
	env.sysctl["hw.optional.arm.FEAT_LSE"] = bytes(1);
	env.sysctl["hw.optional.arm.FEAT_BF16"] = bytes(1);
	std::string s;
	for (int i = 0; i < 10; i++) s += bytes((uint64_t)(i < 3 ? 1 : 0));
	env.sysctl["hw.cacheconfig"] = s;
}
MC_FAMILY(P28, faults, "representative machines; every set of at most three failing allocations and questions to the system", 0) {
	explore_faults(5, emit_machine, 3);
}
MC_FAMILY(P28, persistent, "representative machines; everything fails from event k on", 0) {
	explore_persistent(5, emit_machine);
}
#endif

// ---------------------------------------------------------------- Windows

#if VOS_windows
#include "shim/windows/windows.h"
// A machine as groups of processors, which are in cores, which are in packages. Everything is contiguous in the order of groups.
struct WinProc {
	uint32_t group, id, core, package;
};
struct WinMachine {
	std::vector<WinProc> p;
	std::vector<uint32_t> groups; // processors in each
};
static std::string relation(int kind, const std::vector<std::pair<uint32_t, uint64_t>>& masks, const CACHE_RELATIONSHIP* cache = nullptr, bool zero_count = false) {
	SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX r;
	memset(&r, 0, sizeof r);
	size_t head = kind == RelationCache ? offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Cache.GroupMask) : offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Processor.GroupMask);
	size_t size = head + masks.size() * sizeof(GROUP_AFFINITY);
	r.Relationship = (LOGICAL_PROCESSOR_RELATIONSHIP)kind;
	r.Size = (DWORD)size;
	if (kind == RelationCache) {
		r.Cache = *cache;
		r.Cache.GroupCount = zero_count ? 0 : (WORD)masks.size();
	} else r.Processor.GroupCount = (WORD)masks.size();
	std::string s((const char*)&r, head);
	for (auto& m : masks) {
		GROUP_AFFINITY a;
		memset(&a, 0, sizeof a);
		a.Group = (WORD)m.first;
		a.Mask = m.second;
		s += std::string((const char*)&a, sizeof a);
	}
	return s;
}
static std::vector<std::pair<uint32_t, uint64_t>> masks_of(const WinMachine& m, uint32_t WinProc::*what, uint32_t k) {
	std::map<uint32_t, uint64_t> v;
	for (auto& p : m.p)
		if (p.*what == k) v[p.group] |= 1ull << p.id;
	return {v.begin(), v.end()};
}
static void emit_windows(const WinMachine& m) {
	env.groups = m.groups;
	for (uint32_t k = 0; k <= m.p.back().core; k++) env.relations[RelationProcessorCore] += relation(RelationProcessorCore, masks_of(m, &WinProc::core, k));
	for (uint32_t k = 0; k <= m.p.back().package; k++) env.relations[RelationProcessorPackage] += relation(RelationProcessorPackage, masks_of(m, &WinProc::package, k));
}
// how each processor follows the previous one: 0 same core, 1 new core, 2 new package, 3 new core in a new group, 4 new package in a new group
static WinMachine machine_from(const std::vector<uint32_t>& steps) {
	WinMachine m;
	WinProc p = {0, 0, 0, 0};
	m.p.push_back(p);
	m.groups.push_back(1);
	for (uint32_t s : steps) {
		p.id++;
		if (s >= 1) p.core++;
		if (s == 2 || s == 4) p.package++;
		if (s >= 3) p.group++, p.id = 0, m.groups.push_back(0);
		m.groups.back()++;
		m.p.push_back(p);
	}
	return m;
}
static WinMachine choose_machine(uint32_t most) {
	uint32_t n = 1 + mc::choose(most, "processors");
	std::vector<uint32_t> steps;
	for (uint32_t i = 1; i < n; i++) steps.push_back(mc::choose(5, "boundary"));
	return machine_from(steps);
}
static Want layout(const WinMachine& m) {
	Want w;
	for (auto& p : m.p) {
		w.core.push_back(p.core);
		w.package.push_back(p.package);
		w.id.push_back(p.group << 16 | p.id);
	}
	return w;
}
// groups which could hold more processors than are active
static void spare(const WinMachine& m, uint32_t how) {
	if (!how) return;
	env.active = m.groups;
	if (how & 1) env.groups[0]++;
	if (how & 2) env.groups.back() += 3;
	if (how & 4) env.groups.push_back(how & 1 ? 64 : 1), env.active.push_back(0);
}

#if VARCH_x86_64
static void judge_x86(const WinMachine& m, const x86::Machine& x) {
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails on a machine of %zu processors", m.p.size());
	settle(o);
	check_x86_geometry(x);
	check_x86_identity(x);
	check_names(SHORT_NAME);
	Want w = layout(m);
	w.cluster = w.package; // a cluster of x86 cores is a package
	// APIC IDs in the order of packages, cores and threads
	const vdesc& d = venv::D;
	uint32_t first_core = 0, package = 0, core = 0, smt = 0;
	bool fits = true;
	std::vector<uint32_t> apic;
	for (size_t i = 0; i < m.p.size(); i++) {
		auto& p = m.p[i];
		if (p.package != package) package = p.package, first_core = p.core;
		smt = i && p.core == core ? smt + 1 : 0;
		core = p.core;
		if (smt >= 1u << x.thread_bits || core - first_core >= 1u << x.core_bits) fits = false;
		apic.push_back(package << (x.thread_bits + x.core_bits) | (core - first_core) << x.thread_bits | smt);
	}
	if (!fits) return;
	for (size_t i = 0; i < m.p.size(); i++) {
		int k = x86::find(d, w.id[i]);
		MC_CHECK(k >= 0, "missing", "processor %u of group %u is not reported", m.p[i].id, m.p[i].group);
		MC_CHECK(d.proc[k].apic_id == apic[i], "apic", "APIC ID %#x instead of %#x for thread %u of core %u of package %u", d.proc[k].apic_id, apic[i], d.proc[k].smt_id, m.p[i].core, m.p[i].package);
	}
	for (int k = 0; k < 5; k++) {
		x86::Cache c;
		if (x.reported(k, &c))
			for (uint32_t a : apic) w.cache[k].push_back(a >> x86::log2ceil(c.sharing));
	}
	check_layout(w);
}
static void emit_x86(const WinMachine& m, const x86::Machine& x) {
	x.emit();
	emit_name(FULL_NAME);
	emit_windows(m);
}
MC_FAMILY(P29, layouts, "1-7 processors; every arrangement in cores, packages and groups; two widths of the thread number; cores addressed by three bits", 0) {
	WinMachine m = choose_machine(7);
	x86::Machine x = x86_machine(1 + mc::choose(2, "thread bits"), 3, 31);
	mc::commit();
	venv::fresh();
	emit_x86(m, x);
	judge_x86(m, x);
}
MC_FAMILY(P29, deep_layouts, "1-9 processors; every arrangement", 1) {
	WinMachine m = choose_machine(9);
	x86::Machine x = x86_machine(1, 3, 31);
	mc::commit();
	venv::fresh();
	emit_x86(m, x);
	judge_x86(m, x);
}
MC_FAMILY(P29, caches, "1-5 processors in every arrangement; every subset of caches; sharing of the second level by 1-16 and of the third by 1-32 addresses", 0) {
	WinMachine m = choose_machine(5);
	uint32_t present = mc::choose(32, "caches");
	uint32_t l2 = mc::pick({1u, 2u, 4u, 16u}, "L2"), l3 = mc::pick({1u, 2u, 4u, 8u, 32u}, "L3");
	x86::Machine x = x86_machine(1, 3, present);
	for (auto& c : x.caches) {
		if (c.level == 2) c.sharing = l2;
		if (c.level == 3) c.sharing = l3;
	}
	mc::commit();
	venv::fresh();
	emit_x86(m, x);
	judge_x86(m, x);
}
MC_FAMILY(P29, inactive, "1-6 processors in every arrangement; groups with room for more processors, and groups without processors; Wine", 0) {
	WinMachine m = choose_machine(6);
	uint32_t how = mc::choose(9, "inactive");
	if (how == 8 && m.groups.size() > 1) mc::reject();
	x86::Machine x = x86_machine(1, 3);
	mc::commit();
	venv::fresh();
	emit_x86(m, x);
	if (how == 8) env.wine = true;
	else spare(m, how);
	judge_x86(m, x);
}
MC_FAMILY(P29, large, "one group of up to 64 processors, several of 64; one or two threads per core; 1, 2 or 4 packages", 0) {
	uint32_t groups = 1 + mc::choose(3, "groups"), tpc = 1 + mc::choose(2, "threads"), packages = mc::pick({1u, 2u, 4u}, "packages");
	uint32_t per_group = groups == 1 ? 8 * (1 + mc::choose(8, "processors")) : 64;
	uint32_t n = groups * per_group;
	if (n % (tpc * packages) != 0) mc::reject();
	WinMachine m;
	m.groups.assign(groups, per_group);
	for (uint32_t i = 0; i < n; i++) m.p.push_back({i / per_group, i % per_group, i / tpc, i / (n / packages)});
	x86::Machine x = x86_machine(tpc - 1, 8, 15);
	mc::commit();
	venv::fresh();
	emit_x86(m, x);
	judge_x86(m, x);
}
// the system's answers contradict each other
MC_FAMILY(P29, contradictions, "1-6 processors in every arrangement; one core or package is not listed, lacks a processor, or has one too many", 0) {
	WinMachine m = choose_machine(6);
	bool package = mc::flag("package");
	uint32_t WinProc::*what = package ? &WinProc::package : &WinProc::core;
	uint32_t count = m.p.back().*what + 1, victim = mc::choose(count, "which"), how = mc::choose(4, "how");
	mc::commit();
	venv::fresh();
	emit_x86(m, x86_machine(1, 3, 31));
	int kind = package ? RelationProcessorPackage : RelationProcessorCore;
	std::string s;
	for (uint32_t k = 0; k < count; k++) {
		auto v = masks_of(m, what, k);
		if (k == victim) {
			if (how == 0) continue;
			if (how == 1) v.back().second &= v.back().second - 1;
			if (how == 2) v.back().second |= 1ull << m.groups[v.back().first];
			if (how == 3) v.back().second |= 1ull << 63;
		}
		s += relation(kind, v);
	}
	env.relations[kind] = s;
	settle(venv::initialize());
}
static void emit_machine(uint32_t k) {
	static const std::vector<uint32_t> steps[] = {{}, {0, 1, 0, 1, 0}, {1, 2, 1}, {0, 1, 0, 4, 0, 1, 0}, {0, 3, 0, 2, 0}};
	emit_x86(machine_from(steps[k]), x86_machine(1, 3, k == 1 ? 31 : k == 2 ? 7 : 15));
}
MC_FAMILY(P29, faults, "representative machines; every set of at most three failing allocations and questions to the system", 0) {
	explore_faults(5, emit_machine, 3);
}
MC_FAMILY(P29, persistent, "representative machines; everything fails from event k on", 0) {
	explore_persistent(5, emit_machine);
}
#endif

#if VARCH_arm64
static const char* const cpu0 = "HARDWARE\\DESCRIPTION\\System\\CentralProcessor\\0:";
static void set_name(const std::u16string& s) {
	env.registry[std::string(cpu0) + "ProcessorNameString"] = {REG_SZ, std::string((const char*)s.c_str(), 2 * (s.size() + 1))};
}
static void set_midr(uint64_t v) {
	env.registry[std::string(cpu0) + "CP 4000"] = {REG_QWORD, std::string((const char*)&v, 8)};
}
static void set_mhz(uint32_t v) {
	env.registry[std::string(cpu0) + "~MHz"] = {REG_DWORD, std::string((const char*)&v, 4)};
}
static const uint32_t A76 = 0x414FD0B0;
static void emit_registry() {
	set_name(u"Snapdragon 8cx");
	set_midr(A76);
	set_mhz(2800);
}
struct WinCache {
	int level, type;
	uint32_t ways, line, size;
	int sharing; // 0 core, 1 package, 2 all, 3 pairs of processors
};
static std::vector<uint32_t> cache_groups(const WinMachine& m, const WinCache& c) {
	std::vector<uint32_t> v;
	for (size_t i = 0; i < m.p.size(); i++) v.push_back(c.sharing == 0 ? m.p[i].core : c.sharing == 1 ? m.p[i].package : c.sharing == 2 ? 0 : (uint32_t)i / 2);
	return v;
}
static void emit_cache(const WinMachine& m, const WinCache& c, bool zero_count) {
	CACHE_RELATIONSHIP r;
	memset(&r, 0, sizeof r);
	r.Level = (BYTE)c.level, r.Associativity = (BYTE)c.ways, r.LineSize = (WORD)c.line, r.CacheSize = c.size, r.Type = (PROCESSOR_CACHE_TYPE)c.type;
	auto g = cache_groups(m, c);
	for (uint32_t k = 0; k <= g.back(); k++) {
		std::map<uint32_t, uint64_t> v;
		for (size_t i = 0; i < m.p.size(); i++)
			if (g[i] == k) v[m.p[i].group] |= 1ull << m.p[i].id;
		env.relations[RelationCache] += relation(RelationCache, {v.begin(), v.end()}, &r, zero_count && v.size() == 1);
	}
}
static const WinCache ordinary[] = {
	{1, CacheInstruction, 4, 64, 65536, 0}, {1, CacheData, 4, 64, 32768, 0}, {2, CacheUnified, 8, 64, 512 << 10, 0}, {3, CacheUnified, 16, 64, 4 << 20, 1}};
static int slot_of(const WinCache& c) {
	if (c.level == 1) return c.type == CacheInstruction ? 0 : c.type == CacheData ? 1 : -1;
	return c.level == 2 || c.level == 3 ? c.level : -1;
}
static void judge_arm(const WinMachine& m, const std::vector<WinCache>& caches, uint32_t vendor, uint32_t uarch, uint64_t frequency, bool lenient = false) {
	auto o = venv::initialize();
	MC_CHECK(o.ok || o.aborted, "failed", "initialization fails on a machine of %zu processors", m.p.size());
	settle(o);
	Want w = layout(m);
	const vdesc& d = venv::D;
	if (lenient) { // facts may be lost
		if (d.core[0].uarch == cpuinfo_uarch_unknown && d.core[0].vendor == cpuinfo_vendor_unknown) vendor = cpuinfo_vendor_unknown, uarch = cpuinfo_uarch_unknown;
		if (d.core[0].frequency == 0) frequency = 0;
	}
	uint32_t largest = 0;
	int last = 0;
	for (auto& c : caches) {
		int s = slot_of(c);
		if (s < 0) continue;
		w.cache[s] = cache_groups(m, c);
		uint32_t flags = c.type == CacheUnified ? 1 : 0, ways = c.ways == 255 ? c.size / c.line : c.ways;
		for (uint32_t i = 0; i < d.ncache[s]; i++) {
			auto& r = d.cache[s][i];
			MC_CHECK(r.size == c.size && r.line_size == c.line && r.associativity == ways && r.sets == c.size / c.line / ways && r.partitions == 1 && r.flags == flags, "geometry",
				"%s %u: %u bytes, lines of %u, %u ways, %u sets, %u partitions, flags %u; the system reports %u bytes, lines of %u, %u ways", level_name[s], i, r.size, r.line_size, r.associativity, r.sets, r.partitions, r.flags, c.size, c.line, c.ways);
		}
		if (s && s >= last) last = s, largest = c.size;
	}
	check_layout(w);
	MC_CHECK(d.max_cache_size >= largest, "max", "maximum cache size %u, but the last level has %u", d.max_cache_size, largest);
	for (uint32_t i = 0; i < d.ncore; i++) {
		auto& c = d.core[i];
		MC_CHECK(c.vendor == vendor && c.uarch == uarch && c.frequency == frequency, "identity", "core %u: vendor %u, microarchitecture %#x, frequency %llu", i, c.vendor, c.uarch, (unsigned long long)c.frequency);
	}
	for (uint32_t i = 0; i < d.ncluster; i++) {
		auto& c = d.cluster[i];
		MC_CHECK(c.vendor == vendor && c.uarch == uarch && c.frequency == frequency, "identity", "cluster %u: vendor %u, microarchitecture %#x, frequency %llu", i, c.vendor, c.uarch, (unsigned long long)c.frequency);
	}
	MC_CHECK(d.nuarch == 1 && d.uarch[0].uarch == uarch, "identity", "%u microarchitectures, the first is %#x", d.nuarch, d.uarch[0].uarch);
}
static const std::vector<WinCache> usual(ordinary, ordinary + 4);
static void emit_arm(const WinMachine& m, const std::vector<WinCache>& caches, bool zero_count = false) {
	emit_windows(m);
	for (auto& c : caches) emit_cache(m, c, zero_count);
}
MC_FAMILY(P30, layouts, "1-7 processors; every arrangement in cores, packages and groups", 0) {
	WinMachine m = choose_machine(7);
	bool zero = mc::flag("no group count");
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, usual, zero);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
MC_FAMILY(P30, deep_layouts, "1-9 processors; every arrangement", 1) {
	WinMachine m = choose_machine(9);
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, usual);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
MC_FAMILY(P30, caches, "1-4 processors in every arrangement; every subset of four caches and of three which are not described, one of them before or after the others; three ways of sharing the second and third level", 0) {
	WinMachine m = choose_machine(4);
	uint32_t present = 1 + mc::choose(15, "caches");
	uint32_t odd = mc::choose(8, "others");
	bool first = mc::flag("first");
	int l2 = (int)mc::choose(4, "L2"), l3 = 1 + (int)mc::choose(2, "L3");
	bool zero = mc::flag("no group count");
	if (m.groups.size() > 1 && l2 == 3) mc::reject();
	std::vector<WinCache> c, o;
	if (odd & 1) o.push_back({1, CacheUnified, 2, 32, 16384, 0});
	if (odd & 2) o.push_back({1, CacheTrace, 2, 32, 8192, 0});
	if (odd & 4) o.push_back({4, CacheUnified, 16, 128, 32 << 20, 2});
	if (first) c = o;
	for (int k = 0; k < 4; k++)
		if (present >> k & 1) {
			c.push_back(ordinary[k]);
			if (k == 2) c.back().sharing = l2;
			if (k == 3) c.back().sharing = l3;
		}
	if (!first) c.insert(c.end(), o.begin(), o.end());
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, c, zero);
	judge_arm(m, c, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
MC_FAMILY(P30, geometry, "each of four caches with 1-16, 255 (fully associative) and 0 (unknown) ways, lines of 0 (unknown), 32, 64 and 128 bytes, three sizes", 0) {
	uint32_t which = mc::choose(4, "cache"), ways = mc::pick({1u, 2u, 3u, 4u, 8u, 12u, 16u, 255u, 0u}, "ways"), line = mc::pick({32u, 64u, 128u, 0u}, "line"), sets = mc::pick({16u, 128u, 1024u}, "sets");
	WinMachine m = machine_from({1, 1, 1});
	std::vector<WinCache> c = usual;
	c[which].ways = ways;
	c[which].line = line;
	c[which].size = (ways && ways != 255 ? ways : 4) * (line ? line : 64) * sets;
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, c);
	if (!ways || !line) { // nothing sensible to say about that cache, but about everything else
		settle(venv::initialize());
		return;
	}
	judge_arm(m, c, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
MC_FAMILY(P30, inactive, "1-6 processors in every arrangement; groups with room for more processors, and groups without processors", 0) {
	WinMachine m = choose_machine(6);
	uint32_t how = mc::choose(8, "inactive");
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, usual);
	spare(m, how);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
MC_FAMILY(P30, large, "one group of up to 64 processors, several of 64; 1, 2 or 4 packages", 0) {
	uint32_t groups = 1 + mc::choose(3, "groups"), packages = mc::pick({1u, 2u, 4u}, "packages");
	uint32_t per_group = groups == 1 ? 8 * (1 + mc::choose(8, "processors")) : 64;
	uint32_t n = groups * per_group;
	if (n % packages != 0) mc::reject();
	WinMachine m;
	m.groups.assign(groups, per_group);
	for (uint32_t i = 0; i < n; i++) m.p.push_back({i / per_group, i % per_group, i, i / (n / packages)});
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, usual);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
}
// what is needed to name the processor; if any of it is missing nothing is known, but the topology is
MC_FAMILY(P30, identity, "every known and several unknown identities of cores; each fact present, missing, zero, or of another type", 0) {
	uint32_t n = sizeof arm::parts / sizeof *arm::parts;
	uint32_t k = mc::choose(n + 4, "identity"), lost = mc::choose(10, "lost");
	uint32_t midr = k < n ? arm::parts[k].impl << 24 | (uint32_t)(arm::parts[k].variant > 0 ? arm::parts[k].variant : 0) << 20 | 0xF << 16 | arm::parts[k].part << 4 : k == n ? 0x410FABC0u : k == n + 1 ? 0x6D0FD490u : k == n + 2 ? 0x01234567u : 0xFFFFFFFFu;
	WinMachine m = machine_from({1, 1, 1});
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, usual);
	set_midr(midr | (lost == 9 ? 1ull << 40 : 0));
	std::string c = cpu0;
	switch (lost) {
		case 1: env.registry.erase(c + "ProcessorNameString"); break;
		case 2: env.registry.erase(c + "CP 4000"); break;
		case 3: env.registry.erase(c + "~MHz"); break;
		case 4: env.registry[c + "CP 4000"].second = std::string(8, 0); break;
		case 5: env.registry[c + "~MHz"].second = std::string(4, 0); break;
		case 6: env.registry[c + "ProcessorNameString"] = {REG_DWORD, std::string(4, 1)}; break;
		case 7: env.registry[c + "CP 4000"] = {REG_DWORD, std::string(4, 1)}; break;
		case 8: env.registry[c + "~MHz"] = {REG_QWORD, std::string(8, 1)}; break;
	}
	uint32_t vendor = cpuinfo_vendor_unknown, uarch = cpuinfo_uarch_unknown;
	bool complete = lost == 0 || lost == 9;
	if (lost != 2 && lost != 4 && lost != 7) arm::ref_decode(midr, false, &vendor, &uarch);
	judge_arm(m, usual, vendor, uarch, lost == 3 || lost == 5 || lost == 8 ? 0 : 2800000000ull, !complete);
	check_geometry();
	for (uint32_t i = 0; i < venv::D.npackage; i++) {
		std::string name = venv::D.package[i].name;
		MC_CHECK((name == "Snapdragon 8cx" && lost != 1 && lost != 6) || (!complete && (name == "Unknown" || name.empty())), "name", "package %u is named \"%s\"", i, name.c_str());
	}
}
MC_FAMILY(P30, names, "names of every length 0-80 of characters of one, two, three or four bytes, or mixed; one and two packages", 0) {
	uint32_t len = mc::choose(81, "length"), kind = mc::choose(6, "characters"), packages = 1 + mc::choose(2, "packages");
	std::u16string s;
	for (uint32_t i = 0; s.size() < len; i++) {
		static const uint32_t one[4] = {'A', 0xE9, 0x20AC, 0x1F600};
		uint32_t c = one[kind < 4 ? kind : kind == 4 ? i % 4 : (i / 7) % 4] + (kind == 0 ? i % 26 : 0);
		if (c >= 0x10000) {
			if (s.size() + 2 > len) break;
			s += (char16_t)(0xD800 + ((c - 0x10000) >> 10));
			s += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF));
		} else s += (char16_t)c;
	}
	mc::commit();
	venv::fresh();
	emit_registry();
	set_name(s);
	WinMachine m = machine_from(packages == 1 ? std::vector<uint32_t>{1, 1} : std::vector<uint32_t>{1, 2, 1});
	emit_arm(m, usual);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
	// the text, as much of it as fits in whole characters
	std::string all;
	for (size_t i = 0; i < s.size(); i++) {
		uint32_t c = s[i];
		if (c >= 0xD800 && c < 0xDC00) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
		if (c < 0x80) all += (char)c;
		else if (c < 0x800) all += (char)(0xC0 | c >> 6), all += (char)(0x80 | (c & 63));
		else if (c < 0x10000) all += (char)(0xE0 | c >> 12), all += (char)(0x80 | (c >> 6 & 63)), all += (char)(0x80 | (c & 63));
		else all += (char)(0xF0 | c >> 18), all += (char)(0x80 | (c >> 12 & 63)), all += (char)(0x80 | (c >> 6 & 63)), all += (char)(0x80 | (c & 63));
	}
	for (uint32_t i = 0; i < venv::D.npackage; i++) {
		std::string name = venv::D.package[i].name;
		if (all.size() < CPUINFO_PACKAGE_NAME_MAX) MC_CHECK(name == all, "name", "package %u is named \"%s\", not \"%s\"", i, name.c_str(), all.c_str());
		else {
			// a character outside of the basic plane at the cut may be replaced
			MC_CHECK(name.size() + 8 > CPUINFO_PACKAGE_NAME_MAX, "name", "package %u is named \"%s\", which is cut too short", i, name.c_str());
			MC_CHECK(name == all.substr(0, name.size()) || (name.size() > 3 && name.compare(0, name.size() - 3, all, 0, name.size() - 3) == 0 && name.substr(name.size() - 3) == "\xEF\xBF\xBD"), "name", "package %u is named \"%s\", not a part of \"%s\"", i, name.c_str(), all.c_str());
			MC_CHECK(name.size() == all.size() || (all[name.size()] & 0xC0) != 0x80 || name.substr(name.size() - 3) == "\xEF\xBF\xBD", "name", "a character is cut in two in the name \"%s\"", name.c_str());
		}
	}
}
MC_FAMILY(P30, isa, "every combination of the features which the system reports and of neighbouring ones; three processor levels", 0) {
	static const int f[] = {29, 30, 31, 33, 34, 43, 44, 45};
	uint32_t set = mc::choose(256, "features");
	uint32_t level = mc::pick({0u, 0x803u, 0xD0Bu}, "level");
	mc::commit();
	venv::fresh();
	emit_registry();
	for (int i = 0; i < 8; i++)
		if (set >> i & 1) env.features |= 1ull << f[i];
	env.processor_level = (uint16_t)level;
	WinMachine m = machine_from({1});
	emit_arm(m, usual);
	judge_arm(m, usual, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76, 2800000000ull);
	bool crypto = set >> 1 & 1, crc = set >> 2 & 1, atomic = set >> 4 & 1, dot = set >> 5 & 1;
	bool yes[VI_COUNT] = {}, unsure[VI_COUNT] = {};
	for (int k : {VI_arm_aes, VI_arm_sha1, VI_arm_sha2, VI_arm_pmull}) yes[k] = crypto;
	yes[VI_arm_crc32] = crc;
	yes[VI_arm_atomics] = atomic;
	for (int k : {VI_arm_neon_dot, VI_arm_fp16_arith, VI_arm_neon_fp16_arith, VI_arm_neon_rdm}) yes[k] = dot;
	for (int k : {VI_arm_neon, VI_arm_neon_v8, VI_arm_neon_fma, VI_arm_neon_fp16, VI_arm_thumb, VI_arm_thumb2, VI_arm_v5e, VI_arm_v6, VI_arm_v6k, VI_arm_v7, VI_arm_v7mp, VI_arm_v8, VI_arm_idiv, VI_arm_vfpv2, VI_arm_vfpv3, VI_arm_vfpv3_d32, VI_arm_vfpv3_fp16, VI_arm_vfpv3_fp16_d32, VI_arm_vfpv4, VI_arm_vfpv4_d32}) unsure[k] = true; // fixed by the architecture
	unsure[VI_arm_jscvt] = true;
	for (int k = 0; k < VI_COUNT; k++)
		if (!unsure[k]) MC_CHECK(!!venv::D.isa[k] == yes[k], "instruction set", "%s is reported as %d", vd_isa_names[k], venv::D.isa[k]);
}
MC_FAMILY(P30, contradictions, "1-6 processors in every arrangement; one core or package is not listed, lacks a processor, or has one too many; no caches", 0) {
	WinMachine m = choose_machine(6);
	uint32_t list = mc::choose(3, "list");
	bool package = list == 1;
	uint32_t WinProc::*what = package ? &WinProc::package : &WinProc::core;
	uint32_t count = m.p.back().*what + 1, victim = list == 2 ? 0 : mc::choose(count, "which"), how = list == 2 ? 0 : mc::choose(3, "how");
	mc::commit();
	venv::fresh();
	emit_registry();
	emit_arm(m, list == 2 ? std::vector<WinCache>() : usual);
	if (list < 2) {
		int kind = package ? RelationProcessorPackage : RelationProcessorCore;
		std::string s;
		for (uint32_t k = 0; k < count; k++) {
			auto v = masks_of(m, what, k);
			if (k == victim) {
				if (how == 0) continue;
				if (how == 1) v.back().second &= v.back().second - 1;
				if (how == 2) v.back().second |= 1ull << 63;
			}
			s += relation(kind, v);
		}
		env.relations[kind] = s;
	}
	settle(venv::initialize());
}
static void emit_machine(uint32_t k) {
	static const std::vector<uint32_t> steps[] = {{}, {1, 1, 1}, {1, 2, 1}, {1, 4, 1}, {1, 3, 2}};
	emit_registry();
	emit_arm(machine_from(steps[k]), usual);
}
MC_FAMILY(P30, faults, "representative machines; every set of at most three failing allocations and questions to the system", 0) {
	explore_faults(5, emit_machine, 3);
}
MC_FAMILY(P30, persistent, "representative machines; everything fails from event k on", 0) {
	explore_persistent(5, emit_machine);
}
#endif
#endif
