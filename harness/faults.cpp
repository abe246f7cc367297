// P02: initialization is all-or-nothing. P03: nothing is left behind.
#include <map>
#include <set>
#include "machines.h"

using venv::env;

static bool is_optional(const std::string& hit) {
	// sources without which the same processors can be described, with fewer facts
	if (hit[0] != 'o' && hit[0] != 'r') return false;
	if (hit.find("/kernel_max") != std::string::npos || hit.find("/cpufreq/") != std::string::npos) return true;
	if (hit.find("/topology/") == std::string::npos) return false;
	if (vd_arch == 4) return hit.find("/core_id") != std::string::npos;
	return true;
}

struct Current {
	int32_t processor, core;
	uint32_t uarch, with_default;
	bool operator==(const Current& o) const { return processor == o.processor && core == o.core && uarch == o.uarch && with_default == o.with_default; }
};
static const uint32_t CPUS = 12;
static std::vector<Current> currents() {
	static std::vector<Current> v;
	v.clear();
	for (uint32_t c = 0; c < CPUS; c++) {
		env.getcpu_cpu = c;
		venv::Outcome o = venv::guarded([](void*) { v.push_back({vd_current_processor(), vd_current_core(), vd_current_uarch_index(), vd_current_uarch_index_with_default(77)}); }, nullptr);
		MC_CHECK(!o.aborted, "current", "a current-processor query aborted after success");
	}
	return v;
}
static std::set<uint32_t> processor_set(const vdesc& d) {
	std::set<uint32_t> s;
	for (uint32_t i = 0; i < d.nproc; i++) s.insert(d.proc[i].linux_id);
	return s;
}

struct Base {
	vdesc d;
	std::vector<Current> current;
	std::vector<std::string> files;
};
static const Base& base(int k) {
	static std::map<int, Base*> memo;
	auto& b = memo[k];
	if (!b) {
		mc::Probe probe;
		b = new Base();
		venv::fresh();
		machines::emit(k);
		for (auto& f : env.files) b->files.push_back(f.first);
		std::sort(b->files.begin(), b->files.end());
		auto o = venv::initialize();
		MC_CHECK(o.ok, "baseline", "machine %d: initialization fails without any fault", k);
		MC_CHECK(venv::dump(&b->d), "baseline", "machine %d: a query aborted", k);
		std::string g = venv::graph_errors(b->d);
		MC_CHECK(g.empty(), "baseline", "machine %d: %s", k, g.c_str());
		b->current = currents();
	}
	return *b;
}

static std::string hits_text() {
	std::string s;
	for (auto& h : env.hits) s += " [" + (h[0] == 'a' ? std::string("allocation") : h[0] == 's' ? "processor set allocation" : h[0] == 'o' ? "open " + h.substr(1) : "read " + h.substr(1)) + "]";
	return s;
}

static void check_atomic(int k, venv::Outcome o) {
	const Base& b = base(k);
	auto hits = env.hits;
	std::string what = hits_text();
	MC_CHECK(!o.aborted, "abort", "initialization aborted after%s", what.c_str());
	bool memory = false, set = false, optional = true;
	for (auto& h : hits) {
		memory |= h[0] == 'a';
		set |= h[0] == 's';
		optional &= is_optional(h) || h[0] == 's';
	}
	if (o.ok) {
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after success, with%s", what.c_str());
		std::string g = venv::graph_errors(venv::D);
		MC_CHECK(g.empty(), "inconsistent", "inconsistent description (%s) after%s", g.c_str(), what.c_str());
		auto c = currents();
		// the lookup by kernel number belongs to the published tables
		for (uint32_t i = 0; i < CPUS; i++) {
			int want = VD_NULL;
			for (uint32_t j = 0; j < venv::D.nproc; j++)
				if (venv::D.proc[j].linux_id == i) want = (int)j;
			MC_CHECK(c[i].processor == want, "current", "processor query on kernel number %u gives %d, not %d, after%s", i, c[i].processor, want, what.c_str());
			MC_CHECK(c[i].core == (want >= 0 ? venv::D.proc[want].core : VD_NULL), "current", "core query on kernel number %u gives %d after%s", i, c[i].core, what.c_str());
			if (want >= 0) {
				MC_CHECK(c[i].uarch < venv::D.nuarch && venv::D.uarch[c[i].uarch].uarch == venv::D.core[venv::D.proc[want].core].uarch, "current", "microarchitecture query on kernel number %u gives %u after%s", i, c[i].uarch, what.c_str());
				MC_CHECK(c[i].with_default == c[i].uarch, "current", "microarchitecture query with default on kernel number %u gives %u, without %u, after%s", i, c[i].with_default, c[i].uarch, what.c_str());
			}
		}
		if (memory || (optional && set)) {
			// success is possible only if nothing which the memory was for is missing
			bool only_memory = true;
			for (auto& h : hits) only_memory &= h[0] == 'a' || h[0] == 's';
			if (only_memory) {
				vdesc e = b.d;
				if (set) {
					for (uint32_t i = 0; i < e.ncore; i++) e.core[i].vendor = venv::D.core[i].vendor;
					for (uint32_t i = 0; i < e.ncluster; i++) e.cluster[i].vendor = venv::D.cluster[i].vendor;
				}
				std::string df = venv::diff(e, venv::D);
				MC_CHECK(df.empty(), "partial", "success with an incomplete description (%s) after%s", df.c_str(), what.c_str());
				MC_CHECK(c == b.current, "partial", "success with incomplete lookup tables after%s", what.c_str());
			} else if (memory) {
				mc::fail("partial", "success reported after%s", what.c_str());
			}
		}
		if (optional) MC_CHECK(processor_set(venv::D) == processor_set(b.d), "optional", "other processors are described after losing optional facts:%s", what.c_str());
		mc::state(venv::digest(venv::D));
	} else {
		MC_CHECK(!optional, "optional", "initialization failed although only optional facts were lost:%s", what.c_str());
		// final, and nothing is visible
		env.fail_event.clear();
		for (int again = 0; again < 2; again++) {
			uint64_t ev = env.n_open + env.n_alloc;
			static int ok;
			ok = 0;
			auto o2 = venv::guarded([](void*) { ok = vd_initialize(); }, nullptr);
			MC_CHECK(!o2.aborted, "abort", "a later initialize call aborted after%s", what.c_str());
			MC_CHECK(!ok, "not final", "a later initialize call succeeded after%s", what.c_str());
			MC_CHECK(env.n_open + env.n_alloc == ev, "not final", "detection ran again after%s", what.c_str());
		}
		for (int g = 0; g < vd_getters_count; g++) {
			static int getter;
			getter = g;
			auto q = venv::guarded([](void*) { vd_call(getter, 0); }, nullptr);
			MC_CHECK(q.aborted, "visible", "%s answers although initialization failed after%s", vd_getters[g].name, what.c_str());
		}
		mc::state(mc::mix(k, env.hits.size()));
	}
	mc::count_nontrivial();
	mc::count_validated();
}

static void check_clean(int k, venv::Outcome o) {
	std::string what = hits_text();
	(void)k;
	for (auto& e : env.errors) mc::fail("protocol", "%s, after%s", e.c_str(), what.c_str());
	MC_CHECK(venv::open_files() == 0, "open file", "%zu files left open after%s", venv::open_files(), what.c_str());
	MC_CHECK(env.n_close <= env.n_open, "open file", "more files closed than opened after%s", what.c_str());
	if (o.ok) {
		MC_CHECK(venv::unreachable_blocks() == 0, "leak", "success, but %zu blocks are lost after%s", venv::unreachable_blocks(), what.c_str());
		uint64_t a = env.n_alloc, f = env.n_free, op = env.n_open, r = env.n_read;
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after success, with%s", what.c_str());
		currents();
		for (int g = 0; g < vd_getters_count; g++) {
			static int getter;
			getter = g;
			venv::guarded([](void*) { vd_call(getter, 1); }, nullptr);
		}
		MC_CHECK(env.n_alloc == a && env.n_free == f, "query memory", "queries allocate or free memory");
		MC_CHECK(env.n_open == op && env.n_read == r, "query files", "queries open or read files");
		mc::state(mc::mix(venv::digest(venv::D), venv::live_blocks()));
	} else {
		MC_CHECK(venv::live_blocks() == 0, "leak", "failure, but %zu blocks are still allocated after%s", venv::live_blocks(), what.c_str());
		uint64_t a = env.n_alloc, op = env.n_open;
		static int r;
		venv::guarded([](void*) { r = vd_initialize(); }, nullptr);
		for (auto& e : env.errors) mc::fail("protocol", "%s, in a second call after%s", e.c_str(), what.c_str());
		(void)a, (void)op;
		MC_CHECK(venv::open_files() == 0 && (r || venv::live_blocks() == 0), "leak", "a second call after%s leaves files or memory behind", what.c_str());
		mc::state(mc::mix(k, env.hits.size()));
	}
	mc::count_nontrivial();
	mc::count_validated();
}

static uint32_t g_chunk;
// number of fallible events when those fail
static uint64_t events_with(int k, const std::vector<uint64_t>& f) {
	static std::map<std::vector<uint64_t>, uint64_t> memo;
	std::vector<uint64_t> key = f;
	key.push_back(k);
	key.push_back(g_chunk);
	auto it = memo.find(key);
	if (it != memo.end()) return it->second;
	venv::fresh();
	machines::emit(k);
	env.fail_event = f;
	env.chunk = g_chunk;
	mc::Probe probe;
	venv::initialize();
	uint64_t n = env.n_alloc + env.n_open + env.n_read;
	if (f.size() <= 1) memo[key] = n;
	return n;
}

static void explore_faults(int depth, void (*check)(int, venv::Outcome), uint32_t chunk = 0) {
	g_chunk = chunk;
	int k = mc::choose(machines::count(), "machine");
	base(k);
	std::vector<uint64_t> f;
	for (int i = 0; i < depth; i++) {
		uint64_t from = f.empty() ? 0 : f.back() + 1, n = events_with(k, f);
		if (g_chunk && !f.empty() && !mc::thorough() && events_with(k, {}) > 300) break;
		uint32_t c = mc::choose((uint32_t)(n > from ? n - from : 0) + 1, "event");
		if (c == 0) break;
		f.push_back(from + c - 1);
	}
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.fail_event = f;
	env.chunk = g_chunk;
	mc::describe("machine %d (%s), %zu faults", k, machines::name(k), f.size());
	auto o = venv::initialize();
	check(k, o);
}
MC_FAMILY(P02, quadruples, "every machine; every set of at most four faults", 1) {
	explore_faults(4, check_atomic);
}
MC_FAMILY(P02, triples, "every machine; every set of at most three faults among all allocations, opens and reads of the execution", 0) {
	explore_faults(3, check_atomic);
}
MC_FAMILY(P03, quadruples, "every machine; every set of at most four faults", 1) {
	explore_faults(4, check_clean);
}
MC_FAMILY(P03, triples, "every machine; every set of at most three faults among all allocations, opens and reads of the execution", 0) {
	explore_faults(3, check_clean);
}

MC_FAMILY(P02, partial_reads, "every machine; reads of at most 5 bytes; every set of at most two faults (one on machines with more than 300 events)", 0) {
	explore_faults(2, check_atomic, 5);
}
MC_FAMILY(P03, partial_reads, "every machine; reads of at most 5 bytes; every set of at most two faults (one on machines with more than 300 events)", 0) {
	explore_faults(2, check_clean, 5);
}

// the same fault for all of a kind from some point on: out of memory, out of descriptors, unreadable files
static void persistent(void (*check)(int, venv::Outcome)) {
	int k = mc::choose(machines::count(), "machine");
	base(k);
	g_chunk = 0;
	uint64_t n = events_with(k, {});
	uint64_t from = mc::choose((uint32_t)n + 1, "from");
	uint32_t len = mc::pick({1000000u, 4u, 9u, 17u}, "length");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	for (uint64_t i = from; i < from + len && i < 4096; i++) env.fail_event.push_back(i);
	auto o = venv::initialize();
	check(k, o);
}
MC_FAMILY(P02, persistent, "every machine; everything fails from event k on, or for a stretch of 4, 9 or 17 events", 0) {
	persistent(check_atomic);
}
MC_FAMILY(P03, persistent, "every machine; everything fails from event k on, or for a stretch of 4, 9 or 17 events", 0) {
	persistent(check_clean);
}

// files which do not exist at all
static void missing(void (*check)(int, venv::Outcome)) {
	int k = mc::choose(machines::count(), "machine");
	base(k);
	auto files = base(k).files;
	uint32_t a = mc::choose((uint32_t)files.size(), "file");
	uint32_t b = mc::choose((uint32_t)files.size() - a, "file") + a;
	bool empty = mc::flag("empty");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	std::vector<std::string> hit;
	for (uint32_t i : {a, b}) {
		if (empty) env.files[files[i]] = "";
		else env.files.erase(files[i]);
		hit.push_back("o" + files[i]);
	}
	auto o = venv::initialize();
	// a list of processors is optional as long as another source names them
	std::set<std::string> lost;
	for (auto& h : hit) {
		for (const char* s : {"/possible", "/present", "/proc/cpuinfo"})
			if (h.size() > strlen(s) && h.compare(h.size() - strlen(s), std::string::npos, s) == 0) lost.insert(s);
	}
	env.hits = hit;
	check(k, o);
	if (check == check_atomic && vd_arch <= 3 && !lost.count("/proc/cpuinfo") && (vd_arch <= 1 || lost.size() < 2)) {
		MC_CHECK(o.ok, "optional", "initialization failed without%s", hits_text().c_str());
		MC_CHECK(processor_set(venv::D) == processor_set(base(k).d), "optional", "other processors are described without%s", hits_text().c_str());
	}
}
MC_FAMILY(P02, missing_files, "every machine; every file and every pair of files missing or empty", 0) {
	missing(check_atomic);
}
MC_FAMILY(P03, missing_files, "every machine; every file and every pair of files missing or empty", 0) {
	missing(check_clean);
}
