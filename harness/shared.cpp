// Properties of the whole interface, on representative machines of every architecture.
// P19: results do not depend on how reads are split. P22: current-processor queries. P23: call sequences and indices.
// P24: results depend on the machine alone.
#include <map>
#include "machines.h"

using venv::env;

struct Base {
	vdesc d;
	std::vector<std::pair<std::string, size_t>> files; // those which are read, with their sizes
	uint64_t reads;
	std::vector<uint32_t> answers; // to threads on each processor
};
static const Base& base(int k) {
	static std::map<int, Base*> memo;
	auto& b = memo[k];
	if (!b) {
		mc::Probe probe;
		b = new Base();
		venv::fresh();
		machines::emit(k);
		env.keep_opened = true;
		auto o = venv::initialize();
		MC_CHECK(o.ok, "baseline", "machine %d: initialization fails", k);
		MC_CHECK(venv::dump(&b->d), "baseline", "machine %d: a query aborted", k);
		std::sort(env.opened.begin(), env.opened.end());
		env.opened.erase(std::unique(env.opened.begin(), env.opened.end()), env.opened.end());
		for (auto& f : env.opened)
			if (env.files.count(f)) b->files.push_back({f, env.files[f].size()});
		b->reads = env.n_read;
		MC_CHECK(venv::current_answers(b->d, &b->answers), "baseline", "machine %d: a query aborted", k);
	}
	return *b;
}
static void same_as_base(int k, const char* what) {
	auto o = venv::initialize();
	MC_CHECK(o.ok, "fails", "initialization fails, %s", what);
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted, %s", what);
	std::string df = venv::diff(base(k).d, venv::D);
	MC_CHECK(df.empty(), "differs", "another description (%s), %s", df.c_str(), what);
	std::vector<uint32_t> answers;
	MC_CHECK(venv::current_answers(venv::D, &answers), "abort", "a query aborted, %s", what);
	for (size_t i = 0; i < answers.size(); i++)
		MC_CHECK(answers[i] == base(k).answers[i], "current", "query %zu of the current processor on kernel processor %zu gives another answer (%u, not %u), %s", i % 4, i / 4, answers[i], base(k).answers[i], what);
	mc::state(mc::mix(venv::digest(venv::D), env.n_read));
	mc::count_nontrivial();
	mc::count_validated();
}

// ------------------------------------------------------------------------------------------------------------- P19

static void split_family(bool all_pairs) {
	int k = mc::choose(machines::basic(), "machine");
	auto& f = base(k).files[mc::choose((uint32_t)base(k).files.size(), "file")];
	if (f.second < 2) mc::reject();
	uint32_t a = 1 + mc::choose((uint32_t)f.second - 1, "first split");
	uint32_t room = (uint32_t)f.second - a;
	if (!all_pairs && f.second > 100) room = std::min(room, 24u);
	uint32_t b = mc::choose(room, "second split");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.splits.push_back({f.first, a});
	if (b) env.splits.push_back({f.first, a + b});
	mc::describe("machine %d, reads of %s stop at %u and %u", k, f.first.c_str(), a, a + b);
	same_as_base(k, "when reads are split");
}
MC_FAMILY(P19, split, "every machine, every file, every position of one split and of two splits (at most 24 bytes apart in files of more than 100 bytes)", 0) {
	split_family(false);
}
MC_FAMILY(P19, split_pairs, "every machine, every file, every pair of split positions", 1) {
	split_family(true);
}
MC_FAMILY(P19, chunk, "every machine; all reads return at most n bytes, every n up to 300 and around 512, 1024 and 2048", 0) {
	int k = mc::choose(machines::basic(), "machine");
	uint32_t c = mc::choose(300 + 3 * 17, "size");
	uint32_t n = c < 300 ? c + 1 : c < 317 ? 504 + (c - 300) : c < 334 ? 1016 + (c - 317) : 2040 + (c - 334);
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.chunk = n;
	same_as_base(k, "when reads are short");
}
MC_FAMILY(P19, short_read, "every machine; every pair of reads which return a single byte, alone and with all other reads limited to 40 bytes", 0) {
	int k = mc::choose(machines::basic(), "machine");
	bool limited = mc::flag("limited");
	uint64_t n = base(k).reads * (limited ? 3 : 1) + 2;
	uint64_t a = mc::choose((uint32_t)n, "read"), b = a + mc::choose((uint32_t)(n - a), "read");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.short_reads = {a, b};
	if (limited) env.chunk = 40;
	same_as_base(k, "when single reads are short");
}
// unknown lines move all others over the boundaries of the buffers
static void shift_family(bool fine) {
	int k = mc::choose(machines::basic(), "machine");
	if (vd_arch == 4) mc::reject();
	if (!fine && k > 1) mc::reject();
	uint32_t max = vd_arch <= 1 ? 2200 : 1200;
	uint32_t n = 4 + mc::choose(max, "bytes before");
	uint32_t len = mc::pick({61u, 30u, 250u}, "line length");
	if (!fine && len != 61) mc::reject();
	uint32_t chunk = mc::pick({0u, 97u, 509u}, "read size");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	std::string pad;
	while (pad.size() < n) {
		uint32_t m = n - (uint32_t)pad.size();
		if (m > len + 4) m = len;
		pad += m < 4 ? std::string(m, '\n') : "x\t:" + std::string(m - 4, 'y') + "\n";
	}
	env.files["/proc/cpuinfo"] = pad + env.files["/proc/cpuinfo"];
	env.chunk = chunk;
	same_as_base(k, "with unknown lines in front");
}
MC_FAMILY(P19, shift, "two machines; unknown lines of every total length (1200 or 2200 bytes) in front of /proc/cpuinfo; three read sizes", 0) {
	shift_family(false);
}
MC_FAMILY(P19, shift_all, "every machine; unknown lines of every total length (1200 or 2200 bytes) in front of /proc/cpuinfo; three line lengths and read sizes", 1) {
	shift_family(true);
}
// a long file whose last entry is the one that matters
MC_FAMILY(P19, end_of_file, "every machine; every total length of unknown lines between the entries of /proc/cpuinfo and its end, with and without a final newline, reads of every size around the buffer", 0) {
	int k = mc::choose(machines::basic(), "machine");
	if (vd_arch == 4) mc::reject();
	uint32_t n = mc::choose(140, "bytes");
	bool newline = mc::flag("newline");
	uint32_t chunk = mc::pick({0u, 1u, 64u, 1023u, 1024u, 1025u, 2047u, 2048u}, "read size");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	auto& c = env.files["/proc/cpuinfo"];
	uint32_t buffer = vd_arch <= 1 ? 2048 : 1024;
	// fill up to 70 bytes before a multiple of the buffer size, then n more
	size_t target = (c.size() + 200 + buffer - 1) / buffer * buffer - 70 + n;
	std::string pad;
	while (c.size() + pad.size() < target) {
		size_t m = std::min<size_t>(target - c.size() - pad.size(), 80);
		pad += m < 4 ? std::string(m, '\n') : "x\t:" + std::string(m - 4, 'y') + "\n";
	}
	c = pad + c;
	if (!newline)
		while (!c.empty() && c.back() == '\n') c.pop_back();
	env.chunk = chunk;
	same_as_base(k, "with a file which ends near a buffer boundary");
}

// ------------------------------------------------------------------------------------------------------------- P22

static void check_current(uint32_t kernel, bool failing, int query) {
	auto& d = venv::D;
	env.getcpu_ret = failing ? -1 : 0;
	env.getcpu_cpu = kernel;
	int want = VD_NULL;
	if (!failing)
		for (uint32_t j = 0; j < d.nproc; j++)
			if (d.proc[j].linux_id == kernel) want = (int)j;
	static int64_t answer;
	static uint32_t dflt;
	static int q;
	q = query;
	dflt = query == 4 ? 1000000 : query == 5 ? 0xFFFFFFFF : 3;
	auto o = venv::guarded([](void*) {
		switch (q) {
			case 0: answer = vd_current_processor(); break;
			case 1: answer = vd_current_core(); break;
			case 2: answer = vd_current_uarch_index(); break;
			default: answer = vd_current_uarch_index_with_default(dflt); break;
		}
	}, nullptr);
	MC_CHECK(!o.aborted, "abort", "a current-processor query aborted");
	const char* st = failing ? "the kernel call fails" : want < 0 ? "a processor outside of the description" : "a described processor";
	if (query == 0) MC_CHECK(answer == want, "processor", "processor query on kernel number %u (%s) answers %lld, not %d", kernel, st, (long long)answer, want);
	if (query == 1) {
		int core = want < 0 ? VD_NULL : d.proc[want].core;
		MC_CHECK(answer == core, "core", "core query on kernel number %u (%s) answers %lld, not %d", kernel, st, (long long)answer, core);
	}
	if (query >= 2) {
		if (want >= 0) {
			MC_CHECK(answer < d.nuarch, "uarch", "microarchitecture query on kernel number %u answers %lld of %u", kernel, (long long)answer, d.nuarch);
			MC_CHECK(d.uarch[answer].uarch == d.core[d.proc[want].core].uarch, "uarch", "microarchitecture query on kernel number %u answers %lld, which is not that of its core", kernel, (long long)answer);
		} else if (query == 2) {
			MC_CHECK(answer == 0, "uarch", "microarchitecture query with kernel number %u (%s) answers %lld", kernel, st, (long long)answer);
		} else {
			MC_CHECK(answer == 0 || answer == dflt, "uarch", "microarchitecture query with default %u and kernel number %u (%s) answers %lld", dflt, kernel, st, (long long)answer);
			// with several microarchitectures there is no telling which one it is
			if (d.nuarch > 1 && failing) MC_CHECK(answer == dflt, "uarch", "microarchitecture query ignores its default %u although the kernel call fails: %lld", dflt, (long long)answer);
			if (d.nuarch > 1 && kernel > 4096) MC_CHECK(answer == dflt, "uarch", "microarchitecture query ignores its default %u although kernel number %u is unknown: %lld", dflt, kernel, (long long)answer);
		}
	}
	mc::count_transitions(1);
	mc::count_validated();
}
static const uint32_t beyond[] = {31, 32, 63, 64, 127, 511, 512, 1023, 1024, 4097, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF};
static void check_all_current() {
	auto o = venv::initialize();
	if (!o.ok) mc::fail("fails", "initialization fails");
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted");
	uint32_t top = 0;
	for (uint32_t j = 0; j < venv::D.nproc; j++) top = std::max(top, venv::D.proc[j].linux_id);
	for (int q = 0; q < 6; q++) {
		for (uint32_t c = 0; c <= top + 5; c++) check_current(c, false, q);
		for (uint32_t c : beyond) check_current(c, false, q);
		for (uint32_t c = 0; c <= top + 2; c++) check_current(c, true, q);
	}
	mc::state(venv::digest(venv::D));
}
MC_FAMILY(P22, machines, "every machine; every kernel answer around the processors and extreme values, and failure; six queries", 0) {
	int k = mc::choose(machines::count(), "machine");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	check_all_current();
}
MC_FAMILY(P22, sequences, "every machine; all sequences of three queries, each on another processor or with a failing kernel call in between", 0) {
	int k = mc::choose(machines::basic(), "machine");
	uint32_t top = 0;
	for (uint32_t j = 0; j < base(k).d.nproc; j++) top = std::max(top, base(k).d.proc[j].linux_id);
	int q[3];
	uint32_t c[3];
	for (int i = 0; i < 3; i++) q[i] = mc::choose(5, "query"), c[i] = mc::choose(top + 4, "kernel answer");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	auto o = venv::initialize();
	MC_CHECK(o.ok, "fails", "initialization fails");
	venv::D = base(k).d;
	for (int i = 0; i < 3; i++) check_current(c[i] == top + 3 ? i : c[i], c[i] == top + 3, q[i]);
	mc::state(mc::mix(k, q[0] * 25 + q[1] * 5 + q[2]));
}
MC_FAMILY(P22, numbers, "all sets of at most four of eight kernel numbers; two or three kinds of cores or positions in each order", 0) {
	uint32_t set = mc::choose(256, "numbers");
	int n = __builtin_popcount(set);
	if (n == 0 || n > 4) mc::reject();
	uint32_t kinds[4];
	for (int i = 0; i < n; i++) kinds[i] = mc::choose(vd_arch <= 1 ? 2 : 3, "kind");
	mc::commit();
	venv::fresh();
	int i = 0;
	if (vd_arch <= 1) {
		x86::Machine m;
		m.core_bits = 3;
		m.caches = {{1, 1, 8, 1, 64, 64, 0, 1}};
		for (uint32_t c = 0; c < 8; c++)
			if (set >> c & 1) {
				m.procs.push_back({c, kinds[i] ? 15 - c : c});
				i++;
			}
		m.emit();
	} else if (vd_arch <= 3) {
		static const uint32_t id[] = {arm::A53, arm::A57, arm::A72};
		arm::Machine m;
		for (uint32_t c = 0; c < 8; c++)
			if (set >> c & 1) {
				m.add(c, id[kinds[i]], (int)kinds[i], 1000000 + 100000 * kinds[i]);
				i++;
			}
		m.emit();
	} else {
		riscv::Machine m;
		for (uint32_t c = 0; c < 8; c++)
			if (set >> c & 1) {
				m.add(c, (int)kinds[i], (int)kinds[i], (int)kinds[i] / 2);
				m.procs.back().probe.vendor = kinds[i] == 1 ? 0x489 : 0;
				i++;
			}
		m.emit();
	}
	check_all_current();
}

// ------------------------------------------------------------------------------------------------------------- P23

static const int CALLS = 37; // the getters, initialize, deinitialize
struct Answer {
	bool aborted;
	uint64_t v;
};
static Answer call(int c, uint32_t arg) {
	static int s_c;
	static uint32_t s_arg;
	static uint64_t v;
	s_c = c, s_arg = arg, v = 0;
	auto o = venv::guarded([](void*) {
		if (s_c < vd_getters_count) v = vd_call(s_c, s_arg);
		else if (s_c == vd_getters_count) v = vd_initialize() != 0;
		else vd_deinitialize();
	}, nullptr);
	mc::count_transitions(1);
	return {o.aborted, v};
}
static const char* call_name(int c) {
	return c < vd_getters_count ? vd_getters[c].name : c == vd_getters_count ? "initialize" : "deinitialize";
}
// fails: initialization cannot succeed on this machine
static void break_machine(int how) {
	if (how == 1) env.files.erase(vd_arch == 4 ? "/sys/devices/system/cpu/present" : "/proc/cpuinfo");
	if (how == 2) env.fail_alloc = {0};
}
static void sequence_family(int depth, bool initial, int machine_count) {
	int k = mc::choose(machine_count, "machine");
	int how = mc::choose(3, "failure");
	base(k);
	int c[6];
	uint32_t a[6];
	bool up = initial;
	int n = 0;
	static const uint32_t arg[] = {0, 1, 0xFFFFFFFF};
	for (; n < depth; n++) {
		c[n] = (int)mc::choose((uint32_t)vd_getters_count + 2, "call");
		bool indexed = c[n] < vd_getters_count && (vd_getters[c[n]].kind == VK_INDEXED || c[n] == 34);
		a[n] = indexed ? mc::pick(arg, "argument") : 0;
		if (c[n] == vd_getters_count && how == 0) up = true;
		if (c[n] < vd_getters_count && (!up || how)) {
			// the program ends here
			n++;
			break;
		}
	}
	mc::commit();
	venv::fresh();
	machines::emit(k);
	break_machine(how);
	env.getcpu_cpu = base(k).d.proc[0].linux_id;
	venv::reset_observations();
	uint64_t first[3][40];
	bool seen[3][40] = {};
	bool init = false, detected = false;
	uint64_t events = 0;
	if (initial) {
		auto r = call(vd_getters_count, 0);
		MC_CHECK(!r.aborted && r.v == (how == 0), "initialize", "initialize answers %llu", (unsigned long long)r.v);
		init = how == 0;
		detected = true;
		events = env.n_open + env.n_alloc + env.n_free;
		if (init) MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after success");
	}
	for (int i = 0; i < n; i++) {
		auto r = call(c[i], a[i]);
		if (c[i] == vd_getters_count) {
			MC_CHECK(!r.aborted && r.v == (how == 0), "initialize", "call %d: initialize answers %llu", i, (unsigned long long)r.v);
			init = how == 0;
		} else if (c[i] > vd_getters_count) {
			MC_CHECK(!r.aborted, "deinitialize", "call %d: deinitialize aborted", i);
		} else {
			MC_CHECK(r.aborted == !init, init ? "abort" : "before", "call %d: %s %s", i, call_name(c[i]), init ? "aborts although the library is initialized" : "answers although the library is not initialized");
			if (!init) break;
			int ai = a[i] == 0 ? 0 : a[i] == 1 ? 1 : 2;
			if (seen[ai][c[i]]) MC_CHECK(first[ai][c[i]] == r.v, "stable", "call %d: %s answers otherwise than before", i, call_name(c[i]));
			seen[ai][c[i]] = true;
			first[ai][c[i]] = r.v;
		}
		// detection runs once, at the first initialize
		uint64_t ev = env.n_open + env.n_alloc + env.n_free;
		if (detected) MC_CHECK(ev == events, "again", "call %d: %s opens files or changes memory", i, call_name(c[i]));
		if (c[i] == vd_getters_count) detected = true;
		events = ev;
	}
	if (init) {
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after success");
		std::string df = venv::diff(base(k).d, venv::D);
		MC_CHECK(df.empty(), "stable", "the description changed: %s", df.c_str());
	}
	mc::state(mc::mix(mc::mix(n ? c[0] : 99, n > 1 ? c[1] : 99), mc::mix(init, detected)));
	mc::count_nontrivial();
	mc::count_validated();
}
MC_FAMILY(P23, from_start, "all sequences of at most three calls of the whole interface from program start, three arguments; success and two kinds of failure; two machines", 0) {
	sequence_family(3, false, std::min(machines::basic(), 2));
}
MC_FAMILY(P23, after_initialize, "all sequences of at most two calls of the whole interface after the first initialize; success and two kinds of failure; all machines", 0) {
	sequence_family(2, true, machines::basic());
}
MC_FAMILY(P23, after_initialize3, "all sequences of at most three calls of the whole interface after the first initialize; success and two kinds of failure; two machines", 1) {
	sequence_family(3, true, std::min(machines::basic(), 2));
}
MC_FAMILY(P23, from_start4, "all sequences of at most four calls of the whole interface from program start; one machine", 1) {
	sequence_family(4, false, 1);
}
MC_FAMILY(P23, indices, "every machine, every indexed query: every index up to the count + 40, powers of two and extreme values", 0) {
	int k = mc::choose(machines::count(), "machine");
	int t = mc::choose(10, "table");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	auto o = venv::initialize();
	MC_CHECK(o.ok, "fails", "initialization fails");
	uint64_t array = call(t, 0).v, count = call(20 + t, 0).v;
	uint32_t size = vd_element_size(t);
	MC_CHECK(count < 4096, "count", "%s answers %llu", vd_getters[20 + t].name, (unsigned long long)count);
	MC_CHECK(count == 0 || array != 0, "array", "%s answers null although there are %llu elements", vd_getters[t].name, (unsigned long long)count);
	std::vector<uint64_t> idx;
	for (uint64_t i = 0; i <= count + 40; i++) idx.push_back(i);
	for (int b = 5; b < 32; b++)
		for (int64_t dlt = -2; dlt <= 2; dlt++) idx.push_back((uint32_t)((1ll << b) + dlt));
	for (uint64_t i = 0; i <= count + 2; i++) idx.push_back(0xFFFFFFFF - i);
	// numbers whose offset in bytes wraps around
	for (uint32_t e : {(uint32_t)1, size}) {
		for (int b = 32; b < 40; b++) idx.push_back((uint32_t)((1ull << b) / e) + 1);
	}
	for (uint64_t i : idx) {
		auto r = call(10 + t, (uint32_t)i);
		uint64_t want = (uint32_t)i < count ? array + (uint32_t)i * (uint64_t)size : 0;
		MC_CHECK(!r.aborted && r.v == want, "index", "%s(%u) of %llu answers %s", vd_getters[10 + t].name, (uint32_t)i, (unsigned long long)count, r.v == 0 ? "null" : "another element");
	}
	mc::state(mc::mix(k, t));
	mc::count_nontrivial();
	mc::count_validated();
}

// ------------------------------------------------------------------------------------------------------------- P24

MC_FAMILY(P24, memory, "every machine; previous memory contents: every byte value, and six values with every n-th byte zero (n up to 8, every phase)", 0) {
	int k = mc::choose(machines::count(), "machine");
	uint32_t v = mc::choose(256 + 6, "fill");
	uint32_t period = 0, phase = 0;
	if (v >= 256) {
		static const uint8_t s[] = {0xFF, '1', 'A', ' ', 0x80, 0x01};
		v = s[v - 256];
		period = 2 + mc::choose(7, "period");
		phase = mc::choose(period, "phase");
	}
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.fill = (uint8_t)v;
	env.fill_period = period;
	env.fill_phase = phase;
	mc::describe("machine %d, memory %02x, period %u phase %u", k, v, period, phase);
	same_as_base(k, "with other memory contents");
}
MC_FAMILY(P24, ties, "every machine; every order of elements which sorting may leave in any order", 0) {
	int k = mc::choose(machines::count(), "machine");
	base(k);
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.sort_mode = 2;
	same_as_base(k, "with another order of ties");
	MC_CHECK(env.errors.empty(), "order", "%s", env.errors[0].c_str());
}
MC_FAMILY(P24, description, "every machine: outcome for the comparison between log levels", 0) {
	int k = mc::choose(machines::count(), "machine");
	bool quirk = mc::flag("missing lists");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	if (quirk) env.files.erase("/sys/devices/system/cpu/possible"), env.files.erase("/sys/devices/system/cpu/kernel_max");
	auto o = venv::initialize();
	if (o.ok) venv::dump(&venv::D);
	mc::outcome(o.ok ? venv::digest(venv::D) : 1);
	mc::count_nontrivial();
	mc::count_validated();
}
