// P09 (hierarchy) on ARM.
#include "arm_model.h"
using namespace arm;
using venv::D;
using venv::env;

static void run_hierarchy(Machine& m) {
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_hierarchy(m, D);
}
// an arbitrary partition: element i joins one of the groups so far, or starts a new one
static void partition(Machine& m, uint32_t max_groups) {
	uint32_t used = 0;
	for (auto& p : m.procs) {
		uint32_t k = mc::choose(std::min(used + 1, max_groups), "sibling group");
		if (k == used) used++;
		p.group = (int)k;
	}
}

MC_FAMILY(P09, partition, "2-7 processors: every partition into sibling groups, reported by 3 combinations of the kernel's sibling lists, contiguous and gapped processor numbers", 0) {
	Machine m;
	uint32_t n = 2 + mc::choose(6, "processors");
	m.source = (Source)mc::choose(3, "source");
	bool gaps = mc::flag("gapped numbers");
	for (uint32_t i = 0; i < n; i++) m.add(gaps ? i * 2 + (i > 2) : i, A53);
	partition(m, n);
	run_hierarchy(m);
}
MC_FAMILY(P09, partition8, "8 processors: every partition into at most 4 sibling groups", 0) {
	Machine m;
	m.source = (Source)mc::choose(2, "source");
	for (uint32_t i = 0; i < 8; i++) m.add(i, A53);
	partition(m, 4);
	run_hierarchy(m);
}
MC_FAMILY(P09, partition10, "9 and 10 processors: every partition into at most 5 sibling groups", 1) {
	Machine m;
	m.source = (Source)mc::choose(2, "source");
	uint32_t n = 9 + mc::choose(2);
	for (uint32_t i = 0; i < n; i++) m.add(i, A53);
	partition(m, 5);
	run_hierarchy(m);
}

MC_FAMILY(P09, presence, "kernel_max 0-4 or 31, every pair of possible and present sets over 5 processors including missing files, /proc/cpuinfo lists all, all but one or none", 0) {
	static const uint32_t km[] = {0, 1, 2, 3, 4, 31};
	Machine all;
	all.kernel_max = mc::pick(km, "kernel_max");
	uint32_t poss = mc::choose(32, "possible set"), pres = mc::choose(32, "present set"); // 0: missing file
	uint32_t unlisted = mc::choose(7, "processor missing in /proc/cpuinfo"); // 5: none 6: all
	bool topo = mc::flag("topology");
	for (uint32_t i = 0; i < 5; i++) {
		all.add(i, A53, topo ? i / 3 : -1);
		all.procs.back().listed = unlisted != 6 && unlisted != i;
	}
	auto list = [](uint32_t set) {
		std::vector<uint32_t> v;
		for (uint32_t i = 0; i < 5; i++)
			if (set >> i & 1) v.push_back(i);
		return v.empty() ? std::string("-") : list_of(v);
	};
	all.possible = list(poss);
	all.present = list(pres);
	if (unlisted == 6) all.preamble = "Processor\t: ARMv8 Processor rev 4\n\n";
	uint32_t valid = (poss ? poss : 31) & (pres ? pres : 31);
	if (!poss && !pres) valid = 0;
	Machine e = all;
	e.procs.clear();
	for (auto& p : all.procs)
		if (p.id <= all.kernel_max && (valid >> p.id & 1)) e.procs.push_back(p);
	mc::commit();
	venv::fresh();
	all.emit();
	if (e.procs.empty()) {
		venv::Outcome o = venv::initialize();
		MC_CHECK(!o.aborted && !o.ok, "empty", "initialization succeeded although no processor is both possible and present");
		mc::count_validated();
		return;
	}
	run();
	check_hierarchy(e, D);
}

// every processor independently has one of the alternatives
static void offline_facts(Machine& m, Proc& p, uint32_t kinds) {
	(void)m;
	switch (mc::choose(kinds, "facts")) {
		case 0: break; // online, in its sibling group
		case 1: p.group = -1; p.listed = false; p.fmax = 0; break; // offline
		case 2: p.group = -1; break; // listed, no topology
		case 3: p.group = -1; p.midr = A57; break;
		case 4: p.group = -1; p.listed = false; p.fmax = 2000000; break;
	}
}
MC_FAMILY(P09, offline, "2-6 processors in every partition into at most 3 sibling groups, each of them online, offline, or with 3 kinds of partial information", 0) {
	Machine m;
	uint32_t n = 2 + mc::choose(mc::thorough() ? 5 : 4, "processors");
	for (uint32_t i = 0; i < n; i++) m.add(i, A53, -1, 1000000);
	partition(m, 3);
	for (auto& p : m.procs) offline_facts(m, p, 5);
	run_hierarchy(m);
}
MC_FAMILY(P09, offline_usual, "6, 8 and 10 processors in two or three sibling groups of the usual sizes and off by one, each processor online or offline", 0) {
	static const uint32_t ns[] = {6, 8, 10};
	Machine m;
	uint32_t n = mc::pick(ns, "processors");
	uint32_t first = 3 + mc::choose(3, "first group"), second = 3 + mc::choose(3, "second group");
	for (uint32_t i = 0; i < n; i++) m.add(i, A53, i < first ? 0 : i < first + second ? 1 : 2, 1000000);
	for (auto& p : m.procs) offline_facts(m, p, 2);
	run_hierarchy(m);
}

static void set_field(Proc& p, int f, uint32_t v) { // v: 0 unknown, 1 or 2: two different values
	switch (f) {
		case 0: p.fmax = v * 1000000; break;
		case 1: p.fmin = v * 300000; break;
		case 2: if (v) p.known |= IMPL, p.midr |= (v == 1 ? 0x41u : 0x51u) << 24; break;
		case 3: if (v) p.known |= VAR, p.midr |= (v - 1) << 20; break;
		case 4: if (v) p.known |= PART, p.midr |= (v == 1 ? 0xD03u : 0xD07u) << 4; break;
		case 5: if (v) p.known |= REV, p.midr |= v; break;
		case 6: p.listed = v != 2; if (v == 1) p.known |= ARCH, p.midr |= 0xF0000; break;
	}
}
static void no_topology(uint32_t n, int fields, uint32_t values) {
	Machine m;
	int f = (int)mc::choose(7, "first kind of fact");
	int f2 = fields > 1 ? (int)mc::choose(7, "second kind of fact") : f;
	if (fields > 1 && f2 <= f) mc::reject();
	for (uint32_t i = 0; i < n; i++) {
		Proc p;
		p.id = i;
		m.procs.push_back(p);
	}
	for (auto& p : m.procs) {
		set_field(p, f, mc::choose(values, "value"));
		if (f2 != f) set_field(p, f2, mc::choose(values, "second value"));
	}
	// an entry without any line would make /proc/cpuinfo empty
	m.tail = "Serial\t: 0\n";
	run_hierarchy(m);
}
MC_FAMILY(P09, facts8, "5, 6 and 8 processors without topology information: every assignment of unknown and two values for each of 7 kinds of facts", 0) {
	static const uint32_t ns[] = {5, 6, 8};
	no_topology(mc::pick(ns, "processors"), 1, 3);
}
MC_FAMILY(P09, facts10, "10 processors without topology information: every assignment of unknown or two values for each of 7 kinds of facts", 1) {
	no_topology(10, 1, 3);
}
MC_FAMILY(P09, facts10q, "10 processors without topology information: every assignment of unknown or one value, and of two values, for each of 7 kinds of facts", 0) {
	Machine m;
	int f = (int)mc::choose(7, "kind of fact");
	uint32_t base = mc::choose(2, "alternatives");
	for (uint32_t i = 0; i < 10; i++) {
		Proc p;
		p.id = i;
		set_field(p, f, base + mc::choose(2, "value"));
		m.procs.push_back(p);
	}
	m.tail = "Serial\t: 0\n";
	run_hierarchy(m);
}
MC_FAMILY(P09, facts_pairs, "2-4 (thorough: 5) processors without topology information: every assignment of unknown and two values for each pair of 7 kinds of facts", 0) {
	no_topology(2 + mc::choose(mc::thorough() ? 4 : 3, "processors"), 2, 3);
}
MC_FAMILY(P09, facts_pairs6, "6 processors without topology information: every assignment of two values for each pair of 7 kinds of facts", 0) {
	no_topology(6, 2, 2);
}
MC_FAMILY(P09, large, "1-64 processors in groups of every size 1-16, with and without topology information, in both directions of core types", 0) {
	Machine m;
	m.kernel_max = 255;
	uint32_t n = 1 + mc::choose(64, "processors"), g = 1 + mc::choose(16, "group size");
	bool topo = mc::flag("topology"), rev = mc::flag("big cores first");
	for (uint32_t i = 0; i < n; i++) {
		bool big = (i / g) % 2 ^ rev;
		m.add(i, big ? A57 : A53, topo ? (int)(i / g) : -1, big ? 2000000 : 1000000);
	}
	run_hierarchy(m);
}
