// P04 (hierarchy) and P05 (caches) on x86.
#include "x86_model.h"
using namespace x86;
using venv::D;
using venv::env;

static const Cache L1I = {1, 2, 8, 1, 64, 64, 0, 1};
static const Cache L1D = {1, 1, 8, 1, 64, 64, 0, 1};

// ---------------------------------------------------------------- P04

static void run_topology(Machine& m) {
	mc::commit();
	venv::fresh();
	m.emit();
	run(m);
	check_topology(m, D);
}
static void set_topo(Machine& m, Topo t, uint32_t tb, uint32_t cb) {
	m.topo = t;
	m.thread_bits = tb;
	m.core_bits = cb;
	switch (t) {
		case X2APIC: m.vendor = INTEL; m.max_base = 0x16; break;
		case INTEL_LEAF4: m.vendor = INTEL; m.max_base = 0xA; break;
		case INTEL_HT_ONLY: m.vendor = INTEL; m.max_base = 2; break;
		case AMD_NC: m.vendor = AMD; m.max_base = 1; m.max_ext = 0x8000001E; break;
		case AMD_LEAF1: m.vendor = AMD; m.max_base = 1; m.max_ext = 0x80000007; break;
		case NO_TOPOLOGY: m.max_base = 2; m.max_ext = 0; break;
	}
}
static bool applicable(Topo t, uint32_t tb, uint32_t cb) {
	if (t == INTEL_HT_ONLY) return cb == 0;
	if (t == AMD_NC || t == AMD_LEAF1) return tb == 0;
	if (t == NO_TOPOLOGY) return tb == 0 && cb == 0;
	return true;
}
static void add_llc(Machine& m, uint32_t bits) {
	if (m.vendor == AMD) {
		m.caches_in_8000001d = m.max_ext >= 0x8000001D;
		if (!m.caches_in_8000001d) return;
	} else if (m.max_base < 4)
		return;
	m.caches = {L1D, L1I, {3, 3, 16, 1, 64, 8192, 0, 1u << bits}};
}

static void layout(uint32_t nmin, uint32_t nmax, uint32_t maxbits) {
	static const Topo topos[] = {X2APIC, INTEL_LEAF4, INTEL_HT_ONLY, AMD_NC, AMD_LEAF1, NO_TOPOLOGY};
	Machine m;
	Topo t = mc::pick(topos, "topology source");
	uint32_t tb = mc::choose(3, "thread bits"), cb = mc::choose(3, "core bits");
	if (!applicable(t, tb, cb) || tb + cb > maxbits) mc::reject();
	set_topo(m, t, tb, cb);
	uint32_t llc = mc::choose(tb + cb + 2, "bits shared by the last level");
	m.noise = mc::choose(2, "irrelevant fields") * 5;
	uint32_t alphabet = 1u << (tb + cb + 1);
	uint32_t n = std::min(nmin + mc::choose(nmax - nmin + 1, "processors"), alphabet);
	std::vector<uint32_t> left;
	// two packages, whose IDs are not adjacent
	for (uint32_t i = 0; i < alphabet; i++) left.push_back(i < alphabet / 2 ? i : i + (alphabet / 2) * 2);
	add_llc(m, llc);
	if (m.caches.empty() && llc) mc::reject();
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = mc::choose((uint32_t)left.size(), "APIC ID");
		m.procs.push_back({i, left[k]});
		left.erase(left.begin() + k);
	}
	run_topology(m);
}
MC_FAMILY(P04, layout, "6 topology declarations (x2APIC leaf B, leaf 1+4, leaf 1 only, AMD leaf 80000008, AMD leaf 1, none), 0-2 thread bits, 0-2 core bits, every width of the last level, 1-3 processors with every assignment of distinct APIC IDs over two packages, 2 values of irrelevant fields", 0) {
	layout(1, 3, 4);
}
MC_FAMILY(P04, layout4, "as layout with 4 processors, up to 3 thread and core bits together", 0) {
	layout(4, 4, 3);
}
MC_FAMILY(P04, layout5, "as layout with 4-5 processors", 1) {
	layout(4, 5, 4);
}

MC_FAMILY(P04, presence, "kernel_max 0-4 or 31, every pair of possible and present sets over 5 processors including missing files, /proc/cpuinfo lists all or all but one", 0) {
	static const uint32_t km[] = {0, 1, 2, 3, 4, 31};
	Machine m;
	set_topo(m, X2APIC, 1, 1);
	add_llc(m, 2);
	m.kernel_max = mc::pick(km, "kernel_max");
	uint32_t poss = mc::choose(32, "possible set"), pres = mc::choose(32, "present set"); // 0: missing file
	uint32_t unlisted = mc::choose(6, "processor missing in /proc/cpuinfo"); // 5: none
	auto list = [](uint32_t set) {
		std::vector<uint32_t> v;
		for (uint32_t i = 0; i < 5; i++)
			if (set >> i & 1) v.push_back(i);
		return v.empty() ? std::string("-") : Machine::list_of(v);
	};
	m.possible = list(poss);
	m.present = list(pres);
	uint32_t listed = unlisted == 5 ? 31 : 31 & ~(1u << unlisted);
	for (uint32_t i = 0; i < 5; i++)
		if (listed >> i & 1) m.procs.push_back({i, 4 - i + (i > 2) * 4});
	uint32_t valid = (poss ? poss : 31) & (pres ? pres : listed);
	for (uint32_t i = 0; i < 5; i++)
		if (i > m.kernel_max) valid &= ~(1u << i);
	bool offline = (valid & ~listed) != 0;
	mc::commit();
	venv::fresh();
	m.emit();
	if (valid == 0) {
		// no processor at all: nothing sensible can be described
		venv::Outcome o = venv::initialize();
		MC_CHECK(!o.aborted && !o.ok, "empty", "initialization succeeded although no processor is both possible and present");
		mc::count_validated();
		return;
	}
	run(m);
	if (!offline) {
		std::vector<Proc> e;
		for (auto& p : m.procs)
			if (valid >> p.linux_id & 1) e.push_back(p);
		m.procs = e;
		check_topology(m, D);
	} else {
		// the APIC ID of an offline processor is unknown: only the set and the consistency are determined
		std::string g = venv::graph_errors(D);
		MC_CHECK(g.empty(), "graph", "%s", g.c_str());
		g = check_ids(D);
		MC_CHECK(g.empty(), "ids", "%s", g.c_str());
		for (uint32_t i = 0; i < 5; i++) MC_CHECK((find(D, i) >= 0) == (valid >> i & 1), "set", "kernel processor %u is %sreported", i, find(D, i) >= 0 ? "" : "not ");
	}
}

MC_FAMILY(P04, enumeration, "5 processors of two packages: every assignment of kernel numbers and every order of the entries in /proc/cpuinfo, with and without gaps in the numbering", 0) {
	Machine m;
	set_topo(m, X2APIC, 1, 1);
	add_llc(m, mc::choose(3));
	static const uint32_t apic[5] = {0, 1, 3, 8, 9};
	std::vector<uint32_t> ids = {0, 1, 2, 3, 4};
	if (mc::flag("gaps")) ids = {0, 2, 3, 7, 11};
	std::vector<Proc> ps;
	for (int i = 0; i < 5; i++) {
		uint32_t k = mc::choose((uint32_t)ids.size(), "kernel number");
		ps.push_back({ids[k], apic[i]});
		ids.erase(ids.begin() + k);
	}
	for (int i = 0; i < 5; i++) {
		uint32_t k = mc::choose((uint32_t)ps.size(), "next entry");
		m.procs.push_back(ps[k]);
		ps.erase(ps.begin() + k);
	}
	run_topology(m);
}

MC_FAMILY(P04, regular, "regular machines with 1-4 packages, 1-8 cores and 1-4 threads (up to 64 processors), all six nesting orders of the kernel numbering, exact and oversized APIC fields", 0) {
	static const uint32_t T[] = {1, 2, 3, 4}, C[] = {1, 2, 3, 6, 8}, P[] = {1, 2, 3, 4};
	uint32_t t = mc::pick(T, "threads"), c = mc::pick(C, "cores"), p = mc::pick(P, "packages");
	uint32_t slack = mc::choose(4, "unused field bits");
	uint32_t order = mc::choose(6, "nesting");
	if (t * c * p > 64) mc::reject();
	Topo topo = mc::flag("leaf B") ? X2APIC : INTEL_LEAF4;
	Machine m;
	uint32_t tb = log2ceil(t) + (slack & 1), cb = log2ceil(c) + (slack >> 1);
	if (topo == INTEL_LEAF4 && tb + cb > 7) mc::reject();
	set_topo(m, topo, tb, cb);
	add_llc(m, tb + mc::choose(cb + 1, "last level"));
	uint32_t n[3] = {t, c, p};
	static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	uint32_t id = 0, v[3];
	for (uint32_t a = 0; a < n[perm[order][2]]; a++)
		for (uint32_t b = 0; b < n[perm[order][1]]; b++)
			for (uint32_t e = 0; e < n[perm[order][0]]; e++) {
				v[perm[order][2]] = a;
				v[perm[order][1]] = b;
				v[perm[order][0]] = e;
				m.procs.push_back({id++, v[0] | v[1] << tb | v[2] << (tb + cb)});
			}
	m.kernel_max = 8191;
	run_topology(m);
}

MC_FAMILY(P04, large, "128-512 processors with 32-bit x2APIC IDs", 0) {
	static const uint32_t N[] = {128, 255, 256, 257, 512};
	uint32_t n = mc::pick(N, "processors");
	uint32_t tb = mc::choose(3), cb = 4 + mc::choose(3);
	uint32_t base = mc::choose(3);
	Machine m;
	set_topo(m, X2APIC, tb, cb);
	add_llc(m, tb + 2);
	bool reverse = mc::flag("reverse");
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = reverse ? n - 1 - i : i;
		m.procs.push_back({i, k + (base == 0 ? 0 : base == 1 ? 0x7FFFFE00u : 0xFFFF0000u)});
	}
	m.kernel_max = 8191;
	run_topology(m);
}

MC_FAMILY(P04, leafB, "x2APIC declarations: every pair of cumulative level shifts up to 10 bits, levels in either order, extra levels of other types, any legacy fields next to them", 0) {
	uint32_t s1 = mc::choose(6, "SMT shift"), s2 = s1 + mc::choose(6, "core field width");
	uint32_t variant = mc::choose(3);
	uint32_t htt = mc::choose(4, "legacy fields");
	static const uint32_t legacy[] = {0, 1, 16, 128};
	Machine m;
	set_topo(m, X2APIC, s1, s2 - s1);
	m.noise = legacy[htt];
	if (m.noise > 64) m.noise = 64;
	add_llc(m, s1 + mc::choose(s2 - s1 + 1));
	uint32_t cand[] = {0, 1, (1u << s1) - 1, 1u << s1, (2u << s1) - 1, (1u << s2) - 1, 1u << s2, (1u << s2) | 1u << s1, (3u << s2) - 1, 0x12345u << 6};
	std::vector<uint32_t> a(cand, cand + 10);
	std::sort(a.begin(), a.end());
	a.erase(std::unique(a.begin(), a.end()), a.end());
	for (size_t i = 0; i < a.size(); i++) m.procs.push_back({(uint32_t)i, a[i]});
	mc::commit();
	venv::fresh();
	m.emit();
	if (variant == 1) { // a level type defined later, above the core level
		env.leaf(0xB, 2, {s2 + 2, 64, (5u << 8) | 2, 0});
		env.leaf(0xB, 3, {0, 0, 3, 0});
	} else if (variant == 2) { // reserved bits
		env.cpuid[0xBull << 32 | 0].a |= 0xFFFFFFE0;
		env.cpuid[0xBull << 32 | 1].a |= 0xABCDEFE0 & ~0x1Fu;
		env.cpuid[0xBull << 32 | 0].c |= 0xFFFF0000;
		env.cpuid[0xBull << 32 | 1].b |= 0xFFFF0000;
	}
	run(m);
	check_topology(m, D);
}

MC_FAMILY(P04, legacy, "leaf 1 logical count 1-64 with leaf 4 core count 1-32 (all consistent pairs, not only powers of two), AMD core counts 1-64", 0) {
	uint32_t mode = mc::choose(3);
	uint32_t logical = 1 + mc::choose(64, "addressable IDs"), cores = 1 + mc::choose(32, "addressable cores");
	if (mode && cores != 1) mc::reject();
	uint32_t lb = log2ceil(logical), cb = log2ceil(cores);
	if (cb > lb) mc::reject();
	Machine m;
	if (mode == 0) {
		set_topo(m, INTEL_LEAF4, lb - cb, cb);
	} else
		set_topo(m, mode == 1 ? AMD_NC : AMD_LEAF1, 0, lb);
	add_llc(m, lb);
	uint32_t cand[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128};
	for (uint32_t i = 0; i < 16; i++) m.procs.push_back({i, cand[i]});
	mc::commit();
	venv::fresh();
	m.emit();
	auto& l1 = env.cpuid[1ull << 32];
	if (mode == 0) {
		l1.b = (l1.b & ~0x00FF0000u) | logical << 16;
		for (uint32_t s = 0; s < m.caches.size(); s++) {
			auto& r = env.cpuid[4ull << 32 | s];
			r.a = (r.a & 0x03FFFFFF) | (cores - 1) << 26;
		}
	} else if (mode == 1) {
		uint32_t width = lb;
		env.leaf(0x80000008, 0, {0x3030, 0, (logical - 1) | (width << 12), 0});
	} else
		l1.b = (l1.b & ~0x00FF0000u) | logical << 16;
	run(m);
	check_topology(m, D);
}

MC_FAMILY(P04, declaration, "which declaration is believed: maximum basic leaves 1-1Fh around each boundary, maximum extended leaves around each boundary, x2APIC bit, Intel and AMD, with the leaves beyond the maximum filled with other widths", 0) {
	static const uint32_t MB[] = {1, 2, 3, 4, 5, 0xA, 0xB, 0xC, 0x16, 0x1F}, ME_INTEL[] = {0, 0x80000000, 0x80000001, 0x80000008}, ME_AMD[] = {0x80000001, 0x80000006, 0x80000007, 0x80000008, 0x80000009, 0x8000001E};
	static const uint32_t LEGACY[][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}, {1, 2}}, NEWER[][2] = {{0, 0}, {1, 0}, {0, 2}, {2, 1}};
	bool amd = mc::flag("AMD");
	auto& l = mc::pick(LEGACY, "widths in the older leaves");
	auto& b = mc::pick(NEWER, "widths in leaf B");
	uint32_t mb = mc::pick(MB, "maximum leaf"), me = amd ? mc::pick(ME_AMD, "maximum extended leaf") : mc::pick(ME_INTEL, "maximum extended leaf");
	bool x2 = mc::flag("x2APIC");
	uint32_t nc = mc::choose(2, "other core count");
	if (amd && l[0]) mc::reject();
	Machine m;
	set_topo(m, amd ? AMD_LEAF1 : INTEL_LEAF4, l[0], l[1]);
	m.max_base = mb;
	m.max_ext = me;
	if (!amd) m.caches = {L1D, L1I};
	static const uint32_t apic[] = {0, 1, 2, 3, 4, 5, 8, 17};
	for (uint32_t i = 0; i < 8; i++) m.procs.push_back({i, apic[i]});
	mc::commit();
	venv::fresh();
	m.emit();
	env.leaf(0x80000008, 0, {0x3030, 0, 3 * nc, 0});
	env.leaf(0xB, 0, {b[0], 1u << b[0], (1u << 8) | 0, 0});
	env.leaf(0xB, 1, {b[0] + b[1], 1u << (b[0] + b[1]), (2u << 8) | 1, 0});
	env.leaf(0xB, 2, {0, 0, 2, 0});
	if (x2) env.cpuid[1ull << 32].c |= 1u << 21;
	run(m);
	if (x2 && mb >= 0xB)
		m.topo = X2APIC, m.thread_bits = b[0], m.core_bits = b[1];
	else if (amd && me >= 0x80000008)
		m.core_bits = 2 * nc;
	else if (!amd && mb < 4)
		m.thread_bits = l[0] + l[1], m.core_bits = 0;
	if (mb < 4) m.caches.clear();
	check_topology(m, D);
}

// ---------------------------------------------------------------- P05

static void run_caches(Machine& m) {
	mc::commit();
	venv::fresh();
	m.emit();
	run(m);
	check_caches(m, D);
}
static void two_packages(Machine& m) {
	static const uint32_t apic[] = {0, 1, 2, 3, 8, 11};
	for (uint32_t i = 0; i < 6; i++) m.procs.push_back({i, apic[i]});
}

MC_FAMILY(P05, geometry, "each level and type alone: ways, partitions, line size, sets from boundary alphabets with size below 4 GB, all inclusive/complex/reserved attribute bits, leaf 4 and leaf 8000001D", 0) {
	static const uint32_t W[] = {1, 2, 3, 8, 16, 255, 1023, 1024}, PT[] = {1, 2, 1023, 1024}, LN[] = {1, 32, 64, 128, 4095, 4096}, S[] = {1, 2, 64, 1000, 4096, 65536, 0x100000, 0x80000000u};
	static const int LT[][2] = {{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}, {4, 1}, {4, 2}, {4, 3}, {5, 3}, {7, 1}, {0, 3}};
	bool amd = mc::flag("leaf 8000001D");
	auto& lt = mc::pick(LT, "level and type");
	Cache c = {lt[0], lt[1], mc::pick(W, "ways"), mc::pick(PT, "partitions"), mc::pick(LN, "line"), mc::pick(S, "sets"), 0, 1};
	if ((uint64_t)c.ways * c.partitions >= (1ull << 32) || (uint64_t)c.ways * c.partitions * c.line >= (1ull << 32) || (uint64_t)c.ways * c.partitions * c.line * c.sets >= (1ull << 32)) mc::reject();
	static const uint32_t E[] = {0, 1, 2, 4, 6, 7, 0xFFFFFFF8, 0xFFFFFFFF};
	c.edx = mc::pick(E, "attributes");
	Machine m;
	if (amd) m.vendor = AMD, m.max_ext = 0x8000001E, m.caches_in_8000001d = true;
	m.topo = NO_TOPOLOGY;
	m.caches = {c};
	m.procs = {{0, 0}};
	run_caches(m);
}

MC_FAMILY(P05, levels, "every subset of L1I, L1D, unified L1, L2, L3, L4 in both orders, each shared by a private, core, package or wider group, 6 processors in two packages", 0) {
	bool amd = mc::flag("leaf 8000001D");
	uint32_t set = mc::choose(64, "caches");
	bool rev = mc::flag("order");
	Machine m;
	set_topo(m, amd ? AMD_NC : X2APIC, amd ? 0 : 1, 1);
	if (amd) m.caches_in_8000001d = true;
	static const int lt[6][2] = {{1, 2}, {1, 1}, {1, 3}, {2, 3}, {3, 3}, {4, 3}};
	static const uint32_t sh[] = {1, 2, 4, 16};
	for (int k = 0; k < 6; k++)
		if (set >> k & 1) m.caches.push_back({lt[k][0], lt[k][1], 4u + k, 1, 64, 64u << k, (uint32_t)k & 6, mc::pick(sh, "sharing")});
	if (rev) std::reverse(m.caches.begin(), m.caches.end());
	two_packages(m);
	run_caches(m);
}

MC_FAMILY(P05, sharing, "one cache level with sharing 1-17, 32 or 4096 IDs, every set of 4 processors with APIC IDs below 16 in two numberings", 0) {
	uint32_t slot = mc::choose(5, "level");
	uint32_t k = mc::choose(19, "sharing");
	uint32_t sh = k < 17 ? k + 1 : k == 17 ? 32 : 4096;
	Machine m;
	set_topo(m, X2APIC, 1, 2);
	static const int lt[5][2] = {{1, 2}, {1, 1}, {2, 3}, {3, 3}, {4, 3}};
	m.caches.push_back({lt[slot][0], lt[slot][1], 8, 1, 64, 64, 0, sh});
	bool rev = mc::flag("numbering");
	uint32_t last = 0;
	std::vector<uint32_t> a;
	for (int i = 0; i < 4; i++) {
		uint32_t x = last + mc::choose(16 - last, "APIC ID");
		if (x > 15 || 15 - x < (uint32_t)(3 - i)) mc::reject();
		a.push_back(x);
		last = x + 1;
		if (last > 15 && i < 3) mc::reject();
	}
	for (uint32_t i = 0; i < 4; i++) m.procs.push_back({i, rev ? a[3 - i] : a[i]});
	run_caches(m);
}

MC_FAMILY(P05, source, "which leaf is believed: vendors x maximum leaves x topology-extension bit with both leaf 4 and leaf 8000001D filled", 0) {
	static const Vendor V[] = {INTEL, AMD, HYGON, VIA, NONAME};
	static const uint32_t MB[] = {1, 2, 3, 4, 0xD}, ME[] = {0, 0x80000000, 0x80000001, 0x8000001C, 0x8000001D, 0x8000001E};
	Machine m;
	m.vendor = mc::pick(V, "vendor");
	m.max_base = mc::pick(MB, "maximum leaf");
	m.max_ext = mc::pick(ME, "maximum extended leaf");
	bool topoext = mc::flag("topology extensions");
	bool x2 = mc::flag("x2APIC");
	m.topo = x2 && m.max_base >= 0xB ? X2APIC : NO_TOPOLOGY;
	Machine n = m;
	m.caches = {{1, 1, 2, 1, 32, 128, 0, 1}, {2, 3, 4, 2, 64, 128, 0, 2}};
	n.caches = {{1, 2, 3, 1, 64, 32, 2, 1}, {1, 1, 6, 1, 64, 32, 2, 1}, {3, 3, 16, 1, 64, 1024, 0, 4}};
	n.caches_in_8000001d = true;
	m.procs = {{0, 0}, {1, 1}, {2, 4}};
	n.procs = m.procs;
	mc::commit();
	venv::fresh();
	n.emit();
	m.emit();
	if (topoext) env.cpuid[0x80000001ull << 32].c |= 1u << 22;
	run(m);
	bool leaf4 = m.max_base >= 4 && m.vendor != AMD && m.vendor != HYGON;
	bool leaf1d = topoext && m.max_ext >= 0x8000001D;
	uint32_t largest = 0;
	for (int s = 0; s < 5; s++) {
		Cache c = {}, c2;
		bool have = leaf4 && m.reported(s, &c);
		if (leaf1d && n.reported(s, &c2)) have = true, c = c2;
		uint32_t size = c.ways * c.partitions * c.line * c.sets;
		if (have && s) largest = size;
		check_cache(s, have, c, size, (c.edx & 2) | (have && c.type == 3), have ? log2ceil(c.sharing) : 0, m.procs, D);
	}
	MC_CHECK(D.max_cache_size == largest, "max", "maximum cache size is %u, the largest level has %u", D.max_cache_size, largest);
}

// leaf 2 descriptors, from the table in the Intel SDM (CPUID, leaf 2) and application note 485
struct Desc {
	uint8_t code;
	int slot; // as reported: 0 l1i 1 l1d 2 l2 3 l3
	uint32_t kb, ways, line;
};
static const Desc descs[] = {
	{0x06, 0, 8, 4, 32}, {0x08, 0, 16, 4, 32}, {0x09, 0, 32, 4, 64}, {0x0A, 1, 8, 2, 32}, {0x0C, 1, 16, 4, 32}, {0x0D, 1, 16, 4, 64}, {0x0E, 1, 24, 6, 64}, {0x1D, 2, 128, 2, 64},
	{0x21, 2, 256, 8, 64}, {0x22, 3, 512, 4, 64}, {0x23, 3, 1024, 8, 64}, {0x24, 2, 1024, 16, 64}, {0x25, 3, 2048, 8, 64}, {0x29, 3, 4096, 8, 64}, {0x2C, 1, 32, 8, 64}, {0x30, 0, 32, 8, 64},
	{0x39, 2, 128, 4, 64}, {0x3A, 2, 192, 6, 64}, {0x3B, 2, 128, 2, 64}, {0x3C, 2, 256, 4, 64}, {0x3D, 2, 384, 6, 64}, {0x3E, 2, 512, 4, 64}, {0x41, 2, 128, 4, 32}, {0x42, 2, 256, 4, 32},
	{0x43, 2, 512, 4, 32}, {0x44, 2, 1024, 4, 32}, {0x45, 2, 2048, 4, 32}, {0x46, 3, 4096, 4, 64}, {0x47, 3, 8192, 8, 64}, {0x48, 2, 3072, 12, 64}, {0x49, 2, 4096, 16, 64}, {0x4A, 3, 6144, 12, 64},
	{0x4B, 3, 8192, 16, 64}, {0x4C, 3, 12288, 12, 64}, {0x4D, 3, 16384, 16, 64}, {0x4E, 2, 6144, 24, 64}, {0x60, 1, 16, 8, 64}, {0x66, 1, 8, 4, 64}, {0x67, 1, 16, 4, 64}, {0x68, 1, 32, 4, 64},
	{0x78, 2, 1024, 4, 64}, {0x79, 2, 128, 8, 64}, {0x7A, 2, 256, 8, 64}, {0x7B, 2, 512, 8, 64}, {0x7C, 2, 1024, 8, 64}, {0x7D, 2, 2048, 8, 64}, {0x7F, 2, 512, 2, 64}, {0x80, 2, 512, 8, 64},
	{0x82, 2, 256, 8, 32}, {0x83, 2, 512, 8, 32}, {0x84, 2, 1024, 8, 32}, {0x85, 2, 2048, 8, 32}, {0x86, 2, 512, 4, 64}, {0x87, 2, 1024, 8, 64}, {0xD0, 3, 512, 4, 64}, {0xD1, 3, 1024, 4, 64},
	{0xD2, 3, 2048, 4, 64}, {0xD6, 3, 1024, 8, 64}, {0xD7, 3, 2048, 8, 64}, {0xD8, 3, 4096, 8, 64}, {0xDC, 3, 1536, 12, 64}, {0xDD, 3, 3072, 12, 64}, {0xDE, 3, 6144, 12, 64}, {0xE2, 3, 2048, 16, 64},
	{0xE3, 3, 4096, 16, 64}, {0xE4, 3, 8192, 16, 64}, {0xEA, 3, 12288, 24, 64}, {0xEB, 3, 18432, 24, 64}, {0xEC, 3, 24576, 24, 64}};
static const Desc* desc_of(uint8_t code) {
	for (auto& d : descs)
		if (d.code == code) return &d;
	return nullptr;
}

static void check_descriptors(const uint8_t bytes[16], bool xeon_mp, const Machine& m) {
	Desc got[5];
	bool have[5] = {};
	for (int i = 1; i < 16; i++) {
		if (bytes[i | 3] & 0x80) continue; // register without valid descriptors
		const Desc* d = desc_of(bytes[i]);
		if (!d) continue;
		Desc x = *d;
		if (x.code == 0x49 && xeon_mp) x.slot = 3;
		have[x.slot] = true;
		got[x.slot] = x;
	}
	uint32_t largest = 0;
	for (int s = 0; s < 5; s++) {
		Cache c = {};
		if (have[s]) {
			c.ways = got[s].ways;
			c.line = got[s].line;
			c.partitions = 1;
			c.sets = got[s].kb * 1024 / c.ways / c.line;
			if (s) largest = got[s].kb * 1024;
		}
		check_cache(s, have[s], c, have[s] ? got[s].kb * 1024 : 0, s >= 2 ? 2 : 0, 0, m.procs, D);
	}
	MC_CHECK(D.max_cache_size == largest, "max", "maximum cache size is %u, the largest level has %u", D.max_cache_size, largest);
}
static void descriptors(uint8_t bytes[16], uint32_t sig) {
	Machine m;
	m.signature = sig;
	m.topo = NO_TOPOLOGY;
	m.max_base = 2;
	m.procs = {{0, 0}, {1, 1}};
	mc::commit();
	venv::fresh();
	m.emit();
	venv::Regs r;
	bytes[0] = 1;
	memcpy(&r, bytes, 16);
	env.leaf(2, 0, r);
	run(m);
	check_descriptors(bytes, sig == 0x00000F64, m);
}
// a register whose top bit is set holds no descriptors, so the top byte of a register cannot hold one from 80h up
static bool placeable(uint32_t pos, uint32_t code) {
	return (pos & 3) != 3 || code < 0x80;
}
MC_FAMILY(P05, descriptor, "leaf 2: every descriptor byte in every position, three processor models, registers marked invalid or not", 0) {
	uint8_t b[16] = {};
	uint32_t pos = 1 + mc::choose(15, "position");
	uint32_t code = mc::choose(256, "descriptor");
	static const uint32_t sig[] = {0x00000F64, 0x000006F6, 0x00000F29};
	uint32_t s = mc::pick(sig, "signature");
	bool invalid = mc::flag("register marked invalid");
	if (!placeable(pos, code) || (invalid && (pos & 3) == 3)) mc::reject();
	b[pos] = code;
	if (invalid) b[pos | 3] = 0x80;
	descriptors(b, s);
}
MC_FAMILY(P05, descriptors2, "leaf 2: every pair of cache descriptors", 0) {
	uint8_t b[16] = {};
	uint32_t n = sizeof descs / sizeof *descs;
	const Desc &d1 = descs[mc::choose(n, "first")], &d2 = descs[mc::choose(n, "second")];
	static const uint8_t where[][2] = {{1, 2}, {2, 1}, {1, 13}, {14, 4}, {6, 9}};
	auto& w = mc::pick(where, "positions");
	b[w[0]] = d1.code;
	b[w[1]] = d2.code;
	descriptors(b, 0x000006F6);
}
MC_FAMILY(P05, descriptors3, "leaf 2: every triple of descriptor bytes of which two are cache descriptors", 1) {
	uint8_t b[16] = {};
	uint32_t n = sizeof descs / sizeof *descs;
	b[1] = descs[mc::choose(n, "first")].code;
	b[6] = descs[mc::choose(n, "second")].code;
	b[13] = mc::choose(256, "third");
	descriptors(b, 0x000006F6);
}
MC_FAMILY(P05, mixed, "leaf 2 descriptors together with leaf 4: the deterministic parameters win level by level", 0) {
	uint8_t b[16] = {};
	uint32_t n = sizeof descs / sizeof *descs;
	const Desc& d = descs[mc::choose(n, "descriptor")];
	uint32_t set = mc::choose(16, "leaf 4 caches");
	b[0] = 1;
	b[1] = d.code;
	Machine m;
	m.topo = NO_TOPOLOGY;
	m.max_base = 4;
	static const int lt[4][2] = {{1, 2}, {1, 1}, {2, 3}, {3, 3}};
	for (int k = 0; k < 4; k++)
		if (set >> k & 1) m.caches.push_back({lt[k][0], lt[k][1], 5u + k, 1, 64, 128, 0, 2});
	m.procs = {{0, 0}, {1, 1}, {2, 2}};
	mc::commit();
	venv::fresh();
	m.emit();
	venv::Regs r;
	memcpy(&r, b, 16);
	env.leaf(2, 0, r);
	run(m);
	uint32_t largest = 0;
	for (int s = 0; s < 5; s++) {
		Cache c = {};
		bool have = m.reported(s, &c);
		uint32_t size = c.ways * c.line * c.sets, flags = have && c.type == 3, bits = 1;
		if (!have && s == d.slot) {
			have = true;
			c = {0, 0, d.ways, 1, d.line, d.kb * 1024 / d.ways / d.line, 0, 1};
			size = d.kb * 1024;
			flags = s >= 2 ? 2 : 0;
			bits = 0;
		}
		if (have && s) largest = size;
		check_cache(s, have, c, size, flags, bits, m.procs, D);
	}
	MC_CHECK(D.max_cache_size == largest, "max", "maximum cache size is %u, the largest level has %u", D.max_cache_size, largest);
}
