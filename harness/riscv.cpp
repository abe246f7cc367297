// P16 (hierarchy) and P17 (instruction sets, vendor) on RISC-V.
#include "riscv_model.h"
using namespace riscv;
using venv::D;
using venv::env;

static void run_hierarchy(Machine& m, int sort) {
	mc::commit();
	venv::fresh();
	env.sort_mode = sort;
	m.emit();
	run();
	check_hierarchy(m, D);
}
// every nested partition: each processor joins one of the cores so far, or a new core in a cluster so far, or a new cluster
// in a package so far, or a new package
static void nest(Machine& m, int max_packages = 99) {
	std::vector<int> core_cluster, cluster_package;
	int packages = 0;
	for (auto& p : m.procs) {
		uint32_t k = mc::choose((uint32_t)(core_cluster.size() + cluster_package.size() + packages + (packages < max_packages)), "place");
		if (k < core_cluster.size()) p.core = (int)k;
		else {
			k -= (uint32_t)core_cluster.size();
			int cl;
			if (k < cluster_package.size()) cl = (int)k;
			else {
				k -= (uint32_t)cluster_package.size();
				if ((int)k == packages) packages++;
				cl = (int)cluster_package.size();
				cluster_package.push_back((int)k);
			}
			p.core = (int)core_cluster.size();
			core_cluster.push_back(cl);
		}
		p.cluster = core_cluster[p.core];
		p.package = cluster_package[p.cluster];
	}
}
static void number_cores(Machine& m, int how) {
	for (auto& p : m.procs)
		if (how == 1) p.core_id = p.core;
		else if (how == 2) {
			int k = 0; // number within the package
			for (auto& q : m.procs)
				if (q.package == p.package && q.core < p.core) k = std::max(k, q.core + 1);
			p.core_id = k;
		}
}

MC_FAMILY(P16, nested, "1-5 processors: every nested partition into cores, clusters and packages, contiguous numbers, 3 spellings of the lists, 2 orders of equal elements when sorting", 0) {
	Machine m;
	uint32_t n = 1 + mc::choose(5, "processors");
	m.style = mc::choose(3, "style");
	int sort = mc::choose(2, "sort");
	int how = mc::choose(3, "core numbers");
	for (uint32_t i = 0; i < n; i++) m.add(i, 0, 0, 0);
	nest(m);
	number_cores(m, how);
	run_hierarchy(m, sort);
}
MC_FAMILY(P16, gaps, "1-5 present processors out of 7 numbers: every subset, every nested partition, 3 spellings, 2 orders of equal elements when sorting", 0) {
	Machine m;
	m.style = mc::choose(3, "style");
	int sort = mc::choose(2, "sort");
	uint32_t set = 1 + mc::choose(127, "present");
	if (__builtin_popcount(set) > 5) mc::reject();
	for (uint32_t i = 0; i < 7; i++)
		if (set >> i & 1) m.add(i, 0, 0, 0);
	nest(m);
	run_hierarchy(m, sort);
}
MC_FAMILY(P16, ties, "1-4 present processors out of 5 numbers: every subset, every nested partition, every permutation of elements which compare equal", 0) {
	Machine m;
	uint32_t set = 1 + mc::choose(31, "present");
	if (__builtin_popcount(set) > 4) mc::reject();
	for (uint32_t i = 0; i < 5; i++)
		if (set >> i & 1) m.add(i, 0, 0, 0);
	nest(m);
	run_hierarchy(m, 2);
}
MC_FAMILY(P16, nested6, "6 processors: every nested partition", 0) {
	Machine m;
	for (uint32_t i = 0; i < 6; i++) m.add(i, 0, 0, 0);
	nest(m);
	run_hierarchy(m, 0);
}
MC_FAMILY(P16, nested7, "7 processors: every nested partition", 0) {
	Machine m;
	for (uint32_t i = 0; i < 7; i++) m.add(i, 0, 0, 0);
	nest(m);
	run_hierarchy(m, 0);
}
MC_FAMILY(P16, nested8, "8 processors: every nested partition", 1) {
	Machine m;
	for (uint32_t i = 0; i < 8; i++) m.add(i, 0, 0, 0);
	nest(m);
	run_hierarchy(m, 1);
}
MC_FAMILY(P16, big, "up to 512 processors: cores of 1-4, clusters of 1-8 cores, 1-4 packages, numbered contiguously or interleaved at each of the three levels", 0) {
	static const uint32_t smt[] = {1, 2, 4}, cores[] = {1, 2, 4, 8}, clusters[] = {1, 2, 4}, packages[] = {1, 2, 4};
	uint32_t t = mc::pick(smt, "threads"), c = mc::pick(cores, "cores"), k = mc::pick(clusters, "clusters"), p = mc::pick(packages, "packages");
	uint32_t order = mc::choose(24, "numbering");
	int sort = mc::choose(2, "sort");
	uint32_t gap = mc::choose(2, "gap");
	uint32_t dim[4] = {t, c, k, p}, perm[4], left[4] = {0, 1, 2, 3}, o = order, nl = 4;
	for (uint32_t i = 0; i < 4; i++) {
		uint32_t x = o % nl;
		o /= nl;
		perm[i] = left[x];
		for (uint32_t j = x; j + 1 < nl; j++) left[j] = left[j + 1];
		nl--;
	}
	Machine m;
	uint32_t n = t * c * k * p;
	if (n > (mc::thorough() ? 512u : 128u)) mc::reject();
	if (n * (gap + 1) > 512) mc::reject();
	for (uint32_t i = 0; i < n; i++) {
		uint32_t x[4], r = i;
		for (uint32_t j = 0; j < 4; j++) {
			x[perm[j]] = r % dim[perm[j]];
			r /= dim[perm[j]];
		}
		int pk = x[3], cl = pk * k + x[2], co = cl * c + x[1];
		m.add(i * (gap + 1) + gap, co, cl, pk);
		m.procs.back().core_id = co;
	}
	run_hierarchy(m, sort);
}
MC_FAMILY(P16, vendors, "2-4 processors in every nested partition: the hardware probe of each succeeds or fails", 0) {
	Machine m;
	uint32_t n = 2 + mc::choose(3, "processors");
	for (uint32_t i = 0; i < n; i++) m.add(i, 0, 0, 0);
	nest(m);
	// processors of one cluster are identical
	uint32_t fails = mc::choose(1 << n, "failing probes");
	for (auto& p : m.procs) {
		p.probe.vendor = 0x489;
		p.probe.ret = (fails >> p.cluster & 1) ? -1 : 0;
	}
	run_hierarchy(m, 0);
}

// ---- P17 ----
static void check_isa(uint64_t hwcap) {
	auto has = [&](char c) { return (hwcap >> (c - 'A') & 1) != 0; };
	struct {
		int what;
		bool want;
	} t[] = {{VI_riscv_i, has('I')}, {VI_riscv_e, false}, {VI_riscv_m, has('M')}, {VI_riscv_a, has('A')}, {VI_riscv_f, has('F')}, {VI_riscv_d, has('D')},
		{VI_riscv_g, has('I') && has('M') && has('A') && has('F') && has('D')}, {VI_riscv_c, has('C')}, {VI_riscv_v, has('V')}};
	for (auto& x : t) MC_CHECK(D.isa[x.what] == x.want, vd_isa_names[x.what], "%s is %d with capability word %#llx", vd_isa_names[x.what], D.isa[x.what], (unsigned long long)hwcap);
	for (int i = 0; i < VI_COUNT; i++) {
		bool mine = false;
		for (auto& x : t) mine |= x.what == i;
		MC_CHECK(mine || !D.isa[i], vd_isa_names[i], "%s of another architecture is reported", vd_isa_names[i]);
	}
}
static void run_isa(uint64_t hwcap) {
	Machine m;
	m.add(0, 0, 0, 0);
	mc::commit();
	venv::fresh();
	env.hwcap = hwcap;
	m.emit();
	run();
	check_isa(hwcap);
}
MC_FAMILY(P17, letters, "every subset of the 7 letters the library reports, alone and with every other single bit of the capability word", 0) {
	static const char letters[] = "IMAFDCV";
	uint64_t h = 0;
	uint32_t s = mc::choose(128, "letters"), o = mc::choose(65, "other bit");
	for (int i = 0; i < 7; i++)
		if (s >> i & 1) h |= 1ull << (letters[i] - 'A');
	if (o) h |= 1ull << (o - 1);
	run_isa(h);
}
MC_FAMILY(P17, bits, "every capability word of at most three bits, and with at most two bits missing", 0) {
	uint32_t a = mc::choose(64, "bit"), b = mc::choose(64, "bit"), c = mc::choose(64, "bit");
	bool inv = mc::flag("inverted");
	if (b > a || c > b || (inv && c != b)) mc::reject();
	uint64_t h = 1ull << a | 1ull << b | 1ull << c;
	run_isa(inv ? ~h : h);
}
MC_FAMILY(P17, words, "every capability word of letters A-Z without the 12 unused letters B, G, H, J-L, N-P, S-U", 1) {
	static const char letters[] = "ACDEFIMQRVWXYZ";
	uint32_t s = mc::choose(1u << 14, "letters");
	uint64_t h = 0;
	for (int i = 0; i < 14; i++)
		if (s >> i & 1) h |= 1ull << (letters[i] - 'A');
	run_isa(h);
}

static bool sifive(const venv::HwProbe& h) {
	return h.ret == 0 && !(h.unsupported & 1) && h.vendor == 0x489;
}
static void check_vendor(const Machine& m) {
	for (auto& p : m.procs) {
		int k = find(D, p.id);
		MC_CHECK(k >= 0, "missing", "kernel processor %u is not reported", p.id);
		auto& c = D.core[D.proc[k].core];
		MC_CHECK(c.uarch == 0, "uarch", "core of processor %u has microarchitecture %#x", p.id, c.uarch);
		bool yes = false, no = false; // the processors of a core should agree; if not, either will do
		for (auto& q : m.procs)
			if (q.core == p.core) (sifive(q.probe) ? yes : no) = true;
		MC_CHECK((c.vendor == vd_vendor_sifive && yes) || (c.vendor == 0 && no), "vendor", "core of processor %u has vendor %u; probe: result %d vendor %#llx, unsupported keys %u", p.id, c.vendor, p.probe.ret,
			(unsigned long long)p.probe.vendor, p.probe.unsupported);
		uint64_t hz = c.frequency;
		bool okf = false;
		for (auto& q : m.procs)
			if (q.core == p.core) okf |= hz == (uint64_t)q.freq * 1000;
		MC_CHECK(okf, "frequency", "core of processor %u has clock rate %llu, the kernel says %u kHz", p.id, (unsigned long long)hz, p.freq);
	}
	MC_CHECK(env.errors.empty(), "protocol", "%s", env.errors[0].c_str());
}
static void run_vendor(Machine& m) {
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_vendor(m);
}
MC_FAMILY(P17, vendor_bits, "vendor numbers at distance at most two bits from SiFive's and 0, arch and implementation numbers 0 and SiFive's, every set of unsupported keys", 0) {
	Machine m;
	m.add(0, 0, 0, 0);
	auto& h = m.procs[0].probe;
	uint32_t a = mc::choose(33, "bit"), b = mc::choose(33, "bit");
	if (b > a) mc::reject();
	h.vendor = mc::flag("base") ? 0x489 : 0;
	if (a) h.vendor ^= 1u << (a - 1);
	if (b && b != a) h.vendor ^= 1u << (b - 1);
	h.arch = mc::flag("arch") ? 0x489 : 0;
	h.imp = mc::flag("implementation") ? 0x489 : 0;
	h.unsupported = mc::choose(8, "unsupported");
	run_vendor(m);
}
MC_FAMILY(P17, vendor_all, "every 16-bit vendor number", 0) {
	Machine m;
	m.add(0, 0, 0, 0);
	m.procs[0].probe.vendor = mc::choose(256, "high") << 8 | mc::choose(256, "low");
	run_vendor(m);
}
MC_FAMILY(P17, vendor_each, "1-5 processors in two core layouts, the probe of each with one of 5 outcomes", 0) {
	Machine m;
	uint32_t n = 1 + mc::choose(5, "processors"), lay = mc::choose(2, "layout");
	for (uint32_t i = 0; i < n; i++) {
		m.add(i, lay ? i / 2 : i, lay ? i / 2 : i, 0);
		auto& h = m.procs[i].probe;
		switch (mc::choose(5, "outcome")) {
			case 0: h.vendor = 0x489; break;
			case 1: h.ret = -1; h.vendor = 0x489; break;
			case 2: h.vendor = 0x489; h.unsupported = 1; break;
			case 3: h.vendor = 0x5B7; h.arch = 0x489; break;
			case 4: break;
		}
	}
	run_vendor(m);
}
MC_FAMILY(P17, numbers, "a machine of two processors, every pair of processor numbers up to 139 whose sets need one to three words", 0) {
	Machine m;
	uint32_t a = mc::choose(140, "number"), b = mc::choose(140, "number");
	if (b <= a || (!mc::thorough() && b % 64 > 2 && b % 64 < 62)) mc::reject();
	m.add(a, 0, 0, 0).add(b, 1, 1, 0);
	m.procs[0].probe.vendor = 0x489;
	if (mc::flag("other")) std::swap(m.procs[0].probe, m.procs[1].probe);
	run_vendor(m);
}
MC_FAMILY(P17, frequency, "1-3 processors, the clock rate of each missing or one of 5 values", 0) {
	static const uint32_t f[] = {0, 1, 1000000, 4294967, 4294968, 4294967295u};
	Machine m;
	uint32_t n = 1 + mc::choose(3, "processors"), lay = mc::choose(2, "layout");
	for (uint32_t i = 0; i < n; i++) {
		m.add(i, lay ? 0 : i, lay ? 0 : i, 0);
		m.procs[i].freq = mc::pick(f, "clock rate");
	}
	run_vendor(m);
}
