// P12: caches on ARM.
#include "arm_parts.h"
using namespace arm;
using venv::D;
using venv::env;

static const uint32_t K = 1024, M = 1024 * 1024;

struct Geo {
	uint32_t size = 0, assoc = 0, line = 0, flags = 0;
};
struct Caches {
	Geo l1i, l1d, l2, l3;
	void l1(Geo i, Geo d) {
		l1i = i;
		l1d = d;
	}
};

enum Series { NONE, MSM, APQ, SNAPDRAGON, HI, KIRIN, MT, RK, BCM, EXYNOS, SPREADTRUM };
struct Chipset {
	const char* hardware;
	Series series;
	uint32_t model;
	uint32_t cores; // 0: any number
};
static const Chipset chipsets[] = {
	{"", NONE, 0, 0},
	{"Qualcomm Technologies, Inc MSM8974", MSM, 8974, 0},
	{"Qualcomm Technologies, Inc MSM8998", MSM, 8998, 0},
	{"Qualcomm Technologies, Inc MSM8940", MSM, 8940, 0},
	{"Qualcomm Technologies, Inc MSM8953", MSM, 8953, 0},
	{"Qualcomm Technologies, Inc MSM8937", MSM, 8937, 8},
	{"Qualcomm Technologies, Inc MSM8952", MSM, 8952, 0},
	{"Qualcomm Technologies, Inc APQ8016", APQ, 8016, 0},
	{"Qualcomm Technologies, Inc SDM630", SNAPDRAGON, 630, 0},
	{"Qualcomm Technologies, Inc SDM636", SNAPDRAGON, 636, 0},
	{"Qualcomm Technologies, Inc SDM660", SNAPDRAGON, 660, 0},
	{"Qualcomm Technologies, Inc SDM845", SNAPDRAGON, 845, 0},
	{"Qualcomm Technologies, Inc SDM450", SNAPDRAGON, 450, 0},
	{"Hisilicon Kirin 970", KIRIN, 970, 0},
	{"Hisilicon Kirin 980", KIRIN, 980, 0},
	{"Hisilicon Kirin 960", KIRIN, 960, 0},
	{"hi6250", KIRIN, 650, 0},
	{"MT8173", MT, 8173, 0},
	{"MT6799", MT, 6799, 0},
	{"Rockchip RK3368", RK, 3368, 0},
	{"Rockchip RK3399", RK, 3399, 0},
	{"SAMSUNG Exynos8895", EXYNOS, 8895, 0},
	{"SAMSUNG Exynos9810", EXYNOS, 9810, 0},
	{"sc9832e", SPREADTRUM, 9832, 0},
};
static const uint32_t NCHIPSETS = sizeof(chipsets) / sizeof(*chipsets);

static Caches ref_caches(uint32_t midr, uint32_t uarch, uint32_t cores, const Chipset& chip, bool first, uint32_t arch_version) {
	const uint32_t INC = CPUINFO_CACHE_INCLUSIVE;
	Caches c;
	bool qualcomm = midr >> 24 == 'Q' && (midr >> 4 & 0xFFF) != 0x805;
	switch (uarch) {
		case cpuinfo_uarch_xscale:
			switch (midr >> 12 & 15) {
				case 2: c.l1({16 * K, 32, 32}, {16 * K, 4, 64}); return c;
				case 4: c.l1({32 * K, 32, 32}, {32 * K, 32, 32}); return c;
				case 6:
					c.l1({32 * K, 4, 32}, {32 * K, 4, 32});
					c.l2 = {256 * K, 8, 32};
					return c;
			}
			break;
		case cpuinfo_uarch_arm11: c.l1({16 * K, 4, 32}, {16 * K, 4, 32}); return c;
		case cpuinfo_uarch_cortex_a5:
			c.l1({32 * K, 2, 32}, {32 * K, 4, 32});
			c.l2 = {256 * K, 8, 32};
			return c;
		case cpuinfo_uarch_cortex_a7:
			c.l1({32 * K, 2, 32}, {32 * K, 4, 64});
			c.l2 = {cores * 128 * K, 8, 64};
			return c;
		case cpuinfo_uarch_cortex_a8:
			c.l1({32 * K, 4, 64}, {32 * K, 4, 64});
			c.l2 = {(chip.series == EXYNOS ? 512 : 256) * K, 8, 64};
			return c;
		case cpuinfo_uarch_cortex_a9:
			c.l1({32 * K, 4, 32}, {32 * K, 4, 32});
			c.l2 = {M, 16, 32};
			return c;
		case cpuinfo_uarch_cortex_a15:
			c.l1({32 * K, 2, 64}, {32 * K, 2, 64});
			c.l2 = {cores * 512 * K, 16, 64};
			return c;
		case cpuinfo_uarch_cortex_a17:
			c.l1({32 * K, 4, 64}, {32 * K, 4, 64});
			c.l2 = {cores * 512 * K, 16, 64};
			return c;
		case cpuinfo_uarch_cortex_a35:
			c.l1({16 * K, 2, 64}, {16 * K, 4, 64});
			c.l2 = {256 * K, 8, 64};
			return c;
		case cpuinfo_uarch_cortex_a53: {
			uint32_t l1 = 16 * K, l2 = 256 * K;
			if (qualcomm) {
				bool mb = chip.model == 8998 || (chip.series == SNAPDRAGON && ((chip.model == 630 && first) || chip.model == 636 || chip.model == 660));
				c.l1({32 * K, 2, 64}, {32 * K, 4, 64});
				c.l2 = {mb ? M : 512 * K, 16, 64};
				return c;
			}
			switch (chip.series) {
				case MSM:
					l1 = 32 * K;
					l2 = 512 * K;
					if (first && (chip.model == 8937 || chip.model == 8940 || chip.model == 8953)) l2 = M;
					if (!first && chip.model == 8952) l2 = 256 * K;
					break;
				case APQ:
				case HI:
					l1 = 32 * K;
					l2 = 512 * K;
					break;
				case SNAPDRAGON:
					l1 = 32 * K;
					l2 = chip.model == 450 && first ? M : 512 * K;
					break;
				case KIRIN:
					l1 = 32 * K;
					l2 = chip.model == 970 ? M : 512 * K;
					break;
				case MT:
					if (chip.model == 8173) l1 = 32 * K, l2 = 512 * K;
					break;
				case RK:
					l1 = 32 * K;
					if (chip.model == 3368 && first) l2 = 512 * K;
					break;
				case BCM:
					if (chip.model == 2837) l2 = 512 * K;
					break;
				case EXYNOS: l1 = 32 * K; break;
				default: break;
			}
			c.l1({l1, 2, 64}, {l1, 4, 64});
			c.l2 = {l2, 16, 64};
			return c;
		}
		case cpuinfo_uarch_cortex_a55r0:
		case cpuinfo_uarch_cortex_a55:
			c.l1({32 * K, 4, 64}, {32 * K, 4, 64});
			if (!qualcomm && chip.series == EXYNOS) {
				c.l2 = {512 * K, 16, 64};
				return c;
			}
			c.l2 = {128 * K, 4, 64};
			c.l3 = {M, 16, 64};
			if (qualcomm && chip.series == SNAPDRAGON && chip.model == 845) c.l3.size = 2 * M;
			if (!qualcomm && chip.series == KIRIN && chip.model == 980) c.l3.size = 4 * M;
			return c;
		case cpuinfo_uarch_cortex_a57:
			c.l1({48 * K, 3, 64}, {32 * K, 2, 64});
			c.l2 = {cores * 512 * K, 16, 64, INC};
			return c;
		case cpuinfo_uarch_cortex_a65:
			c.l1({32 * K, 4, 64}, {32 * K, 4, 64});
			c.l2 = {128 * K, 4, 64, INC};
			c.l3 = {512 * K, 16, 64};
			return c;
		case cpuinfo_uarch_cortex_a72:
			c.l1({48 * K, 3, 64}, {32 * K, 2, 64});
			c.l2 = {chip.series == KIRIN ? 2 * M : M, 16, 64, INC};
			return c;
		case cpuinfo_uarch_cortex_a73: {
			uint32_t l1d = 32 * K, l2 = 512 * K;
			if (chip.series == KIRIN) l1d = 64 * K, l2 = 2 * M;
			else if (chip.series == MT) l1d = 64 * K, l2 = M;
			else if (midr == 0x51AF8001) l1d = 64 * K, l2 = 2 * M;
			else if (midr == 0x51AF8002) l1d = 64 * K, l2 = M;
			c.l1({64 * K, 4, 64}, {l1d, l1d / 4096, 64});
			c.l2 = {l2, 16, 64, INC};
			return c;
		}
		case cpuinfo_uarch_cortex_a75:
			c.l1({64 * K, 4, 64}, {64 * K, 16, 64});
			c.l2 = {256 * K, 8, 64};
			c.l3 = {chip.series == SNAPDRAGON && chip.model == 845 ? 2 * M : M, 16, 64};
			return c;
		case cpuinfo_uarch_cortex_a76:
		case cpuinfo_uarch_cortex_a77: {
			bool k = uarch == cpuinfo_uarch_cortex_a76 && chip.series == KIRIN && chip.model == 980;
			c.l1({64 * K, 4, 64}, {64 * K, 4, 64});
			c.l2 = {k ? 512 * K : 256 * K, 8, 64, INC};
			c.l3 = {k ? 4 * M : M, 16, 64};
			return c;
		}
		case cpuinfo_uarch_neoverse_n1:
		case cpuinfo_uarch_neoverse_v1:
		case cpuinfo_uarch_neoverse_n2:
		case cpuinfo_uarch_neoverse_v2:
			c.l1({64 * K, 4, 64}, {64 * K, 4, 64});
			c.l2 = {uarch == cpuinfo_uarch_neoverse_v2 || uarch == cpuinfo_uarch_neoverse_n1 ? M : 256 * K, 8, 64, INC};
			return c;
		case cpuinfo_uarch_scorpion:
			c.l1({32 * K, 4, 32}, {32 * K, 4, 32});
			c.l2 = {cores * 256 * K, 4, 128};
			return c;
		case cpuinfo_uarch_krait:
			c.l1({16 * K, 4, 64}, {16 * K, 4, 64});
			c.l2 = {cores * 512 * K, 8, 128};
			return c;
		case cpuinfo_uarch_kryo: {
			uint32_t part = midr >> 4 & 0xFFF;
			c.l1({32 * K, 4, 64}, {24 * K, 3, 64});
			c.l2 = {part == 0x205 ? M : 512 * K, 8, 128};
			return c;
		}
		case cpuinfo_uarch_denver:
		case cpuinfo_uarch_denver2:
			c.l1({128 * K, 4, 64}, {64 * K, 4, 64});
			c.l2 = {2 * M, 16, 64};
			return c;
		case cpuinfo_uarch_exynos_m1:
		case cpuinfo_uarch_exynos_m2:
			c.l1({64 * K, 4, 128}, {32 * K, 8, 64});
			c.l2 = {2 * M, 16, 64};
			return c;
		case cpuinfo_uarch_exynos_m3:
			c.l1({64 * K, 4, 128}, {64 * K, 8, 64});
			c.l2 = {512 * K, 16, 64};
			c.l3 = {4 * M, 16, 64};
			return c;
		case cpuinfo_uarch_thunderx:
			if (vd_android) break;
			c.l1({78 * K, 4, 64}, {32 * K, 4, 64});
			c.l2 = {16 * M, 8, 64};
			return c;
		case cpuinfo_uarch_taishan_v110:
			if (vd_android) break;
			c.l1({64 * K, 4, 128}, {64 * K, 4, 128});
			c.l2 = {512 * K, 8, 128, INC};
			c.l3 = {cores * M, 16, 128};
			return c;
	}
	if (arch_version >= 8) {
		c.l1({32 * K, 4, 64}, {32 * K, 4, 64});
		c.l2 = {cores * 256 * K, 8, 64};
	} else {
		c.l1({16 * K, 4, 32}, {16 * K, 4, 32});
		if (arch_version >= 7) c.l2 = {cores * 128 * K, 8, 32};
	}
	return c;
}

static void same(const char* what, uint32_t cpu, const vd_cache& c, const Geo& g) {
	MC_CHECK(c.size == g.size && c.associativity == g.assoc && c.line_size == g.line && c.flags == g.flags, "geometry", "kernel processor %u, %s: %u bytes, %u-way, %u-byte lines, flags %u; expected %u, %u, %u, %u", cpu, what, c.size, c.associativity,
		c.line_size, c.flags, g.size, g.assoc, g.line, g.flags);
}

static void run_caches(Machine& m, const Chipset& chip, const Geo* icache = nullptr, const Geo* dcache = nullptr) {
	if (*chip.hardware) m.hardware = chip.hardware;
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_hierarchy(m, D);
	const vdesc& d = D;
	auto leader = ref_clusters(m);
	std::vector<uint32_t> size(m.procs.size(), 0);
	for (int l : leader) size[l]++;
	uint32_t av = m.arch_version ? m.arch_version : is64() ? 8 : 7;
	std::vector<Caches> ref(m.procs.size());
	uint32_t l3 = 0;
	bool l3_shared = true;
	for (size_t i = 0; i < m.procs.size(); i++) {
		int k = find(d, m.procs[i].id);
		auto& core = d.core[d.proc[k].core];
		ref[i] = ref_caches(core.id, core.uarch, size[leader[i]], chip, d.proc[k].cluster == 0, av);
		if (ref[i].l3.size == 0 || (i > 0 && ref[i].l3.size != l3)) l3_shared = false;
		l3 = ref[i].l3.size;
	}
	for (size_t i = 0; i < m.procs.size(); i++) {
		uint32_t id = m.procs[i].id;
		auto& p = d.proc[find(d, id)];
		auto& cl = d.cluster[p.cluster];
		MC_CHECK(p.cache[0] >= 0 && p.cache[1] >= 0, "first_level", "kernel processor %u has no first-level caches", id);
		auto &i1 = d.cache[0][p.cache[0]], &d1 = d.cache[1][p.cache[1]];
		same("L1 instruction cache", id, i1, icache ? *icache : ref[i].l1i);
		same("L1 data cache", id, d1, dcache ? *dcache : ref[i].l1d);
		MC_CHECK(i1.processor_count == 1 && d1.processor_count == 1, "private", "kernel processor %u shares its first-level caches", id);
		MC_CHECK((p.cache[2] >= 0) == (ref[i].l2.size != 0), "second_level", "kernel processor %u: second-level cache %s", id, p.cache[2] >= 0 ? "unexpected" : "missing");
		if (p.cache[2] >= 0) {
			auto& c = d.cache[2][p.cache[2]];
			same("L2 cache", id, c, ref[i].l2);
			uint32_t n = ref[i].l3.size ? 1 : cl.processor_count;
			MC_CHECK(c.processor_count == n, "second_level_sharing", "L2 cache of kernel processor %u is shared by %u processors, expected %u", id, c.processor_count, n);
			if (n > 1) MC_CHECK(c.processor_start == cl.processor_start, "second_level_sharing", "L2 cache of kernel processor %u starts at %u, its cluster at %u", id, c.processor_start, cl.processor_start);
		}
		MC_CHECK((p.cache[3] >= 0) == (ref[i].l3.size != 0), "third_level", "kernel processor %u: third-level cache %s", id, p.cache[3] >= 0 ? "unexpected" : "missing");
		if (p.cache[3] >= 0) {
			auto& c = d.cache[3][p.cache[3]];
			// one shared cache has the geometry which its first processor is known for
			size_t who = i;
			if (l3_shared)
				for (size_t j = 0; j < m.procs.size(); j++)
					if (m.procs[j].id == d.proc[0].linux_id) who = j;
			same("L3 cache", id, c, ref[who].l3);
			uint32_t s = l3_shared ? 0 : cl.processor_start, n = l3_shared ? d.nproc : cl.processor_count;
			MC_CHECK(c.processor_start == s && c.processor_count == n, "third_level_sharing", "L3 cache of kernel processor %u is shared by processors %u+%u, expected %u+%u", id, c.processor_start, c.processor_count, s, n);
		}
		MC_CHECK(p.cache[4] < 0, "fourth_level", "kernel processor %u has a fourth-level cache", id);
		for (int lv = 0; lv < 4; lv++)
			if (p.cache[lv] >= 0) {
				auto& c = d.cache[lv][p.cache[lv]];
				MC_CHECK(c.size > 0 && c.sets > 0 && (uint64_t)c.associativity * c.sets * c.partitions * c.line_size == c.size, "product", "kernel processor %u, cache %d: %u ways, %u sets, %u partitions, %u-byte lines, %u bytes", id, lv,
					c.associativity, c.sets, c.partitions, c.line_size, c.size);
				if (lv > 0) MC_CHECK(d.max_cache_size >= c.size, "maximum", "maximum cache size %u is less than the %u bytes of cache %d of kernel processor %u", d.max_cache_size, c.size, lv, id);
			}
	}
	// nothing but what processors point to
	for (int lv = 0; lv < 5; lv++)
		for (uint32_t i = 0; i < d.ncache[lv]; i++) MC_CHECK(d.cache[lv][i].size > 0, "phantom", "cache %d/%u has no size", lv, i);
}

static uint32_t part_midr(uint32_t k, uint32_t rev = 1) {
	const uint32_t np = sizeof(parts) / sizeof(*parts);
	// further identities which have caches of their own, or generic ones
	static const uint32_t more[] = {0x51AF8002, 0x51AF8001, 0x51AF8014, 0x413FD0C1, 0x410FB764, 0x69052D06, 0x69054117, 0x69056826, 0x413F9200, 0x41FFFFF0};
	if (k >= np) return more[k - np];
	return parts[k].impl << 24 | (parts[k].variant < 0 ? 2u : (uint32_t)parts[k].variant) << 20 | 0xF0000 | parts[k].part << 4 | rev;
}
static const uint32_t NPARTS = sizeof(parts) / sizeof(*parts) + 10;

MC_FAMILY(P12, single, "one cluster of 1-12 cores of every recognised core type, every chipset series with a cache configuration of its own", 0) {
	Machine m;
	uint32_t midr = part_midr(mc::choose(NPARTS, "core type"));
	const Chipset& c = chipsets[mc::choose(NCHIPSETS, "chipset")];
	uint32_t n = 1 + mc::choose(12, "cores");
	if (c.cores && c.cores != n) mc::reject();
	for (uint32_t i = 0; i < n; i++) m.add(i, midr, 0);
	run_caches(m, c);
}
MC_FAMILY(P12, two_same, "two clusters of one core type with 1-4 cores each, every chipset, every frequency order", 0) {
	Machine m;
	uint32_t midr = part_midr(mc::choose(NPARTS, "core type"));
	const Chipset& c = chipsets[mc::choose(NCHIPSETS, "chipset")];
	uint32_t a = 1 + mc::choose(4, "first cluster"), b = 1 + mc::choose(4, "second cluster");
	uint32_t f = mc::choose(2, "frequency order");
	if (c.cores && c.cores != a + b) mc::reject();
	for (uint32_t i = 0; i < a + b; i++) m.add(i, midr, i >= a, (i >= a) == (f != 0) ? 2000000 : 1000000);
	run_caches(m, c);
}
MC_FAMILY(P12, two, "two clusters of every pair of core types, sizes 1+2, 2+1 and 4+4, six chipsets (thorough: all)", 0) {
	static const uint32_t some[] = {0, 11, 14, 2, 22, 18};
	Machine m;
	uint32_t x = part_midr(mc::choose(NPARTS, "first core type")), y = part_midr(mc::choose(NPARTS, "second core type"));
	const Chipset& c = chipsets[mc::thorough() ? mc::choose(NCHIPSETS, "chipset") : mc::pick(some, "chipset")];
	static const uint32_t sizes[][2] = {{1, 2}, {2, 1}, {4, 4}};
	auto& s = sizes[mc::choose(3, "sizes")];
	if (c.cores && c.cores != s[0] + s[1]) mc::reject();
	for (uint32_t i = 0; i < s[0] + s[1]; i++) m.add(i, i < s[0] ? x : y, i >= s[0], 1000000);
	run_caches(m, c);
}
static const uint32_t l3_types[] = {0x414FD0B0, 0x412FD050, 0x413FD0A1, 0x481FD010, 0x531F0020, 0x410FD060, 0x411FD071, 0x411FD440, 0x411FD411, 0x51DF805E, 0x410FD034};
MC_FAMILY(P12, three, "three clusters of 1-2 cores with every triple of 11 core types with third-level caches of various sizes or none, four chipsets", 0) {
	static const uint32_t some[] = {0, 11, 14, 22};
	Machine m;
	uint32_t t[3], n[3], id = 0;
	for (int c = 0; c < 3; c++) t[c] = mc::pick(l3_types, "core type");
	const Chipset& c = chipsets[mc::pick(some, "chipset")];
	for (int c = 0; c < 3; c++) n[c] = 1 + mc::choose(2, "cores");
	for (int c = 0; c < 3; c++)
		for (uint32_t i = 0; i < n[c]; i++) m.add(id++, t[c], c, 1000000);
	run_caches(m, c);
}
MC_FAMILY(P12, four, "four single-core and five single-core clusters with every combination of 6 (5: 4) core types with and without third-level caches", 0) {
	Machine m;
	uint32_t n = 4 + mc::choose(2, "clusters");
	for (uint32_t i = 0; i < n; i++) m.add(i, l3_types[mc::choose(n == 4 ? 7 : 4, "core type") + (n == 4 ? 0 : 3)], (int)i, 1000000);
	run_caches(m, chipsets[0]);
}
MC_FAMILY(P12, big, "one and two clusters of up to 64 cores in total, every core type", 0) {
	static const uint32_t sizes[] = {16, 24, 31, 32};
	Machine m;
	m.kernel_max = 127;
	uint32_t midr = part_midr(mc::choose(NPARTS, "core type"));
	uint32_t n = mc::pick(sizes, "cores"), two = mc::choose(2, "clusters");
	for (uint32_t i = 0; i < n * (1 + two); i++) m.add(i, midr, i >= n, 1000000);
	run_caches(m, chipsets[0]);
}
MC_FAMILY(P12, generic, "core types without known caches, every architecture version 4-9, 1-6 cores", 0) {
	Machine m;
	m.arch_version = 4 + mc::choose(6, "architecture");
	uint32_t n = 1 + mc::choose(6, "cores");
	for (uint32_t i = 0; i < n; i++) m.add(i, 0x41FFFFF0, 0);
	run_caches(m, chipsets[0]);
}
MC_FAMILY(P12, reported, "32-bit: cache geometries of old kernels in /proc/cpuinfo override the tables: sizes, associativities, line lengths, instruction, data or both, 1-2 processors", 0) {
	if (is64()) mc::reject();
	static const uint32_t ways[] = {1, 2, 4, 64}, lines[] = {32, 64}, sets[] = {64, 128, 512}, ids[] = {0x410FB764, 0x69052D06, 0x410FC090};
	Geo g[2];
	uint32_t set[2];
	uint32_t which = 1 + mc::choose(3, "which");
	for (int k = 0; k < 2; k++)
		if (which >> k & 1) {
			g[k].assoc = mc::pick(ways, "associativity");
			g[k].line = mc::pick(lines, "line length");
			set[k] = mc::pick(sets, "sets");
			g[k].size = g[k].assoc * g[k].line * set[k];
			if (g[k].size > 256 * K) mc::reject();
		}
	Machine m;
	uint32_t midr = mc::pick(ids, "core"), n = 1 + mc::choose(2, "processors");
	for (uint32_t i = 0; i < n; i++) {
		m.add(i, midr, 0);
		for (int k = 0; k < 2; k++)
			if (which >> k & 1) {
				const char* x = k ? "D" : "I";
				m.procs.back().extra += venv::fmt("%s size\t\t: %u\n%s assoc\t\t: %u\n%s line length\t: %u\n%s sets\t\t: %u\n", x, g[k].size, x, g[k].assoc, x, g[k].line, x, set[k]);
			}
	}
	run_caches(m, chipsets[0], which & 1 ? &g[0] : nullptr, which & 2 ? &g[1] : nullptr);
}
