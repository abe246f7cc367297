// P10 (core identity), P11 (microarchitecture list and order) on ARM.
#include <cpuinfo.h>
#include "arm_parts.h"
using namespace arm;
using venv::D;
using venv::env;

// ---------------------------------------------------------------- reference: identity of every cluster

struct Chip {
	const char* hardware;
	int arch; // 0: both, 1: 64-bit only, 2: 32-bit only
	std::vector<uint32_t> cores, midr;
};
static const Chip chips[] = {
	{"Qualcomm Technologies, Inc MSM8916", 2, {4}, {0x410FD030}},
	{"Qualcomm Technologies, Inc MSM8939", 2, {4, 4}, {0x410FD034, 0x410FD034}},
	{"Qualcomm Technologies, Inc MSM8956", 0, {4, 2}, {0x410FD034, 0x410FD080}},
	{"Qualcomm Technologies, Inc MSM8976", 0, {4, 4}, {0x410FD034, 0x410FD080}},
	{"Qualcomm Technologies, Inc MSM8992", 0, {4, 2}, {0x410FD033, 0x411FD072}},
	{"Qualcomm Technologies, Inc MSM8994", 0, {4, 4}, {0x410FD032, 0x411FD071}},
	{"SAMSUNG Exynos5422", 2, {4, 4}, {0x410FC073, 0x412FC0F3}},
	{"SAMSUNG Exynos5430", 2, {4, 4}, {0x410FC074, 0x413FC0F3}},
	{"SAMSUNG Exynos5433", 0, {4, 4}, {0x410FD031, 0x411FD070}},
	{"SAMSUNG Exynos7420", 0, {4, 4}, {0x410FD032, 0x411FD070}},
	{"SAMSUNG Exynos8890", 0, {4, 4}, {0x410FD034, 0x531F0011}},
	{"Hisilicon Kirin 920", 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{"Hisilicon Kirin 925", 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{"Hisilicon Kirin 928", 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{"Hisilicon Kirin 950", 0, {4, 4}, {0x410FD034, 0x410FD080}},
	{"Hisilicon Kirin 955", 0, {4, 4}, {0x410FD034, 0x410FD080}},
	{"MT8135", 2, {2, 2}, {0x410FC073, 0x413FC0F2}},
	{"MT8173", 0, {2, 2}, {0x410FD032, 0x410FD080}},
	{"MT8176", 0, {4, 2}, {0x410FD032, 0x410FD080}},
	{"MT8735", 1, {4}, {0x410FD034}},
	{"MT6592", 2, {4, 4}, {0x410FC074, 0x410FC074}},
	{"MT6595", 2, {4, 4}, {0x410FC075, 0x410FC0E0}},
	{"MT6797", 0, {4, 4, 2}, {0x410FD034, 0x410FD034, 0x410FD081}},
	{"MT6799", 0, {4, 4, 2}, {0x410FD041, 0x410FD034, 0x410FD092}},
	{"Rockchip RK3399", 0, {4, 2}, {0x410FD034, 0x410FD082}},
	{"gs702c", 2, {4}, {0x410FC051}}, // Actions ATM7029
};
static const int NCHIPS = sizeof(chips) / sizeof(*chips);
static bool chip_applies(const Chip& c) {
	return c.arch == 0 || (c.arch == 1) == is64();
}

static uint32_t little_companion(uint32_t midr) {
	static const uint32_t map[][2] = {
		{0x410FD0A0, 0x410FD050}, {0x410FD090, 0x410FD030}, {0x410FD080, 0x410FD030}, {0x410FD070, 0x410FD030}, {0x530F0010, 0x410FD030}, {0x410FC0E0, 0x410FC070}, {0x410FC0F0, 0x410FC070}, {0x510F8000, 0x51AF8014}, {0x510F2050, 0x510F2110}, {0x4E0F0030, 0x410FD070}};
	for (auto& m : map)
		if ((midr & 0xFF0FFFF0) == m[0]) return m[1];
	return midr;
}

struct Allowed {
	bool any = false; // not determined
	std::vector<uint32_t> midr;
};
// Identities allowed for each cluster, by index of its first processor. Every processor is either completely described or not at all.
static std::vector<Allowed> ref_identity(const Machine& m, const std::vector<int>& leader, const Chip* chip) {
	int n = (int)m.procs.size();
	std::vector<Allowed> out(n);
	std::vector<int> cl;
	std::vector<uint32_t> known(n, 0), freq(n, 0), size(n, 0);
	int last_listed = -1, last_known = -1, count = 0;
	for (int i = 0; i < n; i++) {
		auto& p = m.procs[i];
		int l = leader[i];
		if (l == i) cl.push_back(i);
		size[l]++;
		if (p.listed) last_listed = i;
		if (p.complete()) {
			last_known = i;
			count++;
			if (known[l] && known[l] != p.midr) out[l].any = true; // the kernel's clusters contradict its identities
			if (!known[l]) known[l] = p.midr;
		}
		if (p.fmax && !freq[l]) freq[l] = p.fmax;
	}
	bool conflict = false;
	for (int c : cl) conflict = conflict || out[c].any;
	if (conflict) { // only the consistent clusters are determined
		for (int c : cl)
			if (!out[c].any && known[c]) out[c].midr = {known[c]};
			else out[c].any = true;
		return out;
	}
	if (count == 0) {
		bool tab = chip && chip->cores.size() == cl.size();
		for (size_t k = 0; tab && k < cl.size(); k++) tab = chip->cores[k] == size[cl[k]];
		for (size_t k = 0; k < cl.size(); k++)
			if (tab) out[cl[k]].midr = {chip->midr[k]};
			else out[cl[k]].any = true;
		return out;
	}
	bool ambiguous = count == 1 && last_known == last_listed && cl.size() > 1;
	bool tab = chip && chip->cores.size() == cl.size();
	for (size_t k = 0; tab && k < cl.size(); k++) {
		if (chip->cores[k] != size[cl[k]]) tab = false;
		if (!ambiguous && known[cl[k]] && ((known[cl[k]] ^ chip->midr[k]) & 0xFFF0FFFF)) tab = false;
	}
	if (ambiguous && tab) {
		for (size_t k = 0; k < cl.size(); k++) out[cl[k]].midr = {chip->midr[k]};
		return out;
	}
	uint32_t last = m.procs[last_known].midr;
	if (ambiguous) {
		// the only identity may belong to any processor: it is used as is, or for the big cluster of two
		for (int c : cl) {
			out[c].midr = {last};
			if (cl.size() == 2) out[c].midr.push_back(little_companion(last));
		}
		return out;
	}
	int nknown = 0;
	for (int c : cl) nknown += known[c] != 0;
	if (tab && nknown < (int)cl.size()) {
		for (size_t k = 0; k < cl.size(); k++) out[cl[k]].midr = {chip->midr[k]};
		return out;
	}
	if (cl.size() == 2 && nknown == 1) {
		int a = cl[0], b = cl[1];
		int little = freq[a] && freq[b] && freq[a] > freq[b] ? b : a;
		int unknown = known[a] ? b : a, other = known[a] ? a : b;
		out[other].midr = {known[other]};
		out[unknown].midr = {unknown == little ? little_companion(known[other]) : known[other]};
		return out;
	}
	uint32_t cur = last;
	for (int c : cl) {
		if (known[c]) cur = known[c];
		out[c].midr = {cur};
	}
	return out;
}

static void check_identity(const Machine& m, const vdesc& d, const Chip* chip) {
	check_hierarchy(m, d);
	auto leader = ref_clusters(m);
	auto allowed = ref_identity(m, leader, chip);
	bool vfpv4 = m.features.find("vfpv4") != std::string::npos;
	for (size_t i = 0; i < m.procs.size(); i++) {
		int k = find(d, m.procs[i].id);
		auto& core = d.core[d.proc[k].core];
		auto& cl = d.cluster[d.proc[k].cluster];
		MC_CHECK(core.id == cl.id && core.vendor == cl.vendor && core.uarch == cl.uarch, "uniform", "kernel processor %u: core %08x/%u/%u differs from its cluster %08x/%u/%u", m.procs[i].id, core.id, core.vendor, core.uarch, cl.id, cl.vendor, cl.uarch);
		auto& a = allowed[leader[i]];
		if (!a.any) {
			bool ok = false;
			for (uint32_t v : a.midr) ok = ok || v == core.id;
			MC_CHECK(ok, "identity", "kernel processor %u is reported as %08x, expected %08x%s", m.procs[i].id, core.id, a.midr[0], a.midr.size() > 1 ? " or its companion" : "");
		}
		uint32_t v, u;
		ref_decode(core.id, vfpv4 && m.procs[leader[i]].listed, &v, &u);
		MC_CHECK(core.vendor == v && core.uarch == u, "decode", "identity %08x is reported with vendor %u microarchitecture %#x, expected %u %#x", core.id, core.vendor, core.uarch, v, u);
	}
}
static void run_identity(Machine& m, const Chip* chip = nullptr) {
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_identity(m, D, chip);
}

MC_FAMILY(P10, decode, "one processor: 14 implementers, every part number, variants 0, 1, 2, 4 (thorough: all 16)", 0) {
	static const uint32_t impl[] = {'A', 'B', 'C', 'H', 'N', 'P', 'Q', 'S', 'V', 'i', 'D', 0, 0xFF, 'a'};
	static const uint32_t var[] = {0, 1, 2, 4, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
	Machine m;
	uint32_t i = mc::pick(impl, "implementer"), p = mc::choose(4096, "part");
	uint32_t v = var[mc::choose(mc::thorough() ? 16 : 4, "variant")];
	if (mc::flag("VFPv4")) {
		if (i != 'Q' || p > 0xFF) mc::reject();
		m.features += " vfpv4";
	}
	m.add(0, i << 24 | v << 20 | 0xF0000 | p << 4 | 3, 0);
	run_identity(m);
}
MC_FAMILY(P10, fields, "one processor: every implementer byte, variant and revision of a few parts, every architecture text", 0) {
	static const uint32_t part[] = {0xD03, 0xD05, 0x001, 0x800, 0xFFF};
	Machine m;
	uint32_t i = mc::choose(256, "implementer");
	uint32_t p = mc::pick(part, "part");
	m.add(0, i << 24 | mc::choose(16, "variant") << 20 | 0xF0000 | p << 4 | mc::choose(16, "revision"), 0);
	run_identity(m);
}

static const uint32_t idents[] = {A53, A57, A73, 0x51AF8001, A75, 0x531F0011, 0x510F2050, 0x4E1F0030, A15, 0x410FC0E0, A76};

static void some_known(std::vector<uint32_t> layout, std::vector<uint32_t> mids, const Chip* chip, int freq_mode, bool topo, uint32_t kinds) {
	Machine m;
	if (chip) m.hardware = chip->hardware;
	uint32_t id = 0;
	for (size_t c = 0; c < layout.size(); c++)
		for (uint32_t i = 0; i < layout[c]; i++) {
			uint32_t f = freq_mode == 0 ? 0 : freq_mode == 1 ? 1000000 + (uint32_t)c * 500000 : freq_mode == 2 ? 2000000 - (uint32_t)c * 500000 : c == 0 ? 1000000 : 0;
			m.add(id++, mids[c], topo ? (int)c : -1, f);
			Proc& p = m.procs.back();
			switch (mc::choose(kinds, "description")) {
				case 0: break;
				case 1: p.listed = false; p.known = 0; break;
				case 2: p.known = 0; break; // listed without any fact
			}
		}
	m.tail = "Serial\t: 0\n";
	run_identity(m, chip);
}
MC_FAMILY(P10, two_clusters, "two clusters of 1-3 processors each with every pair of 11 identities, every subset of processors described, unlisted or listed without facts, 4 frequency patterns", 0) {
	uint32_t a = 1 + mc::choose(3, "first cluster"), b = 1 + mc::choose(3, "second cluster");
	uint32_t ma = mc::pick(idents, "first identity"), mb = mc::pick(idents, "second identity");
	int f = (int)mc::choose(4, "frequencies");
	if (!mc::thorough() && a + b > 5) mc::reject();
	some_known({a, b}, {ma, mb}, nullptr, f, true, a + b > 4 ? 2 : 3);
}
MC_FAMILY(P10, three_clusters, "three clusters of 1-2 processors with every triple of 4 identities, every subset of processors described, unlisted or listed without facts", 0) {
	static const uint32_t ids[] = {A53, A57, A75, 0x51AF8001};
	uint32_t s = mc::choose(8, "sizes");
	std::vector<uint32_t> mids;
	for (int i = 0; i < 3; i++) mids.push_back(mc::pick(ids, "identity"));
	some_known({1 + (s & 1), 1 + (s >> 1 & 1), 1 + (s >> 2)}, mids, nullptr, 1, true, mc::thorough() ? 3 : 2);
}
MC_FAMILY(P10, four_clusters, "four and five single-processor clusters: every assignment of 3 identities, described, unlisted or listed without facts", 0) {
	static const uint32_t ids[] = {A53, A57, A75};
	uint32_t n = 4 + mc::choose(2, "clusters");
	std::vector<uint32_t> mids, lay;
	for (uint32_t i = 0; i < n; i++) mids.push_back(mc::pick(ids, "identity")), lay.push_back(1);
	some_known(lay, mids, nullptr, 0, true, n == 5 && !mc::thorough() ? 2 : 3);
}
MC_FAMILY(P10, chips, "26 chipsets with a known configuration: every subset of described processors of up to 8, true or different identities, with and without topology information", 0) {
	const Chip& c = chips[mc::choose(NCHIPS, "chipset")];
	if (vd_android) mc::reject();
	uint32_t wrong = mc::choose((uint32_t)c.cores.size() + 1, "cluster with another identity");
	bool topo = mc::flag("topology");
	std::vector<uint32_t> mids = c.midr;
	if (wrong) mids[wrong - 1] ^= 1u << 20 | 1;
	if (c.cores.size() == 3 && !mc::thorough() && !topo) mc::reject();
	// on the other architecture these chips are not in the table
	Chip none = c;
	const Chip* use = &c;
	if (!chip_applies(c)) {
		none.cores.clear();
		use = &none;
	}
	some_known(c.cores, mids, use, 1, topo, 2);
}
MC_FAMILY(P10, chips_layout, "26 chipsets whose reported clusters have other sizes than the known configuration", 0) {
	const Chip& c = chips[mc::choose(NCHIPS, "chipset")];
	if (vd_android) mc::reject();
	Chip use = c;
	if (!chip_applies(c)) use.cores.clear();
	std::vector<uint32_t> lay;
	uint32_t n = 1 + mc::choose(3, "clusters");
	for (uint32_t i = 0; i < n; i++) lay.push_back(1 + mc::choose(4, "size"));
	uint32_t total = 0;
	for (uint32_t l : lay) total += l;
	if (&c == &chips[0] && total == 8 && !is64()) use = chips[1]; // MSM8916 with eight cores is MSM8939
	Machine m;
	m.hardware = c.hardware;
	uint32_t id = 0;
	uint32_t which = mc::choose(n + 2, "described cluster"); // n: none, n+1: only the last processor
	bool unlisted = mc::flag("others unlisted");
	for (uint32_t k = 0; k < n; k++)
		for (uint32_t i = 0; i < lay[k]; i++) {
			m.add(id++, c.midr[std::min<size_t>(k, c.midr.size() - 1)], (int)k, 1000000 + k * 1000);
			bool last = k == n - 1 && i == lay[k] - 1;
			if (!(which == k || (which == n + 1 && last))) {
				m.procs.back().known = 0;
				m.procs.back().listed = !unlisted;
			}
		}
	m.tail = "Serial\t: 0\n";
	run_identity(m, &use);
}
MC_FAMILY(P10, partial, "1-4 processors in up to 2 clusters, each with every subset of the identification fields: complete descriptions are never changed, clusters are uniform", 0) {
	Machine m;
	uint32_t n = 1 + mc::choose(mc::thorough() ? 4 : 3, "processors");
	uint32_t split = mc::choose(n + 1, "second cluster starts at");
	bool unlisted = false;
	for (uint32_t i = 0; i < n; i++) {
		m.add(i, i < split ? A53 : A57, i < split ? 0 : 1);
		m.procs.back().known = mc::choose(32, "fields");
	}
	(void)unlisted;
	m.tail = "Serial\t: 0\n";
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_hierarchy(m, D);
	int with_id = 0, last_id = -1;
	for (uint32_t i = 0; i < n; i++)
		if ((m.procs[i].known & (IMPL | PART)) == (IMPL | PART)) with_id++, last_id = (int)i;
	bool ambiguous = with_id == 1 && last_id == (int)n - 1 && split > 0 && split < n;
	for (uint32_t i = 0; i < n; i++) {
		int k = find(D, i);
		auto& core = D.core[D.proc[k].core];
		auto& cl = D.cluster[D.proc[k].cluster];
		MC_CHECK(core.id == cl.id && core.vendor == cl.vendor && core.uarch == cl.uarch, "uniform", "processor %u: core %08x differs from its cluster %08x", i, core.id, cl.id);
		if (!ambiguous && m.procs[i].known == ALL) MC_CHECK(core.id == m.procs[i].midr, "identity", "processor %u is reported as %08x, /proc/cpuinfo says %08x", i, core.id, m.procs[i].midr);
	}
}

// ---------------------------------------------------------------- P11

// role of a core type among the cores it is combined with: larger first
static int role(uint32_t midr) {
	uint32_t impl = midr >> 24, part = midr >> 4 & 0xFFF;
	auto in = [&](uint32_t i, std::initializer_list<uint32_t> l) {
		return impl == i && std::find(l.begin(), l.end(), part) != l.end();
	};
	if (in('A', {0xD44, 0xD48, 0xD4E}) || in('S', {3, 4})) return 6; // prime cores
	if (in('A', {0xD08, 0xD09, 0xD0A, 0xD0B, 0xD0D, 0xD0E, 0xD41, 0xD47, 0xD4D}) || in('H', {0xD40}) || in('N', {3}) || in('Q', {0x205, 0x800, 0x802, 0x804}) || in('S', {1, 2})) return 5; // big cores
	if (!is64() && in('A', {0xC0F, 0xC0E, 0xC0D, 0xC0C})) return 5;
	if (in('A', {0xD07})) return 4; // big with Cortex-A53, LITTLE with Denver 2
	if (in('A', {0xD03, 0xD05, 0xD46}) || (is64() && in('A', {0xD06}))) return 2; // LITTLE, but big with Cortex-A35
	if (in('A', {0xD04}) || in('Q', {0x805, 0x803, 0x801, 0x211, 0x201})) return 1; // LITTLE
	if (!is64() && in('A', {0xC07})) return 1;
	return 3; // others
}

static void check_uarchs(const Machine& m, const vdesc& d) {
	std::string g = venv::graph_errors(d);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	MC_CHECK(d.nproc == m.procs.size(), "count", "%u processors reported, %zu expected", d.nproc, m.procs.size());
	// order
	auto leader = ref_clusters(m);
	std::vector<uint32_t> freq(m.procs.size(), 0);
	for (size_t i = 0; i < m.procs.size(); i++)
		if (m.procs[i].fmax && !freq[leader[i]]) freq[leader[i]] = m.procs[i].fmax;
	auto index = [&](uint32_t id) {
		for (size_t i = 0; i < m.procs.size(); i++)
			if (m.procs[i].id == id) return (int)i;
		return -1;
	};
	for (uint32_t k = 1; k < d.nproc; k++) {
		auto &a = d.core[d.proc[k - 1].core], &b = d.core[d.proc[k].core];
		int ra = role(a.id), rb = role(b.id);
		MC_CHECK(ra >= rb, "role", "processor %u (%08x, role %d) is listed before processor %u (%08x, role %d)", k - 1, a.id, ra, k, b.id, rb);
		int ia = index(d.proc[k - 1].linux_id), ib = index(d.proc[k].linux_id);
		MC_CHECK(ia >= 0 && ib >= 0, "unknown", "unknown processor");
		if (ra == rb) MC_CHECK(freq[leader[ia]] >= freq[leader[ib]], "frequency", "processor %u with %u kHz is listed before processor %u with %u kHz", k - 1, freq[leader[ia]], k, freq[leader[ib]]);
	}
	// the list
	uint32_t pos = 0;
	for (uint32_t u = 0; u < d.nuarch; u++) {
		MC_CHECK(d.uarch[u].processor_count > 0 && d.uarch[u].core_count == d.uarch[u].processor_count, "counts", "microarchitecture %u has %u processors and %u cores", u, d.uarch[u].processor_count, d.uarch[u].core_count);
		for (uint32_t i = 0; i < d.uarch[u].processor_count; i++, pos++) {
			MC_CHECK(pos < d.nproc, "sum", "microarchitectures have more processors than there are");
			auto& c = d.core[d.proc[pos].core];
			MC_CHECK(c.uarch == d.uarch[u].uarch, "member", "processor %u has microarchitecture %#x, its entry says %#x", pos, c.uarch, d.uarch[u].uarch);
			env.getcpu_cpu = d.proc[pos].linux_id;
			uint32_t idx = vd_current_uarch_index();
			MC_CHECK(idx < d.nuarch && d.uarch[idx].uarch == c.uarch, "index", "on kernel processor %u the current microarchitecture index is %u of %u", d.proc[pos].linux_id, idx, d.nuarch);
			MC_CHECK(idx == u, "index", "on kernel processor %u the current microarchitecture index is %u, its entry is %u", d.proc[pos].linux_id, idx, u);
		}
		if (u > 0) MC_CHECK(d.uarch[u].uarch != d.uarch[u - 1].uarch, "distinct", "entries %u and %u of the microarchitecture list are the same", u - 1, u);
		bool id_ok = false;
		for (uint32_t c = 0; c < d.ncore; c++) id_ok = id_ok || (d.core[c].id == d.uarch[u].id && d.core[c].uarch == d.uarch[u].uarch);
		MC_CHECK(id_ok, "id", "entry %u of the microarchitecture list has identity %08x, which no such core has", u, d.uarch[u].id);
	}
	MC_CHECK(pos == d.nproc, "sum", "microarchitectures have %u processors of %u", pos, d.nproc);
}
static void run_uarchs(Machine& m) {
	mc::commit();
	venv::fresh();
	m.emit();
	run();
	check_uarchs(m, D);
}

MC_FAMILY(P11, pairs, "two clusters: every pair of all recognised part numbers and two unrecognised ones, equal, ascending and descending frequencies", 0) {
	const uint32_t np = sizeof(parts) / sizeof(*parts);
	uint32_t v[2];
	for (int i = 0; i < 2; i++) {
		uint32_t k = mc::choose(np + 2, "core type");
		v[i] = k >= np ? 0x41000000 | (k == np ? 0xFF0 : 0x120) << 4 : parts[k].impl << 24 | (parts[k].variant < 0 ? 1u : (uint32_t)parts[k].variant) << 20 | parts[k].part << 4;
		v[i] |= 0xF0001;
	}
	uint32_t f = mc::choose(3, "frequencies");
	bool second = mc::flag("two processors in the first cluster");
	Machine m;
	m.add(0, v[0], 0, f == 2 ? 2000000 : 1000000);
	if (second) m.add(1, v[0], 0, f == 2 ? 2000000 : 1000000);
	m.add(2, v[1], 1, f == 1 ? 2000000 : 1000000);
	run_uarchs(m);
}
static const uint32_t kinds[] = {A53, A55, A57, A76, A78, X1, 0x4E1F0030, 0x51DF805E, 0x410FD041, 0x41FFFFF0};
MC_FAMILY(P11, clusters3, "three clusters with every triple of 10 core types and of 3 frequencies including unknown, interleaved and contiguous processor numbers", 0) {
	Machine m;
	bool inter = mc::flag("interleaved");
	uint32_t t[3], f[3];
	for (int c = 0; c < 3; c++) t[c] = mc::pick(kinds, "core type"), f[c] = mc::choose(3, "frequency");
	for (uint32_t i = 0; i < 6; i++) {
		uint32_t c = inter ? i % 3 : i / 2;
		m.add(i, t[c], (int)c, f[c] * 1000000);
	}
	run_uarchs(m);
}
MC_FAMILY(P11, processors5, "five (thorough: six) single-processor clusters with every assignment of 6 core types, gapped processor numbers", 0) {
	Machine m;
	uint32_t n = mc::thorough() ? 6 : 5;
	for (uint32_t i = 0; i < n; i++) m.add(i * 2, kinds[mc::choose(6, "core type")], (int)i, 1000000 + 1000 * (i % 2));
	run_uarchs(m);
}
MC_FAMILY(P11, no_topology, "2-5 processors without topology information: every assignment of 4 core types and 2 frequencies", 0) {
	Machine m;
	uint32_t n = 2 + mc::choose(4, "processors");
	for (uint32_t i = 0; i < n; i++) m.add(i, kinds[mc::choose(4, "core type") * 2], -1, 1000000 + 500000 * mc::choose(2, "frequency"));
	run_uarchs(m);
}
