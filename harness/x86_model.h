// Reference model of an x86 machine: what CPUID and the kernel say about it, and what the library must report for it.
#pragma once
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
#include "mc.h"
#include "venv.h"

namespace x86 {

enum Vendor { INTEL, AMD, HYGON, VIA, NONAME };
enum Topo { X2APIC, INTEL_LEAF4, INTEL_HT_ONLY, AMD_NC, AMD_LEAF1, NO_TOPOLOGY };

struct Cache {
	int level, type; // type: 1 data 2 instruction 3 unified
	uint32_t ways, partitions, line, sets;
	uint32_t edx; // low bits as CPUID reports them: 2 inclusive, 4 complex indexing
	uint32_t sharing; // number of addressable IDs which share it
};
struct Proc {
	uint32_t linux_id, apic;
};

inline uint32_t log2ceil(uint32_t n) {
	uint32_t b = 0;
	while ((1ull << b) < n) b++;
	return b;
}

struct Machine {
	Vendor vendor = INTEL;
	uint32_t signature = 0x000906EA;
	uint32_t max_base = 0x16, max_ext = 0x80000008;
	Topo topo = X2APIC;
	uint32_t thread_bits = 0, core_bits = 0;
	bool caches_in_8000001d = false; // AMD topology extensions
	std::vector<Cache> caches;
	std::vector<Proc> procs; // in the order of /proc/cpuinfo
	uint32_t kernel_max = 31;
	std::string possible, present; // "-" : the file does not exist
	uint32_t leaf1_ecx = 0, leaf1_edx = 0, ext_ecx = 0, ext_edx = 0;
	uint32_t noise = 0; // irrelevant values for fields which other declarations make irrelevant
	std::string extra_cpuinfo;

	uint32_t width() const {
		return thread_bits + core_bits;
	}
	static std::string list_of(const std::vector<uint32_t>& v) {
		std::string s;
		for (size_t i = 0; i < v.size();) {
			size_t j = i;
			while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
			if (!s.empty()) s += ",";
			s += j > i ? venv::fmt("%u-%u", v[i], v[j]) : venv::fmt("%u", v[i]);
			i = j + 1;
		}
		return s + "\n";
	}
	static std::string entry(uint32_t id, uint32_t apic) {
		return venv::fmt("processor\t: %u\nvendor_id\t: GenuineIntel\ncpu family\t: 6\napicid\t\t: %u\ninitial apicid\t: %u\nfpu\t\t: yes\n\n", id, apic, apic ^ 1);
	}
	void emit() const {
		auto& e = venv::env;
		std::vector<uint32_t> ids;
		for (auto& p : procs) ids.push_back(p.linux_id);
		std::sort(ids.begin(), ids.end());
		e.file("/sys/devices/system/cpu/kernel_max", venv::fmt("%u\n", kernel_max));
		if (possible != "-") e.file("/sys/devices/system/cpu/possible", possible.empty() ? list_of(ids) : possible);
		if (present != "-") e.file("/sys/devices/system/cpu/present", present.empty() ? list_of(ids) : present);
		std::string pc;
		for (auto& p : procs) pc += entry(p.linux_id, p.apic);
		e.file("/proc/cpuinfo", pc + extra_cpuinfo);
		static const uint32_t vs[5][3] = {
			{0x756E6547, 0x6C65746E, 0x49656E69}, {0x68747541, 0x444D4163, 0x69746E65}, {0x6F677948, 0x656E6975, 0x6E65476E}, {0x746E6543, 0x736C7561, 0x48727561}, {0x41424344, 0x45464748, 0x494A4B4C}};
		e.leaf(0, 0, {max_base, vs[vendor][0], vs[vendor][1], vs[vendor][2]});
		e.leaf(0x80000000, 0, {max_ext, 0, 0, 0});
		uint32_t ebx1 = 0x00000800, ecx1 = leaf1_ecx, edx1 = leaf1_edx;
		uint32_t extc = ext_ecx, extd = ext_edx;
		uint32_t leaf4_cores = 1;
		uint32_t logical = 0;
		switch (topo) {
			case X2APIC:
				ecx1 |= 1u << 21;
				e.leaf(0xB, 0, {thread_bits, 1u << thread_bits, (1u << 8) | 0, noise * 7});
				e.leaf(0xB, 1, {width(), 1u << width(), (2u << 8) | 1, noise * 7});
				e.leaf(0xB, 2, {0, 0, 2, noise * 7});
				if (noise) edx1 |= 1u << 28, logical = noise, leaf4_cores = noise;
				break;
			case INTEL_LEAF4:
				edx1 |= 1u << 28;
				leaf4_cores = 1u << core_bits;
				logical = 1u << width();
				if (noise && core_bits > 0) leaf4_cores -= (1u << core_bits) / 4; // any count with the same width
				break;
			case INTEL_HT_ONLY:
				edx1 |= 1u << 28;
				logical = 1u << width();
				break;
			case AMD_NC:
				edx1 |= 1u << 28;
				extc |= 2;
				e.leaf(0x80000008, 0, {0x3030, 0, (1u << core_bits) - 1 - ((noise && core_bits) ? (1u << core_bits) / 4 : 0), 0});
				logical = noise;
				break;
			case AMD_LEAF1:
				edx1 |= 1u << 28;
				extc |= 2;
				logical = 1u << core_bits;
				break;
			case NO_TOPOLOGY:
				logical = noise;
				break;
		}
		uint32_t sub = 0;
		if (caches_in_8000001d) extc |= 1u << 22;
		for (auto& c : caches) {
			venv::Regs r;
			r.a = c.type | c.level << 5 | 1u << 8 | (c.sharing - 1) << 14 | (caches_in_8000001d ? 0 : (leaf4_cores - 1) << 26);
			r.b = (c.line - 1) | (c.partitions - 1) << 12 | (c.ways - 1) << 22;
			r.c = c.sets - 1;
			r.d = c.edx;
			e.leaf(caches_in_8000001d ? 0x8000001D : 4, sub++, r);
		}
		e.leaf(1, 0, {signature, ebx1 | logical << 16 | (noise & 0xFF) << 24, ecx1, edx1});
		e.leaf(0x80000001, 0, {0, 0, extc, extd});
	}
	// caches as reported: index 0 l1i 1 l1d 2 l2 3 l3 4 l4; later declarations replace earlier ones
	bool reported(int slot, Cache* out) const {
		bool have = false;
		for (auto& c : caches) {
			bool m = false;
			if (slot == 0) m = c.level == 1 && (c.type == 2 || c.type == 3);
			if (slot == 1) m = c.level == 1 && (c.type == 1 || c.type == 3);
			if (slot >= 2) m = c.level == slot && (c.type == 1 || c.type == 3) && !(slot == 4 && caches_in_8000001d);
			if (m) *out = c, have = true;
		}
		return have;
	}
};

inline std::string check_ids(const vdesc& d) {
	for (uint32_t i = 0; i < d.nproc; i++) {
		auto& p = d.proc[i];
		if (p.smt_id != i - d.core[p.core].processor_start) return venv::fmt("processor %u: index within its core is %u", i, p.smt_id);
	}
	for (uint32_t i = 0; i < d.ncore; i++)
		if (d.core[i].core_id != i - d.package[d.core[i].package].core_start) return venv::fmt("core %u: index within its package is %u", i, d.core[i].core_id);
	for (uint32_t i = 0; i < d.ncluster; i++)
		if (d.cluster[i].cluster_id != i - d.package[d.cluster[i].package].cluster_start) return venv::fmt("cluster %u: index within its package is %u", i, d.cluster[i].cluster_id);
	return "";
}

// index in d of a kernel processor, -1 if absent
inline int find(const vdesc& d, uint32_t linux_id) {
	for (uint32_t i = 0; i < d.nproc; i++)
		if (d.proc[i].linux_id == linux_id) return (int)i;
	return -1;
}

// Compares the description with the machine; procs must be exactly the expected processors.
inline void check_topology(const Machine& m, const vdesc& d) {
	std::string g = venv::graph_errors(d);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	g = check_ids(d);
	MC_CHECK(g.empty(), "ids", "%s", g.c_str());
	MC_CHECK(d.nproc == m.procs.size(), "count", "%u processors reported, %zu expected", d.nproc, m.procs.size());
	uint32_t tb = 0, cb = 0;
	switch (m.topo) {
		case X2APIC: case INTEL_LEAF4: tb = m.thread_bits; cb = m.core_bits; break;
		case INTEL_HT_ONLY: tb = m.width(); break;
		case AMD_NC: case AMD_LEAF1: cb = m.core_bits; break;
		case NO_TOPOLOGY: break;
	}
	uint32_t llc = 0;
	Cache c;
	for (int s = 4; s >= 1; s--)
		if (m.reported(s, &c)) {
			llc = log2ceil(c.sharing);
			break;
		}
	// threads of one core are never in different clusters
	uint32_t clb = std::min(std::max(llc, tb), tb + cb);
	size_t n = m.procs.size();
	int idx[64];
	for (size_t i = 0; i < n; i++) {
		int k = find(d, m.procs[i].linux_id);
		MC_CHECK(k >= 0, "missing", "kernel processor %u is not reported", m.procs[i].linux_id);
		MC_CHECK(d.proc[k].apic_id == m.procs[i].apic, "apic", "kernel processor %u reported with APIC ID %u, it has %u", m.procs[i].linux_id, d.proc[k].apic_id, m.procs[i].apic);
		if (i < 64) idx[i] = k;
	}
	for (size_t i = 0; i < n && i < 64; i++)
		for (size_t j = 0; j < i; j++) {
			uint32_t a = m.procs[i].apic, b = m.procs[j].apic;
			auto &p = d.proc[idx[i]], &q = d.proc[idx[j]];
			MC_CHECK((p.core == q.core) == (a >> tb == b >> tb), "core", "APIC IDs %u and %u with %u thread bits: cores %d and %d", a, b, tb, p.core, q.core);
			MC_CHECK((p.package == q.package) == (a >> (tb + cb) == b >> (tb + cb)), "package", "APIC IDs %u and %u with %u thread and %u core bits: packages %d and %d", a, b, tb, cb, p.package, q.package);
			MC_CHECK((p.cluster == q.cluster) == (a >> clb == b >> clb), "cluster", "APIC IDs %u and %u with %u cluster bits: clusters %d and %d", a, b, clb, p.cluster, q.cluster);
		}
}

static const char* const cache_name[5] = {"L1I", "L1D", "L2", "L3", "L4"};
inline void check_cache(int slot, bool have, const Cache& c, uint32_t size, uint32_t flags, uint32_t sharing_bits, const std::vector<Proc>& procs, const vdesc& d) {
	const char* nm = cache_name[slot];
	MC_CHECK((d.ncache[slot] != 0) == have, "presence", "%s: %u caches reported, CPUID declares %s", nm, d.ncache[slot], have ? "one" : "none");
	for (uint32_t i = 0; i < d.nproc; i++) MC_CHECK((d.proc[i].cache[slot] >= 0) == have, "pointer", "%s pointer of processor %u is %d", nm, i, d.proc[i].cache[slot]);
	if (!have) return;
	for (uint32_t i = 0; i < d.ncache[slot]; i++) {
		auto& r = d.cache[slot][i];
		MC_CHECK(r.associativity == c.ways && r.partitions == c.partitions && r.line_size == c.line && r.sets == c.sets, "geometry",
			"%s %u: reported %u ways %u partitions %u line %u sets, declared %u ways %u partitions %u line %u sets", nm, i, r.associativity, r.partitions, r.line_size, r.sets, c.ways, c.partitions, c.line, c.sets);
		MC_CHECK(r.size == size, "size", "%s %u: reported size %u, declared %u", nm, i, r.size, size);
		MC_CHECK(r.flags == flags, "flags", "%s %u: reported flags %#x, declared %#x", nm, i, r.flags, flags);
	}
	for (size_t i = 0; i < procs.size(); i++)
		for (size_t j = 0; j < i; j++) {
			int p = find(d, procs[i].linux_id), q = find(d, procs[j].linux_id);
			if (p < 0 || q < 0) mc::fail("missing", "processor missing");
			bool same = procs[i].apic >> sharing_bits == procs[j].apic >> sharing_bits;
			MC_CHECK((d.proc[p].cache[slot] == d.proc[q].cache[slot]) == same, "sharing", "%s: APIC IDs %u and %u with %u sharing bits use caches %d and %d", nm, procs[i].apic, procs[j].apic, sharing_bits, d.proc[p].cache[slot], d.proc[q].cache[slot]);
		}
}
inline void check_caches(const Machine& m, const vdesc& d) {
	std::string g = venv::graph_errors(d);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	uint32_t largest = 0;
	for (int s = 0; s < 5; s++) {
		Cache c = {};
		bool have = m.reported(s, &c);
		uint32_t flags = 0;
		if (have) {
			if (c.edx & 2) flags |= 2; // inclusive
			if ((c.edx & 4) && !m.caches_in_8000001d) flags |= 4; // complex indexing
			if (c.type == 3) flags |= 1;
			if (s >= 1) largest = c.ways * c.partitions * c.line * c.sets;
		}
		check_cache(s, have, c, c.ways * c.partitions * c.line * c.sets, flags, have ? log2ceil(c.sharing) : 0, m.procs, d);
	}
	MC_CHECK(d.max_cache_size == largest, "max", "maximum cache size is %u, the largest level has %u", d.max_cache_size, largest);
}

// Runs detection on the machine; the caller has made all its choices
inline void run(const Machine& m) {
	(void)m;
	venv::Outcome o = venv::initialize();
	MC_CHECK(!o.aborted, "abort", "initialization aborted");
	MC_CHECK(o.ok, "failed", "initialization failed");
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after successful initialization");
	mc::state(venv::digest(venv::D));
	mc::count_validated();
	mc::count_nontrivial();
}

} // namespace x86
