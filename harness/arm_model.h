// Reference model of an ARM Linux machine: what the kernel says about it, and what the library must report for it.
#pragma once
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
#include "mc.h"
#include "venv.h"

namespace arm {

// fields of the main identification register which /proc/cpuinfo reports
enum { IMPL = 1, VAR = 2, PART = 4, REV = 8, ARCH = 16, ALL = 31 };
static const uint32_t field_mask[4] = {0xFF000000, 0x00F00000, 0x0000FFF0, 0x0000000F};

inline bool is64() {
	return vd_arch == 2;
}

struct Proc {
	uint32_t id;
	uint32_t midr = 0;
	unsigned known = 0; // fields present in its entry of /proc/cpuinfo
	bool listed = true; // has an entry in /proc/cpuinfo
	uint32_t fmax = 0, fmin = 0; // 0: unknown
	int group = -1; // processors with the same number are siblings; -1: no topology entries
	std::string extra; // further lines of its entry
	bool complete() const {
		return listed && known == ALL;
	}
};

inline std::string list_of(const std::vector<uint32_t>& v) {
	std::string s;
	for (size_t i = 0; i < v.size();) {
		size_t j = i;
		while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
		if (!s.empty()) s += ",";
		s += j > i ? venv::fmt("%u-%u", v[i], v[j]) : venv::fmt("%u", v[i]);
		i = j + 1;
	}
	return s + "\n";
}

enum Source { CORE_SIBLINGS, CLUSTER_CPUS, CLUSTER_AND_PACKAGE };

struct Machine {
	std::vector<Proc> procs; // ascending id
	Source source = CORE_SIBLINGS;
	std::string hardware, revision, preamble, tail;
	std::string possible, present; // "-" : the file does not exist, "": derived from procs
	uint32_t kernel_max = 31;
	uint32_t arch_version = 0; // 0: 8 or 7
	std::string features = "half thumb fastmult vfp edsp neon";

	Machine& add(uint32_t id, uint32_t midr, int group = -1, uint32_t fmax = 0) {
		Proc p;
		p.id = id;
		p.midr = midr;
		p.known = ALL;
		p.group = group;
		p.fmax = fmax;
		procs.push_back(p);
		return *this;
	}
	std::string entry(const Proc& p) const {
		std::string s = venv::fmt("processor\t: %u\n", p.id);
		uint32_t av = arch_version ? arch_version : is64() ? 8 : 7;
		if (p.known & ARCH) s += "Features\t: " + features + "\n";
		if (p.known & IMPL) s += venv::fmt("CPU implementer\t: 0x%02x\n", p.midr >> 24);
		if (p.known & ARCH) s += venv::fmt("CPU architecture: %u\n", av);
		if (p.known & VAR) s += venv::fmt("CPU variant\t: 0x%x\n", p.midr >> 20 & 15);
		if (p.known & PART) s += venv::fmt("CPU part\t: 0x%03x\n", p.midr >> 4 & 0xFFF);
		if (p.known & REV) s += venv::fmt("CPU revision\t: %u\n", p.midr & 15);
		return s + p.extra + "\n";
	}
	void emit() const {
		auto& e = venv::env;
		std::vector<uint32_t> ids;
		for (auto& p : procs) ids.push_back(p.id);
		e.file("/sys/devices/system/cpu/kernel_max", venv::fmt("%u\n", kernel_max));
		if (possible != "-") e.file("/sys/devices/system/cpu/possible", possible.empty() ? list_of(ids) : possible);
		if (present != "-") e.file("/sys/devices/system/cpu/present", present.empty() ? list_of(ids) : present);
		std::string pc = preamble;
		for (auto& p : procs)
			if (p.listed) pc += entry(p);
		if (!hardware.empty()) pc += "Hardware\t: " + hardware + "\n";
		if (!revision.empty()) pc += "Revision\t: " + revision + "\n";
		e.file("/proc/cpuinfo", pc + tail);
		for (auto& p : procs) {
			std::string d = venv::fmt("/sys/devices/system/cpu/cpu%u/", p.id);
			if (p.fmax) e.file(d + "cpufreq/cpuinfo_max_freq", venv::fmt("%u\n", p.fmax));
			if (p.fmin) e.file(d + "cpufreq/cpuinfo_min_freq", venv::fmt("%u\n", p.fmin));
			if (p.group < 0) continue;
			std::vector<uint32_t> sib, online;
			for (auto& q : procs) {
				if (q.group == p.group) sib.push_back(q.id);
				if (q.group >= 0) online.push_back(q.id);
			}
			e.file(d + "topology/physical_package_id", venv::fmt("%d\n", source == CLUSTER_AND_PACKAGE ? 0 : p.group));
			if (source == CORE_SIBLINGS) e.file(d + "topology/core_siblings_list", list_of(sib));
			if (source != CORE_SIBLINGS) e.file(d + "topology/cluster_cpus_list", list_of(sib));
			if (source == CLUSTER_AND_PACKAGE) e.file(d + "topology/core_siblings_list", list_of(online));
		}
	}
};

struct Facts {
	unsigned known = 0;
	uint32_t midr = 0, fmax = 0, fmin = 0;
	bool merge(const Proc& p) { // false: p contradicts what is known of the others
		if (p.fmax && fmax && p.fmax != fmax) return false;
		if (p.fmin && fmin && p.fmin != fmin) return false;
		for (int k = 0; k < 4; k++)
			if (p.listed && (p.known >> k & 1) && (known >> k & 1) && ((p.midr ^ midr) & field_mask[k])) return false;
		if (p.fmax) fmax = p.fmax;
		if (p.fmin) fmin = p.fmin;
		if (p.listed)
			for (int k = 0; k < 4; k++)
				if (p.known >> k & 1) known |= 1 << k, midr = (midr & ~field_mask[k]) | (p.midr & field_mask[k]);
		return true;
	}
};

// usual layouts of chips with that many processors
inline std::vector<uint32_t> usual_layout(size_t n) {
	switch (n) {
		case 10: return {4, 4, 2};
		case 8: return {4, 4};
		case 6: return {4, 2};
		case 5:
			if (!is64() && vd_android) return {4, 1};
			return {};
	}
	return {};
}

// index of the first processor of the cluster of each processor
inline std::vector<int> ref_clusters(const Machine& m) {
	int n = (int)m.procs.size();
	std::vector<int> leader(n, -1);
	bool all = true;
	for (int i = 0; i < n; i++) {
		if (m.procs[i].group < 0) {
			all = false;
			continue;
		}
		for (int j = 0; j <= i; j++)
			if (m.procs[j].group == m.procs[i].group) {
				leader[i] = j;
				break;
			}
	}
	if (all) return leader;
	std::vector<uint32_t> lay = usual_layout(n);
	if (!lay.empty()) {
		std::vector<int> l2(n);
		bool ok = true;
		int start = 0;
		for (uint32_t c : lay) {
			Facts f;
			for (int i = start; i < start + (int)c; i++) {
				l2[i] = start;
				if (leader[start] >= 0)
					ok = ok && leader[i] == start;
				else
					ok = ok && leader[i] < 0 && f.merge(m.procs[i]);
			}
			start += (int)c;
		}
		if (ok) return l2;
	}
	int cur = -1;
	Facts f;
	for (int i = 0; i < n; i++) {
		if (leader[i] >= 0) continue;
		if (cur < 0 || !f.merge(m.procs[i])) {
			cur = i;
			f = Facts();
			f.merge(m.procs[i]);
		}
		leader[i] = cur;
	}
	return leader;
}

inline int find(const vdesc& d, uint32_t linux_id) {
	for (uint32_t i = 0; i < d.nproc; i++)
		if (d.proc[i].linux_id == linux_id) return (int)i;
	return -1;
}

inline std::string check_ids(const vdesc& d) {
	for (uint32_t i = 0; i < d.nproc; i++)
		if (d.proc[i].smt_id != 0 || d.proc[i].core != (int)i) return venv::fmt("processor %u: thread %u of core %d", i, d.proc[i].smt_id, d.proc[i].core);
	for (uint32_t i = 0; i < d.ncore; i++)
		if (d.core[i].core_id != i || d.core[i].processor_count != 1) return venv::fmt("core %u: identifier %u, %u processors", i, d.core[i].core_id, d.core[i].processor_count);
	for (uint32_t i = 0; i < d.ncluster; i++)
		if (d.cluster[i].cluster_id != i) return venv::fmt("cluster %u: identifier %u", i, d.cluster[i].cluster_id);
	if (d.npackage != 1 || d.ncore != d.nproc) return venv::fmt("%u packages, %u cores, %u processors", d.npackage, d.ncore, d.nproc);
	return "";
}

inline void check_hierarchy(const Machine& m, const vdesc& d) {
	std::string g = venv::graph_errors(d);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	g = check_ids(d);
	MC_CHECK(g.empty(), "ids", "%s", g.c_str());
	MC_CHECK(d.nproc == m.procs.size(), "count", "%u processors reported, %zu expected", d.nproc, m.procs.size());
	auto leader = ref_clusters(m);
	std::vector<int> cl;
	for (auto& p : m.procs) {
		int k = find(d, p.id);
		MC_CHECK(k >= 0, "missing", "kernel processor %u is not reported", p.id);
		cl.push_back(d.proc[k].cluster);
	}
	for (size_t i = 0; i < cl.size(); i++)
		for (size_t j = 0; j < i; j++)
			MC_CHECK((cl[i] == cl[j]) == (leader[i] == leader[j]), "cluster", "kernel processors %u and %u are in clusters %d and %d, they should%s share one", m.procs[i].id, m.procs[j].id, cl[i], cl[j],
				leader[i] == leader[j] ? "" : " not");
}

inline void run() {
	venv::Outcome o = venv::initialize();
	MC_CHECK(!o.aborted, "abort", "initialization aborted");
	MC_CHECK(o.ok, "failed", "initialization failed");
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after successful initialization");
	mc::state(venv::digest(venv::D));
	mc::count_validated();
	mc::count_nontrivial();
}

static const uint32_t A53 = 0x410FD034, A57 = 0x411FD071, A72 = 0x410FD081, A73 = 0x410FD092, A75 = 0x413FD0A1, A55 = 0x412FD050, A76 = 0x414FD0B0, A78 = 0x411FD411, X1 = 0x411FD440, A7 = 0x410FC074, A15 = 0x412FC0F3;

} // namespace arm
