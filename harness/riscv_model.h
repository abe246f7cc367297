// Reference model of a RISC-V Linux machine.
#pragma once
#include <algorithm>
#include <string>
#include <vector>
#include "mc.h"
#include "venv.h"

namespace riscv {

struct Proc {
	uint32_t id = 0;
	int core = 0, cluster = 0, package = 0;
	int core_id = -1; // -1: no such file
	uint32_t freq = 0; // kHz, 0: no such file
	venv::HwProbe probe;
};

// how the kernel lists a set of processors
enum Style { RANGES, SINGLES, SPANS };
inline std::string list_of(const std::vector<uint32_t>& v, int style, const std::vector<uint32_t>& present) {
	auto is_present = [&](uint32_t x) { return std::find(present.begin(), present.end(), x) != present.end(); };
	std::string s;
	for (size_t i = 0; i < v.size();) {
		size_t j = i;
		while (style != SINGLES && j + 1 < v.size()) {
			// ranges may include numbers which no processor has
			uint32_t k = v[j] + 1;
			while (style == SPANS && k < v[j + 1] && !is_present(k)) k++;
			if (k != v[j + 1]) break;
			j++;
		}
		if (!s.empty()) s += ",";
		s += j > i ? venv::fmt("%u-%u", v[i], v[j]) : venv::fmt("%u", v[i]);
		i = j + 1;
	}
	return s + "\n";
}

struct Machine {
	std::vector<Proc> procs; // ascending id
	int style = RANGES;
	uint32_t kernel_max = 511;
	Machine& add(uint32_t id, int core, int cluster, int package) {
		Proc p;
		p.id = id;
		p.core = core;
		p.cluster = cluster;
		p.package = package;
		procs.push_back(p);
		return *this;
	}
	void emit() const {
		auto& e = venv::env;
		std::vector<uint32_t> ids;
		for (auto& p : procs) ids.push_back(p.id);
		e.file("/sys/devices/system/cpu/kernel_max", venv::fmt("%u\n", kernel_max));
		e.file("/sys/devices/system/cpu/possible", list_of(ids, style == SPANS ? RANGES : style, ids));
		e.file("/sys/devices/system/cpu/present", list_of(ids, style == SPANS ? RANGES : style, ids));
		for (auto& p : procs) {
			std::string d = venv::fmt("/sys/devices/system/cpu/cpu%u/", p.id);
			std::vector<uint32_t> co, cl, pk;
			for (auto& q : procs) {
				if (q.core == p.core) co.push_back(q.id);
				if (q.cluster == p.cluster) cl.push_back(q.id);
				if (q.package == p.package) pk.push_back(q.id);
			}
			e.file(d + "topology/core_cpus_list", list_of(co, style, ids));
			e.file(d + "topology/thread_siblings_list", list_of(co, style, ids));
			e.file(d + "topology/cluster_cpus_list", list_of(cl, style, ids));
			e.file(d + "topology/package_cpus_list", list_of(pk, style, ids));
			e.file(d + "topology/core_siblings_list", list_of(pk, style, ids));
			e.file(d + "topology/physical_package_id", venv::fmt("%d\n", p.package));
			if (p.core_id >= 0) e.file(d + "topology/core_id", venv::fmt("%d\n", p.core_id));
			if (p.freq) e.file(d + "cpufreq/cpuinfo_cur_freq", venv::fmt("%u\n", p.freq));
			e.hwprobe[p.id] = p.probe;
		}
	}
};

inline int find(const vdesc& d, uint32_t id) {
	for (uint32_t i = 0; i < d.nproc; i++)
		if (d.proc[i].linux_id == id) return (int)i;
	return -1;
}

inline void run() {
	venv::Outcome o = venv::initialize();
	MC_CHECK(!o.aborted, "abort", "initialization aborted");
	MC_CHECK(o.ok, "failed", "initialization failed");
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted after successful initialization");
	mc::state(venv::digest(venv::D));
	mc::count_validated();
	mc::count_nontrivial();
}

inline void check_uarchs(const vdesc& d) {
	uint32_t np = 0, nc = 0;
	for (uint32_t u = 0; u < d.nuarch; u++) {
		uint32_t p = 0, c = 0;
		for (uint32_t i = 0; i < d.nproc; i++) p += d.core[d.proc[i].core].uarch == d.uarch[u].uarch;
		for (uint32_t i = 0; i < d.ncore; i++) c += d.core[i].uarch == d.uarch[u].uarch;
		MC_CHECK(p == d.uarch[u].processor_count && c == d.uarch[u].core_count && p, "uarchs", "microarchitecture entry %u has %u processors in %u cores, its counts are %u and %u", u, p, c,
			d.uarch[u].processor_count, d.uarch[u].core_count);
		np += p;
		nc += c;
	}
	MC_CHECK(np == d.nproc && nc == d.ncore, "uarchs", "microarchitecture entries cover %u of %u processors and %u of %u cores", np, d.nproc, nc, d.ncore);
	for (uint32_t i = 0; i < d.ncore; i++) {
		auto& cl = d.cluster[d.core[i].cluster];
		MC_CHECK(cl.uarch == d.core[i].uarch && cl.vendor == d.core[i].vendor, "cluster uarch", "cluster %d and its core %u disagree about vendor or microarchitecture", d.core[i].cluster, i);
	}
}

inline void check_hierarchy(const Machine& m, const vdesc& d) {
	std::string g = venv::graph_errors(d);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	MC_CHECK(d.nproc == m.procs.size(), "count", "%u processors reported, %zu expected", d.nproc, m.procs.size());
	std::vector<const vd_processor*> r;
	for (auto& p : m.procs) {
		int k = find(d, p.id);
		MC_CHECK(k >= 0, "missing", "kernel processor %u is not reported", p.id);
		r.push_back(&d.proc[k]);
		if (p.core_id >= 0) MC_CHECK(d.core[r.back()->core].core_id == (uint32_t)p.core_id, "core id", "core of kernel processor %u has number %u, the kernel says %d", p.id, d.core[r.back()->core].core_id, p.core_id);
	}
	for (size_t i = 0; i < r.size(); i++)
		for (size_t j = 0; j < i; j++) {
			auto &a = m.procs[i], &b = m.procs[j];
			MC_CHECK((r[i]->core == r[j]->core) == (a.core == b.core), "core", "kernel processors %u and %u should%s share a core", a.id, b.id, a.core == b.core ? "" : " not");
			MC_CHECK((r[i]->cluster == r[j]->cluster) == (a.cluster == b.cluster), "cluster", "kernel processors %u and %u should%s share a cluster", a.id, b.id, a.cluster == b.cluster ? "" : " not");
			MC_CHECK((r[i]->package == r[j]->package) == (a.package == b.package), "package", "kernel processors %u and %u should%s share a package", a.id, b.id, a.package == b.package ? "" : " not");
			if (a.package == b.package && a.cluster != b.cluster)
				MC_CHECK(d.cluster[r[i]->cluster].cluster_id != d.cluster[r[j]->cluster].cluster_id, "cluster id", "two clusters of one package have the same number");
		}
	check_uarchs(d);
}

} // namespace riscv
