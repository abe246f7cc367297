// P18: kernel processor lists.
#include <set>
#include "arm_model.h"
#include "riscv_model.h"
#include "x86_model.h"
using venv::D;
using venv::env;
using venv::fmt;

typedef std::set<uint64_t> Set;
enum { HIGHEST = 4096 }; // no table of the explored machines is larger

// ---- reference ----
struct List {
	bool absent = false, ok = true;
	Set set, loose; // loose: what is left if malformed entries count as far as they can be understood
};
static bool white(char c) {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}
static bool digit(char c) {
	return c >= '0' && c <= '9';
}
static uint64_t number(const std::string& s, size_t& p) {
	uint64_t v = 0;
	for (; p < s.size() && digit(s[p]); p++) v = std::min<uint64_t>(v * 10 + (s[p] - '0'), 1ull << 40);
	return v;
}
static List parse(const std::string& text) {
	List l;
	if (text == "absent") {
		l.absent = true;
		return l;
	}
	size_t p = 0;
	while (true) {
		size_t q = text.find(',', p);
		std::string e = text.substr(p, q == std::string::npos ? q : q - p);
		while (!e.empty() && white(e.back())) e.pop_back();
		size_t b = 0;
		while (b < e.size() && white(e[b])) b++;
		e = e.substr(b);
		size_t k = 0;
		bool good = !e.empty() && digit(e[0]);
		if (good) {
			uint64_t first = number(e, k), last = first;
			bool half = false;
			if (k < e.size() && e[k] == '-' && k + 1 < e.size() && digit(e[k + 1])) {
				k++;
				last = number(e, k);
				half = true;
			}
			good = k == e.size() && last >= first;
			for (uint64_t i = first; i <= last && i < HIGHEST; i++) {
				if (good) l.set.insert(i);
				if (good || half || k < e.size()) l.loose.insert(i);
			}
		}
		l.ok &= good;
		if (q == std::string::npos) break;
		p = q + 1;
	}
	return l;
}
static uint64_t kernel_limit(const std::string& text) { // number of processors the kernel supports
	if (text == "absent" || text.size() >= 32) return 1024;
	size_t k = 0;
	if (text.empty() || !digit(text[0])) return 1024;
	return number(text, k) + 1;
}

static void emit(uint32_t n, const std::string& kernel_max, const std::string& possible, const std::string& present) {
	if (vd_arch <= 1) {
		x86::Machine m;
		m.core_bits = 12;
		for (uint32_t i = 0; i < n; i++) m.procs.push_back({i, i});
		m.emit();
	} else if (vd_arch <= 3) {
		arm::Machine m;
		for (uint32_t i = 0; i < n; i++) m.add(i, arm::A53);
		m.emit();
	} else {
		riscv::Machine m;
		for (uint32_t i = 0; i < n; i++) m.add(i, i, i, 0);
		m.emit();
	}
	auto put = [](const char* f, const std::string& s) {
		std::string p = std::string("/sys/devices/system/cpu/") + f;
		if (s == "absent") env.files.erase(p);
		else env.file(p, s);
	};
	put("kernel_max", kernel_max);
	put("possible", possible);
	put("present", present);
}
static std::string show(const Set& s) {
	std::string t = "{";
	for (auto x : s) t += fmt("%s%llu", t.size() > 1 ? "," : "", (unsigned long long)x);
	return t + "}";
}
// n: processors the machine could have, all of them listed in /proc/cpuinfo
static void run(uint32_t n, const std::string& kernel_max, const std::string& possible, const std::string& present) {
	mc::commit();
	venv::fresh();
	emit(n, kernel_max, possible, present);
	uint64_t limit = kernel_limit(kernel_max);
	List lists[2] = {parse(possible), parse(present)};
	bool riscv = vd_arch == 4;
	if (riscv) lists[0] = parse("absent");
	std::vector<Set> want;
	bool may_fail = false, must_fail = false;
	if (lists[1].absent && riscv) must_fail = true;
	if (lists[0].absent && lists[1].absent && !riscv && vd_arch > 1) must_fail = true;
	for (auto& l : lists) may_fail |= !l.absent && !l.ok;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			int how[2] = {i, j};
			Set r;
			for (uint64_t x = 0; x < std::min<uint64_t>(n, limit); x++) {
				bool in = true;
				for (int k = 0; k < 2; k++) {
					auto& l = lists[k];
					if (l.absent || (!l.ok && how[k] == 2)) continue;
					in &= (how[k] == 1 && !l.ok ? l.loose : l.set).count(x) != 0;
				}
				if (in) r.insert(x);
			}
			if (std::find(want.begin(), want.end(), r) == want.end()) want.push_back(r);
		}
	if (want.size() == 1 && want[0].empty()) must_fail = true;
	for (auto& w : want) may_fail |= w.empty();
	venv::Outcome o = venv::initialize();
	mc::count_validated();
	MC_CHECK(!o.aborted, "abort", "initialization aborted");
	if (must_fail) {
		MC_CHECK(!o.ok, "empty", "initialization succeeded although the lists denote no processor");
		return;
	}
	if (!o.ok) {
		MC_CHECK(may_fail, "failed", "initialization failed although the lists denote %s", show(want[0]).c_str());
		return;
	}
	mc::count_nontrivial();
	MC_CHECK(venv::dump(&D), "abort", "a query aborted after successful initialization");
	mc::state(venv::digest(D));
	std::string g = venv::graph_errors(D);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	Set got;
	for (uint32_t i = 0; i < D.nproc; i++) got.insert(D.proc[i].linux_id);
	for (auto& w : want)
		if (w == got) return;
	mc::fail("set", "processors %s reported, the lists denote %s%s", show(got).c_str(), show(want[0]).c_str(), want.size() > 1 ? " or part of it" : "");
}

static std::string string_over(const char* alphabet, uint32_t max) {
	uint32_t n = mc::choose(max + 1, "length");
	std::string s;
	for (uint32_t i = 0; i < n; i++) s += alphabet[mc::choose((uint32_t)strlen(alphabet), "character")];
	return s;
}
MC_FAMILY(P18, present_text, "every string of up to 5 (ARM64 6, thorough one more) characters of an alphabet of 8 as the list of present processors", 0) {
	std::string s = string_over("012,- \nx", 5 + (vd_arch == 2) + mc::thorough());
	run(12, "11\n", "0-11\n", s);
}
MC_FAMILY(P18, possible_text, "every string of up to 5 (thorough 6) characters of an alphabet of 8 as the list of possible processors, present list missing or complete", 0) {
	if (vd_arch == 4) mc::reject();
	std::string s = string_over("019,-\tx\n", 5 + mc::thorough());
	run(12, "11\n", s, mc::flag("present") ? "0-11\n" : "absent");
}
static const char* const entries[] = {"0", "1", "3", "0-2", "2-5", "3-3", "5-4", "", "x", "1x", "2-", "-2", "2-3x", " 4", "4 ", "\t6-7\r", "07", "7 8", "5 -6", "2--3", "1-2-3", "0x1", "11", "12", "11-12", "600", "4294967295", "4294967296", "4294967297-4294967300", "1-4294967295", "1-4294967296", "10-99999999999999999999"};
static std::string entry_list(uint32_t most) {
	uint32_t n = 1 + mc::choose(most, "entries");
	std::string s;
	for (uint32_t i = 0; i < n; i++) s += (i ? "," : "") + std::string(mc::pick(entries, "entry"));
	static const char* const ends[] = {"\n", "", ",\n", "\n\n", " \n"};
	return s + mc::pick(ends, "end");
}
MC_FAMILY(P18, present_entries, "every list of up to 3 (thorough 4) of 32 entries with 5 endings as the present list", 0) {
	std::string s = entry_list(mc::thorough() ? 4 : 3);
	run(12, "11\n", "0-11\n", s);
}
MC_FAMILY(P18, possible_entries, "every list of up to 2 (thorough 3) of 32 entries with 5 endings as the possible list", 0) {
	if (vd_arch == 4) mc::reject();
	std::string s = entry_list(mc::thorough() ? 3 : 2);
	run(12, "11\n", s, mc::flag("present") ? "0-11\n" : "absent");
}
MC_FAMILY(P18, limit, "27 contents of the kernel's maximum, numbers around it in both lists", 0) {
	static const char* const km[] = {"absent", "", "x\n", "\n", "0\n", "0", "1\n", "2\n", "3\n", "4\n", "5\n", "6\n", "7\n", "8\n", "9\n", "10\n", "11\n", "12\n", "7x\n", "7 8\n", "007\n", "1023\n", "1024\n", "2047\n", "65535\n", "4294967294\n", "00000000000000000000000000000000000007\n"};
	static const char* const ls[] = {"absent", "0\n", "0-1\n", "0-7\n", "0-11\n", "1,3,5,7,9,11\n", "0,2,4,6,8,10\n", "3-20\n", "7-8\n", "0-1023\n", "5,1024-2000\n", "12-20\n"};
	std::string k = mc::pick(km, "kernel_max"), a = mc::pick(ls, "possible"), b = mc::pick(ls, "present");
	// without any list the number of processors is the kernel's maximum
	if (a == "absent" && b == "absent" && k.size() > 5) mc::reject();
	List la = parse(a), lb = parse(b);
	for (uint64_t x = 12; x < std::min<uint64_t>(kernel_limit(k), HIGHEST); x++)
		if ((vd_arch == 4 || la.absent || la.set.count(x)) && lb.set.count(x)) mc::reject();
		else if (lb.absent && la.set.count(x) && vd_arch != 4) mc::reject();
	run(12, k, a, b);
}
MC_FAMILY(P18, long_lists, "lists of up to 250 entries of 4 kinds with up to 240 spaces before the first, the third, the middle or the last entry, so that every position of the text is at every place of the buffer", 0) {
	uint32_t kind = mc::choose(4, "kind"), pad = mc::choose(241, "padding"), where = mc::choose(4, "where"), list = mc::choose(vd_arch == 4 ? 1 : 2, "list");
	if (!mc::thorough() && vd_arch != 2 && pad % 8) mc::reject();
	std::vector<std::string> e;
	uint32_t n = 0;
	switch (kind) {
		case 0: for (uint32_t i = 0; i < 130; i += 2) e.push_back(fmt("%u", i)); n = 130; break;
		case 1: for (uint32_t i = 1; i < 120; i += 4) e.push_back(fmt("%u-%u", i, i + 2)); n = 121; break;
		case 2: for (uint32_t i = 0; i < 250; i++) e.push_back(fmt("%u", i % 40)); n = 48; break;
		case 3: for (uint32_t i = 0; i < 64; i += 2) e.push_back(fmt("%06u-%07u", i, i)); n = 64; break;
	}
	size_t at[] = {0, 2, e.size() / 2, e.size() - 1};
	std::string s;
	for (size_t i = 0; i < e.size(); i++) s += (i ? "," : "") + (i == at[where] ? std::string(pad, ' ') : std::string()) + e[i];
	s += "\n";
	std::string all = fmt("0-%u\n", n - 1);
	run(n, "2047\n", list ? s : all, list ? all : s);
}

// ---- lists of siblings ----
// processor 0 has the list as given, the others say the same in the plainest way
static void run_siblings(const std::string& text, uint32_t n, int which) {
	List l = parse(text);
	bool contains = l.set.count(0) != 0;
	mc::commit();
	venv::fresh();
	if (vd_arch == 4) {
		riscv::Machine m;
		for (uint32_t i = 0; i < n; i++) {
			int g = !l.set.count(i);
			// the levels above have everything, those below nothing in common
			m.add(i, which == 0 ? g : (int)i, which == 1 ? g : which > 1 ? (int)i : 0, which == 2 ? g : 0);
		}
		m.emit();
	} else {
		arm::Machine m;
		m.source = (arm::Source)which;
		m.kernel_max = 127;
		for (uint32_t i = 0; i < n; i++) m.add(i, arm::A53, !l.set.count(i));
		m.emit();
	}
	static const char* const names[2][3] = {{"core_siblings_list", "cluster_cpus_list", "cluster_cpus_list"}, {"core_cpus_list", "cluster_cpus_list", "package_cpus_list"}};
	env.file(std::string("/sys/devices/system/cpu/cpu0/topology/") + names[vd_arch == 4][which], text);
	venv::Outcome o = venv::initialize();
	mc::count_validated();
	MC_CHECK(!o.aborted, "abort", "initialization aborted");
	bool exact = l.ok && contains;
	if (!o.ok) {
		MC_CHECK(!exact, "failed", "initialization failed");
		return;
	}
	mc::count_nontrivial();
	MC_CHECK(venv::dump(&D), "abort", "a query aborted after successful initialization");
	mc::state(venv::digest(D));
	std::string g = venv::graph_errors(D);
	MC_CHECK(g.empty(), "graph", "%s", g.c_str());
	MC_CHECK(D.nproc == n, "siblings", "%u of %u processors reported", D.nproc, n);
	if (!exact) return;
	std::vector<int> at(n, -1);
	for (uint32_t i = 0; i < n; i++) {
		MC_CHECK(D.proc[i].linux_id < n && at[D.proc[i].linux_id] < 0, "siblings", "processor %u reported", D.proc[i].linux_id);
		auto& p = D.proc[i];
		at[p.linux_id] = vd_arch == 4 && which == 0 ? p.core : vd_arch == 4 && which == 2 ? p.package : p.cluster;
	}
	for (uint32_t i = 0; i < n; i++)
		for (uint32_t j = 0; j < i; j++)
			MC_CHECK((at[i] == at[j]) == (l.set.count(i) == l.set.count(j)), "siblings", "processors %u and %u should%s share their group", i, j, l.set.count(i) == l.set.count(j) ? "" : " not");
}
MC_FAMILY(P18, sibling_text, "every string of up to 5 (thorough 6) characters of an alphabet of 8 as the sibling list of one of 4 processors, for each kind of sibling list", 0) {
	if (vd_arch <= 1) mc::reject();
	int which = mc::choose(3, "kind");
	run_siblings(string_over("0123,- \n", 5 + mc::thorough()), 4, which);
}
MC_FAMILY(P18, sibling_entries, "every list of 0 and up to 2 (thorough 3) of 32 entries with 5 endings as sibling list of one of 12 processors, for each kind of sibling list", 0) {
	if (vd_arch <= 1) mc::reject();
	int which = mc::choose(3, "kind");
	std::string s = entry_list(mc::thorough() ? 3 : 2);
	run_siblings(mc::flag("leading") ? "0," + s : s, 12, which);
}
MC_FAMILY(P18, sibling_long, "sibling lists of up to 250 entries as in long_lists", 0) {
	if (vd_arch <= 1) mc::reject();
	int which = mc::choose(3, "kind");
	uint32_t kind = mc::choose(2, "entries"), pad = mc::choose(241, "padding");
	if (!mc::thorough() && pad % 4) mc::reject();
	std::string s;
	for (uint32_t i = 0; i < (kind ? 120u : 250u); i++) s += (i ? "," : "") + (i == 3 ? std::string(pad, ' ') : std::string()) + (kind ? fmt("%u-%u", i * 2 % 36, i * 2 % 36) : fmt("%u", i * 3 % 36));
	run_siblings(s + "\n", 36, which);
}
