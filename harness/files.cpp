// P20: malformed system files. P21: which processor a fact of /proc/cpuinfo belongs to.
#include <map>
#include <set>
#include "machines.h"

using venv::env;

static std::set<uint32_t> processor_set(const vdesc& d) {
	std::set<uint32_t> s;
	for (uint32_t i = 0; i < d.nproc; i++) s.insert(d.proc[i].linux_id);
	return s;
}
struct Base {
	vdesc d;
	std::vector<std::string> files; // those which are opened
	std::map<std::string, std::string> content;
};
static const Base& base(int k) {
	static std::map<int, Base*> memo;
	auto& b = memo[k];
	if (!b) {
		mc::Probe probe;
		b = new Base();
		venv::fresh();
		machines::emit(k);
		env.keep_opened = true;
		auto o = venv::initialize();
		MC_CHECK(o.ok, "baseline", "machine %d: initialization fails", k);
		MC_CHECK(venv::dump(&b->d), "baseline", "machine %d: a query aborted", k);
		std::set<std::string> opened(env.opened.begin(), env.opened.end());
		for (auto& f : opened)
			if (env.files.count(f)) b->files.push_back(f), b->content[f] = env.files[f];
	}
	return *b;
}
// fails or gives a consistent description
static bool check_safe(const char* what) {
	auto o = venv::initialize();
	MC_CHECK(!o.aborted, "abort", "initialization aborted, %s", what);
	mc::count_nontrivial();
	mc::count_validated();
	if (!o.ok) {
		mc::state(1);
		return false;
	}
	MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted, %s", what);
	std::string g = venv::graph_errors(venv::D);
	MC_CHECK(g.empty(), "inconsistent", "inconsistent description (%s), %s", g.c_str(), what);
	for (uint32_t i = 0; i < venv::D.nproc; i++) {
		env.getcpu_cpu = venv::D.proc[i].linux_id;
		static int32_t p;
		venv::guarded([](void*) { p = vd_current_processor(); }, nullptr);
		MC_CHECK(p == (int32_t)i, "inconsistent", "the current-processor query on kernel number %u answers %d, not %u, %s", env.getcpu_cpu, p, i, what);
	}
	MC_CHECK(venv::open_files() == 0, "open file", "files are left open, %s", what);
	mc::state(venv::digest(venv::D));
	return true;
}
// the same once more with other contents of uninitialized memory
static bool check_twice(const char* what) {
	static vdesc first;
	bool ok = check_safe(what);
	if (ok) first = venv::D;
	for (uint8_t fill : {(uint8_t)'1', (uint8_t)0xFF}) {
		if (fill == 0xFF && !mc::thorough()) continue;
		venv::reset_library();
		env.fill = fill;
		bool again = check_safe(what);
		MC_CHECK(ok == again, "uninitialized", "initialization %s or %s depending on uninitialized memory, %s", ok ? "succeeds" : "fails", again ? "succeeds" : "fails", what);
		std::string df = ok ? venv::diff(first, venv::D) : "";
		MC_CHECK(df.empty(), "uninitialized", "the description depends on uninitialized memory (%s), %s", df.c_str(), what);
	}
	return ok;
}
static void check_same(const vdesc& d, const char* what) {
	MC_CHECK(check_safe(what), "fails", "initialization fails, %s", what);
	std::string df = venv::diff(d, venv::D);
	MC_CHECK(df.empty(), "differs", "another description (%s), %s", df.c_str(), what);
}

// ------------------------------------------------------------------------------------------------------------- P20

static const int EDITS = 24;
static void edit(std::string& c, size_t at, uint32_t how) {
	static const char by[] = {0, '\n', ' ', '\t', ':', ',', '-', '0', '9', 'x', 'Z', '\r', (char)0x80, (char)0xFF};
	switch (how) {
		case 0: c.erase(at, 1); break;
		case 1: c.insert(at, 1, c[at]); break;
		case 2: c.resize(at); break;
		case 3: c.erase(0, at + 1); break;
		case 4: c.insert(at, 300, '9'); break;
		case 5: c.insert(at, 1100, '7'); break;
		case 6: c.insert(at, 2100, 'x'); break;
		case 7: c.insert(at, 5000, ' '); break;
		case 8: c.insert(at, "\n"); break;
		case 9: c.insert(at, "4294967296"); break;
		default: c[at] = by[how - 10]; break;
	}
}
static void edits(int machines_used) {
	int k = mc::choose(machines_used, "machine");
	auto& b = base(k);
	auto& f = b.files[mc::choose((uint32_t)b.files.size(), "file")];
	const std::string& c = b.content.at(f);
	if (c.empty()) mc::reject();
	uint32_t at = mc::choose((uint32_t)c.size(), "position"), how = mc::choose(EDITS, "edit");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	edit(env.files[f], at, how);
	mc::describe("machine %d, edit %u at %u of %s", k, how, at, f.c_str());
	bool ok = check_twice("after an edit of a system file");
	if (f.find("/cpufreq/") != std::string::npos || (vd_arch <= 3 && f.find("/topology/") != std::string::npos)) {
		MC_CHECK(ok, "optional", "initialization fails after an edit of %s", f.c_str());
		MC_CHECK(processor_set(venv::D) == processor_set(b.d), "optional", "other processors after an edit of %s", f.c_str());
	}
}
MC_FAMILY(P20, edits, "every machine, every file, every byte: 24 edits (deletion, duplication, truncation at both ends, 14 replacements, insertion of overlong and structural text)", 0) {
	edits(machines::basic());
}
MC_FAMILY(P20, edit_pairs, "two machines, every file: every pair of adjacent or nearby (distance up to 8) edits of six kinds", 0) {
	int k = mc::choose(std::min(2, machines::basic()), "machine");
	auto& b = base(k);
	auto& f = b.files[mc::choose((uint32_t)b.files.size(), "file")];
	const std::string& c = b.content.at(f);
	static const uint32_t kinds[] = {0, 1, 8, 14, 10, 17};
	if (c.size() < 2) mc::reject();
	uint32_t at = mc::choose((uint32_t)c.size() - 1, "position"), d = 1 + mc::choose((uint32_t)std::min<size_t>(8, c.size() - 1 - at), "distance");
	uint32_t h1 = mc::pick(kinds, "edit"), h2 = mc::pick(kinds, "edit");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	edit(env.files[f], at + d, h2);
	edit(env.files[f], at, h1);
	check_twice("after two edits of a system file");
}
// sequences of lines
static const char* const x86_lines[] = {"processor\t: 0", "processor : 1", "processor\t: 3", "processor : 99", "processor :", "processor : x", "apicid\t\t: 3", "apicid : 1", "apicid : -1", "apicid\t: 4294967295", ": 5", "garbage", "apicid : 99999999999", "processor : 4294967296", "\r"};
static const char* const arm_lines[] = {"processor\t: 0", "processor : 1", "processor\t: 3", "processor : 99", "processor :", "CPU part\t: 0xd03", "CPU part : 0xd0z", "CPU implementer\t: 0x41", "CPU variant : 0x1", "CPU revision\t: 4", "CPU architecture: 8", "CPU revision : 77", "Features\t: neon  vfpv4", "Features : ", "Hardware\t: Exynos", ": 5", "I size : 0", "D line length : 7", "Revision : 99999999999999"};
static void line_sequences(uint32_t depth) {
	if (vd_arch == 4) mc::reject();
	std::string c;
	uint32_t n = mc::choose(depth + 1, "lines");
	bool last = mc::flag("final newline");
	for (uint32_t i = 0; i < n; i++) {
		if (i) c += "\n";
		c += vd_arch <= 1 ? mc::pick(x86_lines, "line") : mc::pick(arm_lines, "line");
	}
	if (last) c += "\n";
	static const char* const list[] = {"0-3\n", "0,2\n"};
	std::string p = mc::pick(list, "present");
	mc::commit();
	venv::fresh();
	machines::emit(0);
	env.files["/proc/cpuinfo"] = c;
	env.files["/sys/devices/system/cpu/present"] = p;
	check_twice("with an arbitrary sequence of lines");
}
MC_FAMILY(P20, line_sequences, "/proc/cpuinfo: every sequence of at most 4 of 15 (x86) or 19 (ARM) well-formed and malformed lines", 0) {
	line_sequences(4);
}
MC_FAMILY(P20, line_sequences5, "/proc/cpuinfo: every sequence of at most 5 of 15 (x86) or 19 (ARM) well-formed and malformed lines", 1) {
	line_sequences(5);
}
// bytes of a short /proc/cpuinfo
static void byte_sequences(uint32_t depth) {
	if (vd_arch == 4) mc::reject();
	static const char sig[] = {'\n', ' ', '\t', ':', '1', 'x', 0};
	static const char* const start[] = {"processor", "apicid", "Features : a", "CPU part : 0x", "Hardware", "CPU implementer", "Revision:", "I size : 1", "processor : 1\nprocessor", ""};
	std::string c = mc::pick(start, "start");
	uint32_t n = mc::choose(depth + 1, "bytes");
	for (uint32_t i = 0; i < n; i++) c += mc::pick(sig, "byte");
	mc::commit();
	venv::fresh();
	machines::emit(0);
	env.files["/proc/cpuinfo"] = c;
	check_twice("with arbitrary bytes");
}
MC_FAMILY(P20, byte_sequences, "/proc/cpuinfo: ten beginnings followed by every string of at most 5 of 7 structural bytes", 0) {
	byte_sequences(5);
}
MC_FAMILY(P20, byte_sequences7, "/proc/cpuinfo: ten beginnings followed by every string of at most 7 of 7 structural bytes", 1) {
	byte_sequences(7);
}
// lines which carry no usable information may be of any length and at any place
static std::vector<size_t> line_starts(const std::string& c) {
	std::vector<size_t> v{0};
	for (size_t i = 0; i < c.size(); i++)
		if (c[i] == '\n') v.push_back(i + 1);
	return v;
}
static std::string useless_line(uint32_t kind, size_t length) {
	static const char* const head[] = {"flags\t\t: ", "no separator ", ": ", "   : ", "key :", "processors : 1", "CPU partition : 0xd03", "xprocessor : 2", "apicids\t: 9"};
	std::string s = head[kind];
	char fill = kind == 4 ? ' ' : 'a';
	if (s.size() < length) s.append(length - s.size(), fill);
	return s;
}
static const int USELESS = 9;
static void overlong(bool all_lengths) {
	if (vd_arch == 4) mc::reject();
	int k = mc::choose(all_lengths ? machines::basic() : 2, "machine");
	auto& b = base(k);
	const std::string& c = b.content.at("/proc/cpuinfo");
	auto starts = line_starts(c);
	uint32_t buffer = vd_arch <= 1 ? 2048 : 1024;
	uint32_t at = mc::choose((uint32_t)starts.size(), "line");
	uint32_t kind = mc::choose(USELESS, "kind");
	static const int around[] = {-64, -3, -2, -1, 0, 1, 2, 3, 40};
	uint32_t length;
	if (mc::flag("long")) {
		uint32_t mult = 1 + mc::choose(4, "buffers");
		length = mult * buffer + mc::pick(around, "offset");
	} else {
		length = mc::pick({0u, 1u, 70u, 300u, 900u}, "length");
	}
	uint32_t chunk = mc::pick({0u, 100u, 1000u}, "read size");
	if (!all_lengths && chunk == 100) mc::reject();
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.files["/proc/cpuinfo"] = c.substr(0, starts[at]) + useless_line(kind, length) + "\n" + c.substr(starts[at]);
	env.chunk = chunk;
	mc::describe("machine %d, useless line of kind %u and length %u before line %u", k, kind, length, at);
	check_same(b.d, "with a useless line");
}
MC_FAMILY(P20, useless_lines, "two machines: nine kinds of lines without usable information, 41 lengths around multiples of the line buffer, before every line and at the end; two read sizes", 0) {
	overlong(false);
}
MC_FAMILY(P20, useless_lines_all, "every machine: nine kinds of lines without usable information, 41 lengths around multiples of the line buffer, before every line and at the end; three read sizes", 1) {
	overlong(true);
}
// an overlong line loses what it says itself, nothing else
MC_FAMILY(P20, overlong_lines, "every machine, every line of /proc/cpuinfo padded with blanks in front of or behind its value to lengths around multiples of the buffer: as if the line was missing or as if it was not padded", 0) {
	if (vd_arch == 4) mc::reject();
	int k = mc::choose(machines::basic(), "machine");
	auto& b = base(k);
	const std::string& c = b.content.at("/proc/cpuinfo");
	auto starts = line_starts(c);
	uint32_t at = mc::choose((uint32_t)starts.size() - 1, "line");
	bool front = mc::flag("in front");
	uint32_t buffer = vd_arch <= 1 ? 2048 : 1024;
	static const int around[] = {-2, -1, 0, 1, 2, 33};
	uint32_t length = (1 + mc::choose(3, "buffers")) * buffer + mc::pick(around, "offset");
	mc::commit();
	std::string line = c.substr(starts[at], starts[at + 1] - 1 - starts[at]), before = c.substr(0, starts[at]), after = c.substr(starts[at + 1]);
	size_t colon = line.find(':');
	if (line.empty() || colon == std::string::npos || line.compare(0, 9, "processor") == 0) mc::reject();
	auto run = [&](const std::string& text) {
		venv::fresh();
		machines::emit(k);
		env.files["/proc/cpuinfo"] = text;
		check_safe("with a line which is too long");
	};
	static vdesc without;
	run(before + after);
	without = venv::D;
	std::string padded = line;
	padded.insert(front ? colon + 1 : line.size(), length - line.size(), ' ');
	run(before + padded + "\n" + after);
	std::string d1 = venv::diff(without, venv::D), d2 = venv::diff(b.d, venv::D);
	MC_CHECK(d1.empty() || d2.empty(), "overlong", "a line of %u bytes changes more than its own information: %s (without the line), %s (with it)", length, d1.c_str(), d2.c_str());
}
// numbers in small files
static void small_files(uint32_t depth) {
	int k = mc::choose(machines::basic(), "machine");
	auto& b = base(k);
	std::vector<std::string> names;
	for (auto& f : b.files)
		if (f.find("kernel_max") != std::string::npos || (f.find("/cpu0/") != std::string::npos || f.find("/cpu2/") != std::string::npos) && f.find("_list") == std::string::npos) names.push_back(f);
	auto& f = names[mc::choose((uint32_t)names.size(), "file")];
	static const char sig[] = {'0', '1', '9', '\n', ' ', '-', 'x', 0};
	static const char* const whole[] = {"4294967295", "4294967296", "4294967294", "18446744073709551616", "99999999999999999999999999999", "2147483648", "2147483647", "65535", "1023", "1024", "0000000000000000000000000000001", "00000000000000000000000000000001", "000000000000000000000000000000001", "0x10", "1e9"};
	std::string c;
	if (mc::flag("number")) {
		c = mc::pick(whole, "text");
		if (mc::flag("newline")) c += "\n";
	} else {
		uint32_t n = mc::choose(depth + 1, "bytes");
		for (uint32_t i = 0; i < n; i++) c += mc::pick(sig, "byte");
	}
	mc::commit();
	venv::fresh();
	machines::emit(k);
	env.files[f] = c;
	bool ok = check_twice("with arbitrary text in a file for one number");
	// all numbers are optional; a kernel limit restricts the processors
	auto want = processor_set(b.d);
	if (f.find("kernel_max") != std::string::npos) {
		size_t i = 0;
		unsigned long long v = 0;
		while (i < c.size() && c[i] >= '0' && c[i] <= '9') v = std::min(v * 10 + (c[i++] - '0'), 1000000000000ull);
		if (i != 0 && c.size() < 32)
			for (auto it = want.begin(); it != want.end();) it = *it > v ? want.erase(it) : std::next(it);
		// topology lists which name processors beyond the limit are another matter
		if (want.size() != processor_set(b.d).size() && vd_arch == 4) return;
		if (want.empty()) return;
	}
	MC_CHECK(ok, "optional", "initialization fails with \"%s\" in %s", c.c_str(), f.c_str());
	MC_CHECK(processor_set(venv::D) == want, "optional", "%u processors instead of %zu with \"%s\" in %s", venv::D.nproc, want.size(), c.c_str(), f.c_str());
}
MC_FAMILY(P20, small_files, "every machine, every file which holds one number: every text of at most 4 of 8 bytes, and 15 large, long and prefixed numbers", 0) {
	small_files(4);
}
MC_FAMILY(P20, small_files6, "every machine, every file which holds one number: every text of at most 6 of 8 bytes, and 15 large, long and prefixed numbers", 1) {
	small_files(6);
}
// identification registers with arbitrary contents
static void registers(int machine_count) {
	if (vd_arch > 1) mc::reject();
	int k = mc::choose(machine_count, "machine");
	static std::map<int, std::vector<uint64_t>> leaves;
	if (!leaves.count(k)) {
		mc::Probe probe;
		venv::fresh();
		machines::emit(k);
		for (auto& l : env.cpuid) leaves[k].push_back(l.first);
	}
	uint64_t leaf = leaves[k][mc::choose((uint32_t)leaves[k].size(), "leaf")];
	int reg = mc::choose(4, "register");
	uint32_t how = mc::choose(32 + 2 + 4 + 4, "change");
	int reg2 = mc::choose(5, "second register");
	uint32_t how2 = reg2 == 4 ? 0 : mc::choose(4, "second change");
	mc::commit();
	venv::fresh();
	machines::emit(k);
	uint32_t* r = &env.cpuid[leaf].a;
	auto set = [](uint32_t& v, uint32_t h) {
		if (h < 32) v ^= 1u << h;
		else if (h == 32) v = 0;
		else if (h == 33) v = 0xFFFFFFFF;
		else if (h < 38) v |= 0xFFu << (8 * (h - 34));
		else v &= ~(0xFFu << (8 * (h - 38)));
	};
	set(r[reg], how);
	if (reg2 != 4) set(r[reg2], how2 == 0 ? 32 : how2 == 1 ? 33 : how2 == 2 ? 36 : 31);
	mc::describe("machine %d, leaf %llx register %d change %u", k, (unsigned long long)leaf, reg, how);
	check_safe("with arbitrary identification registers");
}
MC_FAMILY(P20, registers, "x86: every machine, every CPUID leaf and register: every bit flipped, all zeros, all ones, every byte set or cleared; combined with four values of each other register", 0) {
	registers(machines::basic());
}

// ------------------------------------------------------------------------------------------------------------- P21

namespace attribution {

struct Facts {
	uint32_t id;
	std::vector<std::string> lines; // without the number
};
// style: how keys and values are separated
static std::string styled(const std::string& line, int style) {
	static const char* const sep[] = {"\t: ", ":", " : ", "\t\t:   ", "   \t :"};
	size_t c = line.find('|');
	if (c == std::string::npos) return line + "\n";
	return line.substr(0, c) + sep[style] + line.substr(c + 1) + (style == 3 ? "  " : "") + "\n";
}
struct Layout {
	std::vector<Facts> entries; // of the machine
	std::vector<std::string> system; // system-wide lines
};
static void emit_machine(Layout& l, const std::string& present, bool caches) {
	if (vd_arch <= 1) {
		x86::Machine m;
		m.core_bits = 2;
		m.thread_bits = 1;
		m.caches = {{1, 1, 8, 1, 64, 64, 0, 2}, {2, 3, 4, 1, 64, 1024, 0, 2}};
		m.procs = {{0, 0}, {1, 3}, {2, 9}};
		m.present = m.possible = present;
		m.emit();
		l.entries.clear();
		for (auto& p : m.procs) l.entries.push_back({p.linux_id, {"vendor_id|GenuineIntel", venv::fmt("apicid|%u", p.apic), venv::fmt("initial apicid|%u", p.apic + 100), "core id|77", "siblings|5"}});
		l.system = {"bugs|none"};
	} else {
		static const uint32_t id[] = {0x410FD034, 0x411FD073, 0x410FD082};
		arm::Machine m;
		m.kernel_max = 31;
		m.present = m.possible = present;
		for (uint32_t i = 0; i < 3; i++) m.add(i, id[i], (int)i, 1000000 + 100000 * i);
		m.emit();
		l.entries.clear();
		static const char* const feat[] = {"half thumb fastmult vfp edsp neon vfpv3", "half thumb fastmult vfp edsp neon vfpv3 idiva idivt", "half thumb fastmult vfp edsp neon vfpv4 idiva"};
		for (uint32_t i = 0; i < 3; i++) {
			Facts f{i, {}};
			f.lines.push_back(std::string("Features|") + feat[i]);
			f.lines.push_back(venv::fmt("CPU implementer|0x%02x", id[i] >> 24));
			f.lines.push_back(venv::fmt("CPU architecture|%u", arm::is64() ? 8 : 7));
			f.lines.push_back(venv::fmt("CPU variant|0x%x", id[i] >> 20 & 15));
			f.lines.push_back(venv::fmt("CPU part|0x%03x", id[i] >> 4 & 0xFFF));
			f.lines.push_back(venv::fmt("CPU revision|%u", id[i] & 15));
			if (caches && vd_arch == 3)
				for (const char* t : {"I size|%u", "I assoc|%u", "I line length|%u", "I sets|%u", "D size|%u", "D assoc|%u", "D line length|%u", "D sets|%u"})
					f.lines.push_back(venv::fmt(t, strstr(t, "size") ? 16384u << i : strstr(t, "assoc") ? 4u : strstr(t, "line") ? 32u : 128u << i));
			l.entries.push_back(f);
		}
		l.system = {"Hardware|Qualcomm Technologies, Inc MSM8998", "Revision|0010"};
		if (vd_android && vd_arch == 3) env.have_getauxval = false; // the features count
	}
}
static std::string block(const Facts& f, int style, const std::string& blank = "\n") {
	std::string s = styled(venv::fmt("processor|%u", f.id), style);
	for (auto& x : f.lines) s += styled(x, style);
	return s + blank;
}
static const vdesc& canonical(const std::string& present = "0-2\n", bool caches = false) {
	static std::map<std::string, vdesc*> memo;
	auto& d = memo[present + (caches ? "c" : "")];
	if (!d) {
		mc::Probe probe;
		d = new vdesc();
		venv::fresh();
		Layout l;
		emit_machine(l, present, caches);
		std::string s;
		for (auto& e : l.entries) s += block(e, 0);
		for (auto& x : l.system) s += styled(x, 0);
		env.files["/proc/cpuinfo"] = s;
		auto o = venv::initialize();
		MC_CHECK(o.ok && venv::dump(d), "baseline", "initialization fails");
		// the facts do arrive
		if (vd_arch <= 1) {
			for (uint32_t i = 0; i < d->nproc; i++) {
				static const uint32_t apic[] = {0, 3, 9};
				MC_CHECK(d->proc[i].linux_id > 2 || d->proc[i].apic_id == apic[d->proc[i].linux_id], "baseline", "processor %u has APIC ID %u", d->proc[i].linux_id, d->proc[i].apic_id);
			}
		} else {
			static const uint32_t id[] = {0x410FD034, 0x411FD073, 0x410FD082};
			for (uint32_t i = 0; i < d->nproc; i++)
				MC_CHECK(d->proc[i].linux_id > 2 || d->core[d->proc[i].core].id == id[d->proc[i].linux_id], "baseline", "processor %u has identity %08x", d->proc[i].linux_id, d->core[d->proc[i].core].id);
		}
	}
	return *d;
}
static void compare(const std::string& text, const vdesc& want, const char* what) {
	env.files["/proc/cpuinfo"] = text;
	check_same(want, what);
}
static std::vector<int> permutation(int n) {
	std::vector<int> left, out;
	for (int i = 0; i < n; i++) left.push_back(i);
	while (!left.empty()) {
		uint32_t c = mc::choose((uint32_t)left.size(), "next");
		out.push_back(left[c]);
		left.erase(left.begin() + c);
	}
	return out;
}

} // namespace attribution
using namespace attribution;

MC_FAMILY(P21, order, "three processors: every order of entries, five spacings for each entry, three kinds of separation, system-wide lines at every place, with and without cache geometry", 0) {
	if (vd_arch == 4) mc::reject();
	auto p = permutation(3);
	int style[3];
	for (int& s : style) s = mc::choose(5, "spacing");
	int where = mc::choose(4, "system-wide lines");
	int blank = mc::choose(3, "separation");
	bool caches = vd_arch == 3 && mc::flag("caches");
	const vdesc& want = canonical("0-2\n", caches);
	mc::commit();
	venv::fresh();
	Layout l;
	emit_machine(l, "0-2\n", caches);
	std::string s, sys;
	for (auto& x : l.system) sys += styled(x, style[2]);
	static const char* const sep[] = {"\n", "", "\n \t\n\n"};
	for (int i = 0; i < 3; i++) {
		if (where == i) s += sys;
		s += block(l.entries[p[i]], style[i], sep[blank]);
	}
	if (where == 3) s += sys;
	compare(s, want, "with another order or spacing of the entries");
}
MC_FAMILY(P21, line_order, "every order of the first five or six lines of one of three entries", 0) {
	if (vd_arch == 4) mc::reject();
	int e = mc::choose(3, "entry");
	auto p = permutation(vd_arch <= 1 ? 5 : 6);
	const vdesc& want = canonical();
	mc::commit();
	venv::fresh();
	Layout l;
	emit_machine(l, "0-2\n", false);
	auto lines = l.entries[e].lines;
	for (size_t i = 0; i < p.size(); i++) l.entries[e].lines[i] = lines[p[i]];
	std::string s;
	for (auto& x : l.entries) s += block(x, 0);
	for (auto& x : l.system) s += styled(x, 0);
	compare(s, want, "with another order of lines");
}
MC_FAMILY(P21, repeated, "every entry cut in two at every line, the second parts repeat the number later: every order of the parts", 0) {
	if (vd_arch == 4) mc::reject();
	int cut[3];
	uint32_t n = vd_arch <= 1 ? 5 : 6;
	for (int& c : cut) c = mc::choose(n + 1, "cut");
	auto p = permutation(3), q = permutation(3);
	bool mixed = mc::flag("interleaved");
	const vdesc& want = canonical();
	mc::commit();
	venv::fresh();
	Layout l;
	emit_machine(l, "0-2\n", false);
	std::vector<Facts> first, second;
	for (int i = 0; i < 3; i++) {
		Facts a = l.entries[i], b = l.entries[i];
		a.lines.resize(cut[i]);
		b.lines.erase(b.lines.begin(), b.lines.begin() + cut[i]);
		first.push_back(a);
		second.push_back(b);
	}
	std::string s;
	for (int i = 0; i < 3; i++) {
		s += block(first[p[i]], 0);
		if (mixed) s += block(second[q[i]], 2);
	}
	if (!mixed)
		for (int i = 0; i < 3; i++) s += block(second[q[i]], 2);
	for (auto& x : l.system) s += styled(x, 0);
	compare(s, want, "with repeated entries");
}
// entries of processors which the system does not have
static void foreign(bool two) {
	if (vd_arch == 4) mc::reject();
	static const char* const number[] = {"3", "4", "7", "8", "31", "32", "33", "99", "1023", "1024", "65536", "2147483647", "2147483648", "4294967293", "4294967295", "4294967296", "4294967297", "4294967298", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "x", "-1", ":", "+2"};
	static const char* const lists[] = {"0-2\n", "0-2,5\n"};
	std::string present = mc::pick(lists, "present");
	int places = two ? 2 : 1;
	int at[2] = {-1, -1};
	std::string num[2];
	uint32_t facts[2] = {0, 0};
	for (int i = 0; i < places; i++) {
		at[i] = mc::choose(4, "place");
		num[i] = mc::pick(number, "number");
		facts[i] = mc::choose(two ? 2 : 4, "facts");
	}
	auto p = two ? std::vector<int>{0, 1, 2} : permutation(3);
	const vdesc& want = canonical(present);
	mc::commit();
	venv::fresh();
	Layout l;
	emit_machine(l, present, false);
	auto alien = [&](int i) {
		std::string s = styled("processor|" + num[i], 0);
		if (vd_arch <= 1) {
			s += styled("apicid|40", 0);
		} else {
			if (facts[i] != 1) s += styled("CPU implementer|0x51", 0) + styled("CPU architecture|7", 0) + styled("CPU variant|0x7", 0) + styled("CPU part|0x06f", 0) + styled("CPU revision|13", 0);
			if (facts[i] != 2) s += styled("Features|swp half thumb java crunch", 0);
			if (facts[i] == 3) s += styled("I size|1024", 0) + styled("D size|512", 0);
		}
		return s + "\n";
	};
	std::string s;
	for (int i = 0; i < 4; i++) {
		for (int j = 0; j < places; j++)
			if (at[j] == i) s += alien(j);
		if (i < 3) s += block(l.entries[p[i]], 0);
	}
	// system-wide lines are not part of the last entry
	for (auto& x : l.system) s += styled(x, 0);
	compare(s, want, "with entries of processors which are not there");
}
MC_FAMILY(P21, foreign, "entries with 25 numbers of processors which are not there, beyond the limit, too large for any variable or no numbers, at every place, with four sets of facts, among every order of the others", 0) {
	foreign(false);
}
MC_FAMILY(P21, foreign_pairs, "two such entries at every pair of places", 0) {
	foreign(true);
}
MC_FAMILY(P21, unknown, "every pair of places among all lines for two of eight kinds of unknown lines", 0) {
	if (vd_arch == 4) mc::reject();
	static const char* const kinds[] = {"", "   ", "model name\t: ARMv8 Processor rev 4 (v8l)", "no separator at all", ":", "processor_id : 2", "physical id\t: 9", "cpu MHz :"};
	const vdesc& want = canonical();
	static std::vector<std::string> lines;
	if (lines.empty()) {
		mc::Probe probe;
		venv::fresh();
		Layout l;
		emit_machine(l, "0-2\n", false);
		for (auto& e : l.entries) {
			lines.push_back(styled(venv::fmt("processor|%u", e.id), 0));
			for (auto& x : e.lines) lines.push_back(styled(x, 0));
		}
		for (auto& x : l.system) lines.push_back(styled(x, 0));
	}
	uint32_t a = mc::choose((uint32_t)lines.size() + 1, "place"), b = a + mc::choose((uint32_t)lines.size() + 1 - a, "place");
	const char *ka = mc::pick(kinds, "kind"), *kb = mc::pick(kinds, "kind");
	mc::commit();
	venv::fresh();
	Layout l;
	emit_machine(l, "0-2\n", false);
	std::string s;
	for (uint32_t i = 0; i <= lines.size(); i++) {
		if (i == a) s += std::string(ka) + "\n";
		if (i == b) s += std::string(kb) + "\n";
		if (i < lines.size()) s += lines[i];
	}
	compare(s, want, "with unknown lines");
}
MC_FAMILY(P21, fields, "every subset of the lines of two entries, in the standard order and in reverse order, and with the two entries exchanged: the same description", 0) {
	if (vd_arch == 4) mc::reject();
	uint32_t n = vd_arch <= 1 ? 5 : 6;
	uint32_t s1 = mc::choose(1u << n, "lines"), s2 = mc::choose(1u << n, "lines");
	mc::commit();
	static vdesc first;
	for (int variant = 0; variant < 4; variant++) {
		venv::fresh();
		Layout l;
		emit_machine(l, "0-2\n", false);
		for (int e = 0; e < 2; e++) {
			auto lines = l.entries[e].lines;
			l.entries[e].lines.clear();
			for (uint32_t i = 0; i < n; i++)
				if ((e ? s2 : s1) >> i & 1) l.entries[e].lines.push_back(lines[i]);
			if (variant & 1) std::reverse(l.entries[e].lines.begin(), l.entries[e].lines.end());
		}
		if (variant & 2) std::swap(l.entries[0], l.entries[1]);
		std::string s;
		for (auto& x : l.entries) s += block(x, variant);
		for (auto& x : l.system) s += styled(x, 0);
		env.files["/proc/cpuinfo"] = s;
		if (variant == 0) {
			MC_CHECK(check_safe("with a subset of the lines"), "fails", "initialization fails");
			first = venv::D;
		} else
			check_same(first, "with the same lines in another order");
	}
}
// a malformed value is as good as none
MC_FAMILY(P21, malformed, "ARM: every line of one entry with each of twelve malformed values: as if the line was missing", 0) {
	if (vd_arch != 2 && vd_arch != 3) mc::reject();
	int e = mc::choose(3, "entry");
	uint32_t line = 1 + mc::choose(vd_arch == 3 ? 13 : 5, "line");
	static const char* const part[] = {"", "0x", "d03", "0x1234", "0xg", "0X41", "x41", "0x-", "41", "0x4G", "-1", "0xd0:"};
	static const char* const dec[] = {"", "x", "-1", "1x", ":", "16", "4294967296", "4294967297", "99999999999999999999", "+1", "1.0", "0x1"};
	static const char* const cache[] = {"", "x", "-1", "32x", ":", "0", "4294967296", "4294967328", "99999999999999999999", "+1", "1.0", "0x20"};
	bool caches = line > 5;
	mc::commit();
	if (line == 2) mc::reject(); // architecture texts: P14
	uint32_t v = 0;
	v = mc::choose(12, "value");
	Layout l;
	auto text = [&]() {
		std::string s;
		for (auto& x : l.entries) s += block(x, 0);
		for (auto& x : l.system) s += styled(x, 0);
		return s;
	};
	static vdesc without;
	venv::fresh();
	emit_machine(l, "0-2\n", caches);
	std::string key = l.entries[e].lines[line].substr(0, l.entries[e].lines[line].find('|') + 1);
	const char* value = line == 5 ? dec[v] : line > 5 ? cache[v] : part[v];
	if (line == 1 && !strcmp(value, "0x1234")) value = "0x123";
	if (line == 3 && !strcmp(value, "0x1234")) value = "0x12";
	if (key == "I line length|" || key == "D line length|")
		if (!strcmp(value, "4294967328")) value = "33";
	l.entries[e].lines.erase(l.entries[e].lines.begin() + line);
	env.files["/proc/cpuinfo"] = text();
	MC_CHECK(check_safe("with a missing line"), "fails", "initialization fails");
	without = venv::D;
	venv::fresh();
	emit_machine(l, "0-2\n", caches);
	l.entries[e].lines[line] = key + value;
	mc::describe("entry %d: %s%s", e, key.c_str(), value);
	env.files["/proc/cpuinfo"] = text();
	check_same(without, "with a malformed value");
}
