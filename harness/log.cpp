// P25: log messages.
#include <inttypes.h>
#include <string.h>
#include "mc.h"
#include "venv.h"

using venv::env;

extern "C" {
extern const int vl_built_level;
void vl_cpuinfo(int level, int shape, const char* text, size_t length);
void vl_clog(int level, int shape, const char* text, size_t length, const char* m, int e);
}

struct Call {
	bool clog;
	int level, shape, enabled;
	std::string text;
	bool has_module;
	std::string module;
};
static std::string expected(const Call& c) {
	static const char* const plain[] = {"", "Fatal error: ", "Error: ", "Warning: ", "Note: ", "Debug: "};
	static const char* const head[] = {"", "Fatal error in ", "Error in ", "Warning in ", "Note (", "Debug ("};
	std::string s;
	if (!c.clog)
		s = std::string(head[c.level]) + "cpuinfo" + (c.level >= 4 ? "): " : ": ");
	else if (!c.has_module)
		s = plain[c.level];
	else
		s = head[c.level] + c.module + (c.level >= 4 ? "): " : ": ");
	switch (c.shape) {
		case 0:
		case 1: s += c.text; break;
		case 2: s += "-7:" + c.text; break;
		case 3: s += c.text + "4294967295%" + std::to_string(c.text.size()); break;
		case 4: s += "123456789az" + c.text; break;
		default: s += (c.text.size() > 1 ? std::string(c.text.size() - 1, ' ') : "") + "x"; break;
	}
	return s + "\n";
}
static void perform(const Call& c, bool may_be_lost = false) {
	static const Call* now;
	now = &c;
	env.keep_writes = true;
	env.writes.clear();
	uint64_t blocks = venv::live_blocks();
	auto o = venv::guarded([](void*) {
		if (now->clog)
			vl_clog(now->level, now->shape, now->text.c_str(), now->text.size(), now->has_module ? now->module.c_str() : nullptr, now->enabled);
		else
			vl_cpuinfo(now->level, now->shape, now->text.c_str(), now->text.size());
	}, nullptr);
	MC_CHECK(o.aborted == (c.level == 1), "abort", "level %d: the call %s", c.level, o.aborted ? "aborts" : "returns");
	MC_CHECK(venv::live_blocks() == blocks, "leak", "memory is left behind");
	mc::count_nontrivial();
	mc::count_validated();
	bool on = c.level <= (c.clog ? c.enabled : vl_built_level);
	mc::state(c.level * 8 + c.enabled + (on ? 64 : 0) + 128 * env.writes.size());
	if (!on) {
		MC_CHECK(env.writes.empty(), "disabled", "a message of level %d is written when %d is enabled", c.level, c.clog ? c.enabled : vl_built_level);
		return;
	}
	if (may_be_lost && env.writes.empty()) return;
	std::string want = expected(c);
	MC_CHECK(env.writes.size() == 1, "pieces", "%zu writes for a line of %zu bytes (level %d, %s, module %zu bytes)", env.writes.size(), want.size(), c.level, c.clog ? "clog" : "cpuinfo", c.module.size());
	auto& w = env.writes[0];
	MC_CHECK(w.first == (c.level <= 3 ? 2 : 1), "stream", "a message of level %d goes to file %d", c.level, w.first);
	if (w.second != want) {
		size_t i = 0;
		while (i < want.size() && i < w.second.size() && w.second[i] == want[i]) i++;
		mc::fail("text", "%s, level %d, shape %d, module of %zu bytes: %zu bytes instead of %zu are written, first difference at %zu (%d instead of %d)", c.clog ? "clog" : "cpuinfo", c.level, c.shape, c.module.size(), w.second.size(), want.size(), i, i < w.second.size() ? (uint8_t)w.second[i] : -1, i < want.size() ? (uint8_t)want[i] : -1);
	}
}
static std::string text_of(size_t n) {
	std::string s;
	for (size_t i = 0; i < n; i++) s += (char)('a' + i % 23);
	return s;
}
static Call choose_call(bool clog) {
	Call c{clog, 0, 0, 5, "", false, ""};
	c.level = 1 + mc::choose(5, "level");
	return c;
}
// lengths at which something may change
static size_t choose_length() {
	if (mc::flag("long")) {
		static const uint32_t around[] = {2048, 4096, 8192, 65536};
		return mc::pick(around, "around") - 40 + mc::choose(60, "offset");
	}
	return mc::choose(1101, "length");
}
MC_FAMILY(P25, own, "messages of the library: five levels, all lengths up to 1100 and around 2048, 4096, 8192 and 65536 bytes, six kinds of formats", 0) {
	Call c = choose_call(false);
	c.shape = mc::choose(6, "shape");
	size_t n = choose_length();
	mc::commit();
	venv::fresh();
	c.text = text_of(n);
	perform(c);
}
MC_FAMILY(P25, module, "messages of modules: five levels, six enabled levels, no name or names of 0, 1, 7, 64 or 500 bytes, all lengths up to 1100 and around powers of two, six kinds of formats", 0) {
	Call c = choose_call(true);
	c.shape = mc::choose(6, "shape");
	int m = mc::choose(6, "name");
	size_t n = choose_length();
	static const size_t name[] = {0, 0, 1, 7, 64, 500};
	mc::commit();
	c.has_module = m != 0;
	c.module = text_of(name[m]);
	c.text = text_of(n);
	venv::fresh();
	for (c.enabled = n == 5 ? 0 : 5; c.enabled <= 5; c.enabled++) perform(c);
}
MC_FAMILY(P25, long_names, "names of all lengths from 980 to 1060 and around 2048 bytes: five levels, messages of all lengths up to 60 bytes, two kinds of formats", 0) {
	Call c = choose_call(true);
	c.shape = mc::choose(2, "shape");
	c.has_module = true;
	uint32_t k = mc::choose(110, "name");
	uint32_t n = mc::choose(61, "length");
	mc::commit();
	c.module = text_of(k < 80 ? 980 + k : 2030 + k - 80);
	c.text = text_of(n);
	venv::fresh();
	perform(c);
}
MC_FAMILY(P25, levels, "every level with every enabled level, with and without a name", 0) {
	Call c = choose_call(true);
	c.enabled = mc::choose(6, "enabled");
	c.has_module = mc::flag("name");
	c.shape = mc::choose(6, "shape");
	mc::commit();
	c.module = "unit";
	c.text = "some text";
	venv::fresh();
	perform(c);
}
MC_FAMILY(P25, bytes, "every pair of bytes in arguments, every byte in a name and a format; format specifications in arguments", 0) {
	bool clog = mc::flag("module");
	Call c = choose_call(clog);
	uint32_t a = 1 + mc::choose(255, "byte"), b = 1 + mc::choose(255, "byte");
	int where = mc::choose(2, "where");
	if (where == 1 && b != 1) mc::reject();
	mc::commit();
	venv::fresh();
	c.has_module = true;
	c.module = "m";
	if (where == 0) {
		c.shape = 1;
		c.text = std::string("<") + (char)a + (char)b + (a == '%' ? "n%s%d" : "") + ">";
	} else {
		c.shape = 0;
		c.text = a == '%' ? "x" : std::string(3, (char)a);
		c.module = std::string("n") + (char)a + "d%s";
	}
	perform(c);
}
MC_FAMILY(P25, no_memory, "failing allocations: five levels, lengths around the limits, with and without a name: the whole line or nothing", 0) {
	bool clog = mc::flag("module");
	Call c = choose_call(clog);
	static const uint32_t around[] = {10, 980, 1024, 2048, 4096};
	size_t n = mc::pick(around, "around") + mc::choose(40, "offset");
	int m = clog ? mc::choose(4, "name") : 0;
	int fault = mc::choose(2, "failing allocation");
	mc::commit();
	static const size_t name[] = {0, 3, 1010, 1100};
	c.has_module = m != 0;
	c.module = text_of(name[m]);
	c.text = text_of(n);
	venv::fresh();
	env.fail_alloc = {(uint64_t)fault};
	perform(c, true);
}
MC_FAMILY(P25, sequences, "sequences of three calls of different loggers, levels and lengths: each writes its own line", 0) {
	static const uint32_t lengths[] = {0, 30, 1003, 1010, 1024, 3000};
	std::vector<Call> v;
	for (int i = 0; i < 3; i++) {
		Call c = choose_call(mc::flag("module"));
		if (i > 0 && c.level == 3) mc::reject();
		c.shape = 1;
		c.text = text_of(mc::pick(lengths, "length"));
		c.has_module = c.level & 1;
		c.module = "seq";
		v.push_back(c);
	}
	mc::commit();
	venv::fresh();
	for (auto& c : v) perform(c);
}
