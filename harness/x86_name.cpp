// P08: package names made from CPUID brand strings.
#include <cpuinfo.h>
#include "x86_model.h"
using venv::D;
using venv::env;
using venv::Regs;

static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool ends(const std::string& s, const char* t) {
	size_t n = strlen(t);
	return s.size() >= n && s.compare(s.size() - n, n, t) == 0;
}
static bool in(const std::string& s, std::initializer_list<const char*> l) {
	for (auto x : l)
		if (s == x) return true;
	return false;
}
static bool digits(const std::string& s) {
	for (char c : s)
		if (!digit(c)) return false;
	return true;
}
static bool model_number(const std::string& s) {
	for (size_t i = 1; i < s.size(); i++)
		if (digit(s[i - 1]) && digit(s[i])) return true;
	return false;
}
static bool frequency(const std::string& s) { return s.size() > 3 && (ends(s, "KHz") || ends(s, "MHz") || ends(s, "GHz")); }

// The documented rules as a rewriting of the list of words.
static std::string reference(std::string raw) {
	while (!raw.empty() && raw.back() == 0) raw.pop_back();
	struct Word {
		std::string s;
		bool after_at;
	};
	std::vector<Word> words;
	size_t at = raw.rfind('@');
	bool has_at = at != std::string::npos;
	bool paren = false, open = false;
	for (size_t i = 0; i < raw.size(); i++) {
		char c = raw[i];
		bool sp = c == ' ' || c == 0 || c == '\t' || c == '@' || c == '(' || c == ')' || paren;
		if (c == '(') paren = true;
		if (c == ')') paren = false;
		if (sp) open = false;
		else {
			if (!open) words.push_back({"", has_at && i > at});
			open = true;
			words.back().s += c;
		}
	}
	// each surviving word goes to out; gone words leave an empty string
	std::vector<std::string> out;
	std::vector<bool> after;
	bool model = false, freq = false;
	std::string last; // previous word as written after stripping, "" when it gives no context
	for (auto& w : words) {
		std::string s = w.s, ctx = last;
		last = "";
		auto keep = [&](const std::string& x) {
			out.push_back(x);
			after.push_back(w.after_at);
		};
		if (w.after_at && model) {
			keep("");
			continue;
		}
		if (s.size() > 2 && ends(s, "tm") && (digit(s[s.size() - 3]) || upper(s[s.size() - 3]))) s.resize(s.size() - 2);
		if (s.size() > 4 && s.compare(0, 4, "AMD-") == 0) s.erase(0, 4);
		if (s.size() == 1 && upper(s[0])) {
			keep(s);
			last = s;
			continue;
		}
		// the rest of the string is a description of something else
		if (in(s, {"w/", "SOC", "MMX", "APU", "Radeon", "RADEON"})) break;
		if (s == "Geode") {
			keep(s);
			break;
		}
		if ((ctx == "Eng" || ctx == "Engineering") && in(s, {"Sample", "Sample,", "Sample:"})) return "";
		if (s.size() == 2 && s[0] == 'V' && digit(s[1])) {
			keep("v" + s.substr(1));
			continue;
		}
		if (in(s, {"CPU", "AMD", "VIA", "IDT", "Intel", "Cyrix", "Transmeta", "family", "Genuine", "12-Core", "16-Core", "Processor", "processor"})) {
			keep("");
			continue;
		}
		if (in(s, {"QuadCore", "Six-Core", "Dual-Core", "Quad-Core", "Eight-Core", "Triple-Core"})) {
			keep("");
			last = "#core";
			continue;
		}
		if (s == "Core" && ctx == "Dual") {
			out.back() = "";
			keep("");
			last = "#core";
			continue;
		}
		if (s == "Mobile" && ctx == "#core") {
			keep("");
			continue;
		}
		if (s == "unknown" && ctx == "model") {
			out.back() = "";
			keep("");
			continue;
		}
		if (in(s, {"model", "Engineering"})) {
			keep(s);
			last = s;
			continue;
		}
		if (in(s, {"Dual", "Eng"})) last = s;
		bool zeros = true;
		for (char c : s)
			if (c != '0') zeros = false;
		if (zeros) {
			keep("");
			continue;
		}
		if (ctx.size() == 1 && s.size() >= 2 && s.size() <= 5 && digits(s)) {
			out.back() = "";
			s += ctx;
		}
		if (has_at && model_number(s)) model = true;
		if (frequency(s)) freq = true;
		keep(s);
	}
	if (has_at) {
		bool before = false;
		for (size_t i = 0; i < out.size(); i++)
			if (!after[i] && !out[i].empty()) before = true;
		if (!before) return "";
	}
	std::string r;
	int n = 0;
	for (auto& s : out) {
		if (s.empty()) continue;
		if (!r.empty() && r.back() != '-' && s[0] != '-') {
			r += ' ';
			n++;
		}
		r += s;
	}
	if (freq && n == 0) return "";
	return r.substr(0, 47);
}

enum { INTEL, AMD, VIA, HYGON, UNKNOWN, MISSING };
static const char* vendor_name[] = {"Intel", "AMD", "VIA", "Hygon", nullptr, "Intel"};
static void brand(std::string raw, uint32_t vendor, bool exact = true, uint32_t max_ext = 0x80000008) {
	static const char* id[] = {"GenuineIntel", "AuthenticAMD", "CentaurHauls", "HygonGenuine", "SomebodyElse", "GenuineIntel"};
	raw.resize(48, '\0');
	mc::commit();
	venv::fresh();
	x86::Machine m;
	m.topo = x86::X2APIC;
	m.thread_bits = 0;
	m.core_bits = 0;
	m.procs = {{0, 0}, {1, 1}};
	m.emit();
	auto& v = env.cpuid[0];
	memcpy(&v.b, id[vendor], 4);
	memcpy(&v.d, id[vendor] + 4, 4);
	memcpy(&v.c, id[vendor] + 8, 4);
	env.leaf(0x80000000, 0, {max_ext, 0, 0, 0});
	for (uint32_t i = 0; i < 3; i++) {
		Regs r;
		memcpy(&r.a, raw.data() + 16 * i, 4);
		memcpy(&r.b, raw.data() + 16 * i + 4, 4);
		memcpy(&r.c, raw.data() + 16 * i + 8, 4);
		memcpy(&r.d, raw.data() + 16 * i + 12, 4);
		env.leaf(0x80000002 + i, 0, r);
	}
	x86::run(m);
	MC_CHECK(D.npackage == 2, "packages", "%u packages", D.npackage);
	std::string want = max_ext >= 0x80000004 ? reference(raw) : "";
	if (!want.empty() && vendor_name[vendor]) want = std::string(vendor_name[vendor]) + " " + want;
	want = want.substr(0, 47);
	for (uint32_t p = 0; p < 2; p++) {
		const char* n = D.package[p].name;
		size_t len = strnlen(n, 48);
		MC_CHECK(len < 48, "unterminated", "package name of brand string \"%.48s\" is not terminated", raw.c_str());
		MC_CHECK(n[0] != ' ' && !strstr(n, "  "), "spaces", "package name \"%s\" of brand string \"%.48s\"", n, raw.c_str());
		MC_CHECK(len == 0 || len == 47 || n[len - 1] != ' ', "spaces", "package name \"%s\" ends in a space, brand string \"%.48s\"", n, raw.c_str());
		MC_CHECK(!strpbrk(n, "()\t@"), "decoration", "package name \"%s\" of brand string \"%.48s\"", n, raw.c_str());
		if (exact) MC_CHECK(want == n, "name", "package name \"%s\", expected \"%s\" for brand string \"%.48s\"", n, want.c_str(), raw.c_str());
	}
}

static const char* const words[] = {"Intel", "Intel(R)", "AMD", "VIA", "IDT", "Cyrix", "Transmeta(tm)", "Genuine", "CPU", "Processor", "processor", "Core", "Core(TM)", "Core(TM)2", "Xeon(R)", "Xeon", "Atom(TM)", "Athlon(tm)",
	"FX(tm)-6100", "AMD-K6tm", "AMD-K6(tm)-III", "K6tm", "MediaGXtm", "MMXtm", "MMX", "Dual", "Quad", "Dual-Core", "Quad-Core", "Six-Core", "Eight-Core", "Triple-Core", "QuadCore", "12-Core", "16-Core", "Mobile", "family", "model", "unknown",
	"Eng", "Engineering", "Sample", "Sample,", "Sample:", "w/", "SOC", "APU", "Radeon", "RADEON", "R7,", "Geode(TM)", "X", "M", "V2", "v3", "990", "i7-6700K", "E5-2697", "0000", "0", "3800+", "64", "X2", "@", "2.13GHz", "800MHz", "GHz", "III",
	"-", "-M", "with"};
static const char* const core_words[] = {"Intel(R)", "AMD", "CPU", "Processor", "Core(TM)", "Xeon", "Dual", "Core", "Dual-Core", "Mobile", "model", "unknown", "Eng", "Sample", "APU", "X", "990", "i7-6700K", "0000", "V2", "@", "2.13GHz", "-M", "AMD-K6tm", "Geode"};
template <size_t N> static void sequence(const char* const (&alphabet)[N], uint32_t max, bool vary) {
	std::string s;
	uint32_t n = mc::choose(max + 1, "words");
	for (uint32_t i = 0; i < n; i++) {
		if (i) s += ' ';
		s += alphabet[mc::choose(N, "word")];
	}
	uint32_t v = vary ? mc::choose(2, "vendor") : 0;
	if (s.size() > 48) mc::reject(); // truncation is another family
	brand(s, v ? UNKNOWN : INTEL);
}
MC_FAMILY(P08, words3, "every sequence of up to three of 71 words of real brand strings, with and without vendor prefix", 0) {
	sequence(words, 3, true);
}
MC_FAMILY(P08, words4, "every sequence of up to four of 25 words", 0) {
	sequence(core_words, 4, false);
}
MC_FAMILY(P08, words4_full, "every sequence of up to four of 71 words", 1) {
	sequence(words, 4, false);
}
MC_FAMILY(P08, words5, "every sequence of up to five of 25 words", 1) {
	sequence(core_words, 5, false);
}
MC_FAMILY(P08, spacing, "three words from seven with every separator (one to nine spaces, tab, NUL, parentheses, @ without spaces) and leading or trailing space", 0) {
	static const char* const sep[] = {" ", "  ", "         ", "\t", "#", "(R)", " (R) ", "@", " @ ", "(TM) ", ")", "", "-"};
	static const char* const w[] = {"Intel", "Core", "X", "990", "1.60GHz", "-M", "L3050"};
	static const char* const lead[] = {"", "           ", "#", "(R)"};
	std::string s = mc::pick(lead, "lead");
	s += mc::pick(w, "word");
	s += mc::pick(sep, "separator");
	s += mc::pick(w, "word");
	s += mc::pick(sep, "separator");
	s += mc::pick(w, "word");
	s += mc::pick(lead, "trail");
	for (auto& c : s)
		if (c == '#') c = 0;
	if (s.size() > 48) mc::reject();
	brand(s, AMD);
}
static const char charset[] = {'A', 'Z', 'z', 'm', 't', '0', '1', '9', ' ', '\0', '\t', '-', '@', '(', ')', '.', '+', 'V', 'v', 'w', '/', 'G', 'H', '\x01', '\x7f', '\x80', '\xff', '%'};
static void bytes(uint32_t n) {
	std::string s;
	uint32_t place = mc::choose(3, "place");
	for (uint32_t i = 0; i < n; i++) s += mc::pick(charset, "byte");
	// '@' inside parentheses has no documented meaning
	bool exact = s.find('@') == std::string::npos || s.find('(') == std::string::npos;
	if (place == 1) s = std::string(48 - n, 'x') + s;
	if (place == 2) s = "Intel Core i7-6700K " + s + " y";
	brand(s, place == 2 ? HYGON : UNKNOWN, exact);
}
MC_FAMILY(P08, bytes3, "every string of three bytes from 28 (letters, digits, punctuation, control, non-ASCII), alone, at the very end of an unterminated string and in the middle of a name", 0) {
	bytes(3);
}
MC_FAMILY(P08, bytes4, "the same with four bytes", 1) {
	bytes(4);
}
MC_FAMILY(P08, every_byte, "every byte value at every position of three brand strings", 0) {
	static const char* const base[] = {"Intel(R) Core(TM) i7-6700K CPU @ 4.00GHz       ", "AMD Ryzen Threadripper 1950X 16-Core Processor 12", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
	std::string s = mc::pick(base, "string");
	s.resize(48);
	uint32_t p = mc::choose(48, "position"), c = mc::choose(256, "byte");
	s[p] = (char)c;
	bool exact = !(c == '@' || c == '(' || c == ')');
	brand(s, INTEL, exact);
}
MC_FAMILY(P08, lengths, "every split of up to 48 characters into up to four words with single or double spaces, with and without terminator, for six vendors and every package", 0) {
	uint32_t v = mc::choose(5, "vendor");
	uint32_t a = mc::choose(49, "first"), b = mc::choose(49, "second"), c = mc::choose(4, "third");
	uint32_t gap = 1 + mc::choose(2, "gap");
	std::string s = std::string(a, 'a');
	if (b) s += std::string(gap, ' ') + std::string(b, 'b');
	if (c) s += std::string(gap, ' ') + std::string(c, 'c');
	if (s.size() > 50) mc::reject();
	s.resize(std::min<size_t>(48, s.size()));
	brand(s, v);
}
MC_FAMILY(P08, truncated, "real words cut at every position by the end of the 48-byte string", 0) {
	static const char* const w[] = {"Processor", "Dual Core Mobile", "Eng Sample, x", "AMD-K6tm w/ x", "model unknown", "X 990 y", "Radeon R7", "i7 @ 2.13GHz", "0000 CPU", "V2 v3", "Geode(TM)", "Quad-Core", "Core(TM) i7"};
	uint32_t pad = mc::choose(48, "padding");
	bool sp = mc::flag("separated");
	std::string s = std::string(pad, sp ? ' ' : 'p');
	s += mc::flag("space") ? " " : "";
	s += mc::pick(w, "words");
	s.resize(std::min<size_t>(48, s.size()));
	brand(s, mc::choose(5, "vendor"));
}
MC_FAMILY(P08, available, "brand string leaves present or not: every maximum extended leaf around 80000004", 0) {
	static const uint32_t ME[] = {0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000002, 0x80000003, 0x80000004, 0x80000005, 0x80000008, 0xFFFFFFFF};
	uint32_t me = mc::pick(ME, "maximum extended leaf");
	brand("Intel(R) Core(TM) i7-6700K CPU @ 4.00GHz", mc::choose(5, "vendor"), me != 0xFFFFFFFF, me);
}
