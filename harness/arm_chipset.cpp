// P15: chipset names on ARM.
#include "arm_model.h"
using namespace arm;
using venv::D;
using venv::env;

struct Text {
	const char* text;
	const char* vendor;
	const char* series;
	uint32_t model;
	const char* suffix;
	bool only32;
};
#include "arm_chips.inc"

struct Chip {
	const char* vendor = nullptr; // null: unknown
	const char* series = nullptr;
	uint32_t model = 0;
	std::string suffix;
	bool is(const char* v, const char* s) const {
		return vendor && !strcmp(vendor, v) && !strcmp(series, s);
	}
	std::string name() const {
		if (!vendor) return "Unknown";
		if (!model) return venv::fmt("%s %s", vendor, series);
		return venv::fmt("%s %s%u%s", vendor, series, model, suffix.c_str());
	}
};

// ---- reference matcher: each pattern is a sequence of steps over the text
struct Scan {
	std::string t;
	size_t p = 0;
	bool ok = true;
	explicit Scan(const std::string& s) : t(s) {}
	Scan& lit(const char* s) { // exact
		size_t n = strlen(s);
		ok = ok && t.compare(p, n, s) == 0;
		if (ok) p += n;
		return *this;
	}
	Scan& word(const char* s) { // letters in either case
		for (; ok && *s; s++) {
			ok = p < t.size() && (t[p] == *s || (*s >= 'a' && *s <= 'z' && t[p] == *s - 32));
			p += ok;
		}
		return *this;
	}
	Scan& opt(char c) {
		if (ok && p < t.size() && t[p] == c) p++;
		return *this;
	}
	Scan& digits(int n, uint32_t& v) {
		v = 0;
		for (int i = 0; ok && i < n; i++) {
			ok = p < t.size() && t[p] >= '0' && t[p] <= '9';
			if (ok) v = v * 10 + (uint32_t)(t[p++] - '0');
		}
		return *this;
	}
	Scan& end() {
		ok = ok && p == t.size();
		return *this;
	}
	static bool letter(char c) {
		return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
	}
	std::string letters(size_t max, char also = 0) { // upper-cased
		std::string s;
		for (; ok && p < t.size() && s.size() < max && (letter(t[p]) || (also && t[p] == also)); p++) s += letter(t[p]) ? (char)(t[p] & ~32) : t[p];
		return s;
	}
};

static bool set(Chip& c, const char* v, const char* s, uint32_t model, const std::string& suffix = "") {
	c.vendor = v;
	c.series = s;
	c.model = model;
	c.suffix = suffix;
	return true;
}

static bool r_msm(const std::string& t, Chip& c) {
	for (int k = 0; k < 2; k++) {
		Scan s(t);
		uint32_t m;
		s.word(k ? "apq" : "msm").opt(' ').digits(4, m);
		if (s.ok) return set(c, "Qualcomm", k ? "APQ" : "MSM", m, s.letters(8, '-'));
	}
	return false;
}
static bool r_sdm(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.lit("SDM").digits(3, m).end().ok && set(c, "Qualcomm", "Snapdragon ", m);
}
static bool r_sm(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.lit("SM").digits(4, m).end().ok && set(c, "Qualcomm", "Snapdragon ", m);
}
static bool r_mt(const std::string& t, Chip& c, bool whole = true) {
	Scan s(t);
	uint32_t m;
	s.word("mt").opt(s.p < t.size() && t[s.p] == 'K' ? 'K' : 'k').digits(4, m);
	if (!s.ok) return false;
	std::string x = s.letters(8, '/');
	if (whole && !s.end().ok) return false;
	return set(c, "MediaTek", "MT", m, x);
}
static bool r_kirin(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	s.word("k").lit("irin");
	if (s.ok && s.p < t.size() && (t[s.p] == ' ' || t[s.p] == '\t' || t[s.p] == '\r' || t[s.p] == '\n')) s.p++;
	return s.digits(3, m).end().ok && set(c, "HiSilicon", "Kirin ", m);
}
static bool r_rk(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	s.word("rk").digits(4, m);
	std::string x = s.letters(1);
	return s.end().ok && set(c, "Rockchip", "RK", m, x);
}
static bool r_samsung(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	s.lit("S").word("amsung").lit(" E").word("xynos").opt(' ').digits(4, m);
	// devices exist which end the line with a carriage return
	if (s.ok && s.p == 18 && t.size() == 19 && (uint8_t)t[18] <= ' ') s.p++;
	return s.end().ok && set(c, "Samsung", "Exynos ", m);
}
static bool r_exynos(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.lit("exynos").digits(4, m).end().ok && set(c, "Samsung", "Exynos ", m);
}
static bool r_universal(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.word("universal").digits(4, m).end().ok && set(c, "Samsung", "Exynos ", m);
}
static bool r_smdk(const std::string& t, uint32_t cores, Chip& c) {
	if (is64()) return false;
	Scan s(t), x(t);
	if (s.word("smdk").lit("4210").end().ok) return set(c, "Samsung", "Exynos ", 4210);
	if (x.word("smdk").lit("4x12").end().ok && (cores == 2 || cores == 4)) return set(c, "Samsung", "Exynos ", cores == 2 ? 4212 : 4412);
	return false;
}
static bool r_sc(const std::string& t, Chip& c) {
	for (int k = 0; k < 2; k++) {
		Scan x(t);
		if (x.word(k ? "spx" : "scx").lit("15").end().ok) return set(c, "Spreadtrum", "SC", 7715);
		Scan s(t);
		uint32_t m;
		s.word(k ? "sp" : "sc").digits(4, m);
		if (!s.ok) continue;
		std::string suffix = s.letters(8);
		if (s.p == t.size() || suffix.size() == 8) return set(c, "Spreadtrum", "SC", m, suffix);
	}
	return false;
}
static bool r_unisoc(const std::string& t, Chip& c) {
	for (int n = 3; n <= 4; n++)
		for (int k = 0; k < 2; k++) {
			Scan s(t);
			uint32_t m;
			if (s.lit(k ? "Unisoc UMS" : "Unisoc T").digits(n, m).end().ok) return set(c, "Unisoc", k ? "UMS" : "T", m);
		}
	return false;
}
static bool r_lc(const std::string& t, Chip& c) {
	if (is64()) return false;
	Scan s(t);
	uint32_t m;
	s.lit("lc").digits(4, m);
	std::string x = s.letters(1);
	return s.end().ok && set(c, "Leadcore", "LC", m, x);
}
static bool r_pxa(const std::string& t, Chip& c) {
	if (is64()) return false;
	if (t == "PXA1L88") return set(c, "Marvell", "PXA", 1088);
	for (int n = 3; n <= 4; n++) {
		Scan s(t);
		uint32_t m;
		if (s.lit("PXA").digits(n, m).end().ok) return set(c, "Marvell", "PXA", m);
	}
	return false;
}
static bool r_bcm(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.lit("BCM").digits(4, m).end().ok && set(c, "Broadcom", "BCM", m);
}
static bool r_omap(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return !is64() && s.lit("OMAP").digits(4, m).end().ok && set(c, "Texas Instruments", "OMAP", m);
}
static bool r_tcc(const std::string& t, Chip& c) {
	Scan s(t);
	uint32_t m;
	return s.lit("tcc").digits(3, m).lit("x").end().ok && set(c, "Telechips", "TCC", m, "X");
}
static bool r_sunxi(const std::string& t, uint32_t cores, Chip& c) {
	for (int n = 1; n <= 2; n++) {
		Scan s(t);
		uint32_t m;
		if (!s.lit("sun").digits(n, m).lit("i").ok) continue;
		static const struct {
			uint32_t sun, cores, model;
			const char* suffix;
		} map[] = {{4, 1, 10, ""}, {5, 1, 13, ""}, {6, 4, 31, ""}, {7, 2, 20, ""}, {8, 2, 23, ""}, {8, 4, 33, ""}, {8, 8, 83, "T"}, {9, 8, 80, ""}, {50, 4, 64, ""}};
		for (auto& e : map)
			if (e.sun == m && e.cores == cores && (e.sun == 50 || !is64())) return set(c, "Allwinner", "A", e.model, e.suffix);
		return set(c, "Allwinner", "A", 0);
	}
	return false;
}
static bool r_broadcom(const std::string& t, uint32_t cores, Chip& c) {
	if (is64()) return false;
	uint32_t m = 0;
	if (t == "rhea" && cores == 1) m = 21654;
	if (t == "java" && cores == 4) m = 23550;
	if (t == "capri" && cores == 2) m = 28155;
	if (t == "hawaii" && cores == 1) m = 21663;
	if (t == "hawaii" && cores == 2) m = 21664;
	return m && set(c, "Broadcom", "BCM", m);
}
static bool r_huawei(const std::string& t, Chip& c) {
	for (auto& e : huawei_texts) {
		Scan s(t);
		if (!s.lit(e.text).ok) continue;
		std::string rest = t.substr(s.p);
		auto digit = [](char x) { return x >= '0' && x <= '9'; };
		if (!rest.empty()) {
			if (rest[0] != '-') return false;
			rest = rest.substr(1);
			if (rest.size() == 4) {
				if (!(rest[0] >= 'A' && rest[0] <= 'Z')) return false;
				rest = rest.substr(1);
			}
			if (rest.size() != 3 || rest[0] != 'L' || !digit(rest[1]) || !digit(rest[2])) return false;
		}
		return set(c, e.vendor, e.series, e.model);
	}
	return false;
}
template <size_t N>
static bool r_table(const Text (&tab)[N], const std::string& t, Chip& c) {
	for (auto& e : tab)
		if (t == e.text && (!e.only32 || !is64())) return set(c, e.vendor, e.series, e.model, e.suffix);
	return false;
}

static Chip ref_hardware(const std::string& t, uint32_t cores, bool tegra) {
	Chip c;
	if (tegra) {
		r_table(tegra_texts, t, c);
		return c;
	}
	for (size_t i = 0; i < t.size(); i++) {
		bool starts = i == 0 || t[i - 1] == ' ' || t[i - 1] == '\t' || t[i - 1] == ',';
		if (!starts || !Scan::letter(t[i])) continue;
		std::string w = t.substr(i);
		if (r_msm(w, c) || r_sdm(w, c) || r_sm(w, c) || r_mt(w, c) || r_kirin(w, c) || r_rk(w, c)) return c;
	}
	if (r_samsung(t, c) || r_universal(t, c) || r_smdk(t, cores, c) || r_sc(t, c) || r_unisoc(t, c) || r_pxa(t, c) || r_sunxi(t, cores, c) || r_bcm(t, c) || r_omap(t, c)) return c;
	if (!is64() && t == "WMT") {
		set(c, "WonderMedia", "WM", 0);
		return c;
	}
	if (r_tcc(t, c) || r_table(hardware_texts, t, c)) return c;
	return c;
}

// chips which devices report under another name
static void ref_fixup(Chip& c, uint32_t n) {
	if (!c.vendor) return;
	if (c.is("Qualcomm", "MSM")) {
		if (c.suffix.empty()) {
			struct Rule {
				uint32_t model, keep, other, renamed;
				bool only32;
			};
			static const Rule rules[] = {{8916, 4, 8, 8939, false}, {8937, 8, 4, 8917, false}, {8960, 2, 4, 8064, false}, {8996, 4, 8, 8994, false}, {8610, 2, 4, 8612, true}};
			uint32_t was = c.model;
			if (was == 8216) c.model = 8916;
			for (auto& r : rules) {
				if (r.model != was || (r.only32 && is64())) continue;
				c.model = n == r.keep ? was : n == r.other ? r.renamed : 0;
				if (was == 8960 && n == 4) c.series = "APQ";
			}
		} else if (c.suffix == "MSM")
			c.suffix = "";
		else if (c.model == 8976 && c.suffix == "SG")
			c.suffix = "PRO";
		else if (c.model == 8996 && c.suffix == "PRO")
			c.suffix = "PRO-AB";
	} else if (c.is("Qualcomm", "APQ")) {
		if (c.suffix == "APQ") c.suffix = "";
	} else if (c.is("Samsung", "Exynos ")) {
		if (!is64() && c.model == 4410)
			c.model = 4412;
		else if (!is64() && c.model == 5420)
			c.model = n == 4 ? 5420 : n == 6 ? 5260 : 0;
		else if (c.model == 7580)
			c.model = n == 4 ? 7578 : n == 8 ? 7580 : 0;
	} else if (c.is("MediaTek", "MT")) {
		if (c.model == 6752) c.model = n == 4 ? 6732 : n == 8 ? 6752 : 0;
		if (c.suffix == "TURBO" || c.suffix == "TRUBO") c.suffix = "T";
	} else if (c.is("Rockchip", "RK")) {
		if (c.model == 3288) c.model = n == 4 ? 3288 : n == 6 ? 3399 : 0;
	}
}

static std::string trim(const std::string& s) {
	size_t a = s.find_first_not_of(' ');
	if (a == std::string::npos) return "";
	return s.substr(a, s.find_last_not_of(' ') - a + 1);
}

enum { HARDWARE, BOARD, PLATFORM, MEDIATEK, ARCH_, CHIPNAME, HWCHIPNAME, NSOURCES };
static const char* const source_keys[NSOURCES] = {"Hardware", "ro.product.board", "ro.board.platform", "ro.mediatek.platform", "ro.arch", "ro.chipname", "ro.hardware.chipname"};

static Chip ref_source(int source, const std::string& t, uint32_t n, bool tegra) {
	Chip c;
	switch (source) {
		case HARDWARE: return ref_hardware(t, n, tegra);
		case BOARD: r_msm(t, c) || r_universal(t, c) || r_smdk(t, n, c) || r_mt(t, c) || r_sc(t, c) || r_pxa(t, c) || r_lc(t, c) || r_broadcom(t, n, c) || r_huawei(t, c) || r_table(board_texts, t, c); break;
		case PLATFORM: r_msm(t, c) || r_exynos(t, c) || r_mt(t, c) || r_kirin(t, c) || r_sc(t, c) || r_rk(t, c) || r_lc(t, c) || r_huawei(t, c) || r_broadcom(t, n, c) || r_table(amlogic_texts, t, c) || r_table(platform_texts, t, c); break;
		case MEDIATEK: r_mt(t, c, false); break;
		case ARCH_: r_exynos(t, c); break;
		case CHIPNAME:
		case HWCHIPNAME:
			r_msm(t, c) || r_sm(t, c) || r_exynos(t, c) || r_universal(t, c) || r_mt(t, c) || r_sc(t, c) || r_pxa(t, c) || (!is64() && t == "mp523x" && set(c, "Renesas", "MP", 5232));
			break;
	}
	return c;
}

struct Device {
	std::string text[NSOURCES];
	std::string revision;
	uint32_t cores = 4;
	uint32_t phase = 0; // of the zero bytes in uninitialized memory
};

// the names which the texts of the device justify
static std::string ref_name(const Device& d) {
	std::string hw = trim(d.text[HARDWARE]);
	if (hw.size() > 64) hw = hw.substr(0, 64);
	hw = hw.c_str();
	if (!vd_android) {
		Chip c = ref_hardware(hw, d.cores, false);
		if (c.vendor && !strcmp(c.vendor, "Broadcom")) {
			std::string r = trim(d.revision);
			if (r.size() > 9) r = r.substr(0, 9);
			r = r.c_str();
			if (!is64() && r.size() == 4 && c.model == 2708) c.model = 2835;
			if (r.size() >= 5 && r.size() <= 8) {
				static const uint32_t models[4] = {2835, 2836, 2837, 2711};
				unsigned k = (unsigned)(uint8_t)r[r.size() - 4] - '0';
				if (k < 4) c.model = models[k];
			}
		} else
			ref_fixup(c, d.cores);
		return c.name();
	}
	bool tegra = d.text[PLATFORM] == "tegra" || d.text[PLATFORM] == "tegra3";
	Chip c[NSOURCES];
	const char* vendor = nullptr;
	for (int i = 0; i < NSOURCES; i++) {
		c[i] = ref_source(i, i == HARDWARE ? hw : d.text[i], d.cores, tegra);
		if (!c[i].vendor) continue;
		if (vendor && strcmp(vendor, c[i].vendor)) return Chip().name();
		vendor = c[i].vendor;
	}
	if (!vendor) return Chip().name();
	for (auto& x : c) ref_fixup(x, d.cores);
	// a shorter suffix stands for a longer one of the same series which starts with it
	for (int i = 0; i < NSOURCES; i++)
		for (int j = 0; j < i; j++) {
			if (!c[i].vendor || !c[j].vendor || strcmp(c[i].series, c[j].series)) continue;
			std::string &a = c[i].suffix, &b = c[j].suffix;
			if (a.size() > b.size() && a.compare(0, b.size(), b) == 0) b = a;
			else if (b.size() > a.size() && b.compare(0, a.size(), a) == 0) a = b;
		}
	static const struct {
		const char* vendor;
		int order[6];
	} trust[] = {
		{"Qualcomm", {HWCHIPNAME, CHIPNAME, HARDWARE, BOARD, PLATFORM, -1}},
		{"MediaTek", {CHIPNAME, HARDWARE, BOARD, PLATFORM, MEDIATEK, -1}},
		{"HiSilicon", {HARDWARE, BOARD, PLATFORM, -1}},
		{"Amlogic", {HARDWARE, PLATFORM, -1}},
		{"Marvell", {CHIPNAME, BOARD, HARDWARE, -1}},
		{"Rockchip", {BOARD, HARDWARE, PLATFORM, -1}},
		{"Spreadtrum", {CHIPNAME, BOARD, HARDWARE, PLATFORM, -1}},
	};
	bool differ = false;
	const Chip* first = nullptr;
	for (auto& x : c) {
		if (!x.vendor) continue;
		if (!first) first = &x;
		if (strcmp(x.series, first->series) || x.model != first->model || x.suffix != first->suffix) differ = true;
	}
	if (!differ) return first->name();
	for (auto& t : trust)
		if (!strcmp(t.vendor, vendor))
			for (int k = 0; t.order[k] >= 0; k++)
				if (c[t.order[k]].vendor) return c[t.order[k]].name();
	return Chip().name();
}

static void go(const Device& d) {
	mc::commit();
	venv::fresh();
	if (d.phase) {
		env.fill = '1';
		env.fill_period = 7;
		env.fill_phase = d.phase - 1;
	}
	Machine m;
	for (uint32_t i = 0; i < d.cores; i++) m.add(i, is64() ? A53 : A7);
	m.hardware = d.text[HARDWARE];
	m.revision = d.revision;
	m.emit();
	for (int i = BOARD; i < NSOURCES; i++)
		if (vd_android && !d.text[i].empty()) env.props[source_keys[i]] = d.text[i];
	run();
	MC_CHECK(D.npackage == 1, "package", "%u packages", D.npackage);
	MC_CHECK(D.package[0].name_terminated, "terminated", "the name is not terminated");
	std::string want = ref_name(d);
	MC_CHECK(want == D.package[0].name, "name", "\"%s\" instead of \"%s\"", D.package[0].name, want.c_str());
}

// ---- texts to explore
struct Pattern {
	const char* prefix;
	int digits;
	const char* tail; // usual suffix
	const char* model; // usual model number
};
static const Pattern patterns[] = {
	{"MSM", 4, "", "8974"}, {"APQ", 4, "", "8064"}, {"msm", 4, "-AB", "8996"}, {"APQ ", 4, "AB", "8074"}, {"SDM", 3, "", "660"}, {"SM", 4, "", "8150"},
	{"MT", 4, "", "6797"}, {"MTK", 4, "V/C", "6580"}, {"Kirin", 3, "", "970"}, {"kirin ", 3, "", "980"}, {"RK", 4, "", "3066"}, {"rk", 4, "s", "3188"},
	{"Samsung Exynos", 4, "", "8895"}, {"SAMSUNG Exynos ", 4, "", "9810"}, {"exynos", 4, "", "5433"}, {"universal", 4, "", "7420"}, {"SMDK", 4, "", "4210"},
	{"sc", 4, "a", "9863"}, {"SP", 4, "sea", "7731"}, {"Unisoc T", 3, "", "310"}, {"Unisoc T", 4, "", "7510"}, {"Unisoc UMS", 3, "", "512"}, {"Unisoc UMS", 4, "", "9230"},
	{"lc", 4, "", "1860"}, {"lc", 4, "c", "1860"}, {"PXA", 3, "", "988"}, {"PXA", 4, "", "1908"}, {"BCM", 4, "", "2835"}, {"OMAP", 4, "", "4430"}, {"tcc", 3, "x", "893"}, {"sun", 2, "i", "50"}, {"sun", 1, "iw1", "8"},
	{"gs70", 1, "a", "2"}, {"hi", 4, "", "3751"}, {"ALP-L", 2, "", "29"}, {"LON-AL", 2, "", "00"}, {"tegra", 3, "", "132"}, {"scx", 2, "", "15"}, {"k3v", 3, "", "200"},
};
static const int NPATTERNS = sizeof(patterns) / sizeof(*patterns);

static std::string usual(const Pattern& p) {
	return std::string(p.prefix) + p.model + p.tail;
}

static int pick_source() {
	return vd_android ? (int)mc::choose(NSOURCES, "source") : HARDWARE;
}

MC_FAMILY(P15, models, "each pattern, every model number, in each source (thorough) or the ones its chips use", 0) {
	Device d;
	int k = mc::choose(NPATTERNS, "pattern");
	int src = pick_source();
	const Pattern& p = patterns[k];
	uint32_t lim = p.digits == 4 ? 10000 : p.digits == 3 ? 1000 : p.digits == 2 ? 100 : 10;
	uint32_t v;
	if (vd_android && !mc::thorough() && lim > 1000)
		v = mc::choose(lim / 10, "model") * 10 + mc::choose(2, "odd") * 5;
	else
		v = mc::choose(lim, "model");
	d.text[src] = venv::fmt("%s%0*u%s", p.prefix, p.digits, v, p.tail);
	go(d);
}

MC_FAMILY(P15, cores, "each pattern and device name, models which depend on the number of processors, 1 to 10 processors, usual suffixes", 0) {
	static const char* const texts[] = {"MSM8216", "MSM8916", "MSM8937", "MSM8960", "MSM8996", "MSM8610", "MSM8916MSM8916", "MSM8937MSM", "MSM8976SG", "MSM8976", "MSM8996PRO", "MSM8996PRO-AB", "MSM8996SG", "APQ8016APQ8016", "APQ8064MSM", "MSM8916APQ", "MSM8976SGA",
		"MSM8916MSMA", "Samsung Exynos7420\r", "Samsung Exynos 7420\r", "SAMSUNG Exynos7420\r", "SAMSUNG Exynos7420 ", "SAMSUNG Exynos7420A", "universal4410", "universal5420", "universal7580", "exynos7580", "exynos5420", "exynos4410", "MT6752", "MT6752T", "MT6795TURBO", "MT6795TRUBO", "MT6795TURBOX", "MT6795TURB", "MT6752TURBO", "RK3288", "RK3288W", "RK3399", "SMDK4210", "smdk4x12", "SMDK4X12", "SMDK4410",
		"sun4i", "sun5i", "sun6i", "sun7i", "sun8i", "sun9i", "sun50i", "sun50iw1p1", "sun8iw11", "WMT", "rhea", "java", "capri", "hawaii", "PXA1L88", "PXA1088", "scx15", "SCX15", "SPX15", "omap4", "mp523x", "MSM0000", "MT0000AB", "BCM2708", "BCM2835", "Unisoc T000", "msm8939"};
	Device d;
	d.cores = mc::choose(10, "processors") + 1;
	d.text[pick_source()] = mc::pick(texts, "text");
	go(d);
}

MC_FAMILY(P15, suffixes, "each pattern followed by every suffix of up to two characters out of 24, and by suffixes of 3 to 12 letters", 0) {
	static const char alphabet[] = "aAbBzZ09-/ ,_.\x7F@[`{\xC1\xE1xST";
	Device d;
	const Pattern& p = patterns[mc::choose(NPATTERNS, "pattern")];
	int src = pick_source();
	std::string s;
	int n = mc::choose(13, "length");
	if (n <= 2)
		for (int i = 0; i < n; i++) s += alphabet[mc::choose(sizeof(alphabet) - 1, "character")];
	else {
		int kind = mc::choose(5, "kind"), bad = mc::choose(n + 1, "other character at");
		for (int i = 0; i < n; i++) s += i == bad ? '5' : kind == 0 ? (char)('A' + i) : kind == 1 ? (char)('a' + i) : kind == 2 ? '-' : kind == 3 ? '/' : 'Z';
	}
	d.text[src] = std::string(p.prefix) + p.model + s;
	go(d);
}

MC_FAMILY(P15, edits, "each pattern and device name with every one-character substitution, insertion, deletion and truncation", 0) {
	static std::vector<std::string> texts = [] {
		std::vector<std::string> v;
		for (auto& p : patterns) v.push_back(usual(p));
		for (auto& t : {"Amlogic Meson8", "Amlogic Meson8B", "hi6210sft", "hi6250", "mapphone_CDMA", "WMT", "sun8i", "BEETHOVEN", "sailfish", "gxl", "gxbaby", "meson6", "hawaii", "rhea", "song", "tegra210_dragon", "ALP", "SUE-AL10", "VTR-L29", "MT6795TURBO", "PXA1L88", "smdk4x12"}) v.push_back(t);
		return v;
	}();
	Device d;
	std::string t = texts[mc::choose((uint32_t)texts.size(), "text")];
	int src = vd_android ? (int)mc::choose(mc::thorough() ? (int)NSOURCES : 4, "source") : HARDWARE;
	if (!mc::thorough() && src == 3) src = CHIPNAME;
	int op = mc::choose(4, "edit");
	size_t at = mc::choose((uint32_t)t.size() + (op == 1), "at");
	// single bytes: all of them, or the ones next to the boundaries of the character classes
	static const char edge[] = "/09:@AZ[`az{ \t,-_i\x7F\x80\xB0\xC1\xE1\xFF" "KkLlxXsSmM5";
	uint32_t c = 0;
	if (op < 2) c = mc::thorough() || !vd_android ? mc::choose(255, "byte") + 1 : (uint8_t)edge[mc::choose(sizeof(edge) - 1, "byte")];
	if (c == '\n') mc::reject();
	if (op == 0) t[at] = (char)c;
	if (op == 1) t.insert(at, 1, (char)c);
	if (op == 2) t.erase(at, 1);
	if (op == 3) t.resize(at);
	d.text[src] = t;
	go(d);
}

MC_FAMILY(P15, letter_case, "each pattern with every choice of upper and lower case for its letters", 0) {
	Device d;
	const Pattern& p = patterns[mc::choose(NPATTERNS, "pattern")];
	int src = pick_source();
	std::string t = usual(p);
	int letters = 0;
	for (auto& c : t)
		if (Scan::letter(c)) {
			bool flip = letters < 10 ? mc::flag("case") : false;
			letters++;
			if (flip) c ^= 32;
		}
	d.text[src] = t;
	go(d);
}

MC_FAMILY(P15, words, "two or three patterns in one text with every separator", 0) {
	static const char* const seps[] = {" ", ", ", ",", "\t", "  ", "-", ":", "", " (", "/", ".", "_", " ,\t "};
	Device d;
	std::string t = usual(patterns[mc::choose(NPATTERNS, "first")]);
	if (mc::flag("words before")) t = "Qualcomm Technologies, Inc " + t;
	t += mc::pick(seps, "separator");
	t += usual(patterns[mc::choose(NPATTERNS, "second")]);
	if (mc::flag("rest")) t += mc::flag("word") ? " board" : ")";
	d.text[vd_android ? mc::choose(2, "source") * PLATFORM : HARDWARE] = t;
	go(d);
}

MC_FAMILY(P15, device_names, "every device name in every source, alone, truncated, extended, in another case and on a Tegra platform, 1 to 8 processors", 0) {
	static std::vector<std::string> texts = [] {
		std::vector<std::string> v;
		for (auto& e : hardware_texts) v.push_back(e.text);
		for (auto& e : tegra_texts) v.push_back(e.text);
		for (auto& e : board_texts) v.push_back(e.text);
		for (auto& e : platform_texts) v.push_back(e.text);
		for (auto& e : amlogic_texts) v.push_back(e.text);
		for (auto& e : huawei_texts) {
			v.push_back(e.text);
			v.push_back(std::string(e.text) + "-L09");
			v.push_back(std::string(e.text) + "-AL00");
			v.push_back(std::string(e.text) + "-aL00");
			v.push_back(std::string(e.text) + "-AT00");
		}
		return v;
	}();
	Device d;
	std::string t = texts[mc::choose((uint32_t)texts.size(), "text")];
	int src = pick_source();
	switch (mc::choose(5, "variant")) {
		case 1: t.pop_back(); break;
		case 2: t += "x"; break;
		case 3: t[0] ^= 32; break;
		case 4: t = " " + t + " "; break;
	}
	static const char* const platforms[] = {"", "tegra", "tegra3", "tegra4", "tegr", "Tegra", "tegrb", "tegra2", "tegra "};
	if (vd_android && src != PLATFORM) d.text[PLATFORM] = mc::pick(platforms, "platform");
	static const uint32_t cores[] = {4, 1, 2, 8};
	d.cores = mc::pick(cores, "processors");
	go(d);
}

MC_FAMILY(P15, lengths, "texts of every length up to 200 with a pattern at every offset class", 0) {
	static const char* const texts[] = {"MSM8974AC", "MT6797", "RK3399", "Kirin 970", "SDM845", "SM8150", "APQ8074PRO-AB"};
	static const char fill[] = {' ', 'x', ',', '\t', 'M', '8'};
	Device d;
	int src = pick_source();
	int total = mc::choose(201, "length");
	std::string t = mc::pick(texts, "text");
	char f = mc::pick(fill, "filler");
	bool front = mc::flag("in front");
	while ((int)t.size() < total) t = front ? f + t : t + f;
	t.resize(std::min((size_t)total, t.size()));
	if (src != HARDWARE && t.size() > 91) mc::reject();
	d.text[src] = t;
	go(d);
}

MC_FAMILY(P15, revisions, "Raspberry Pi revisions of up to 10 digits, every digit at the place of the processor", 0) {
	static const char* const chips[] = {"BCM2708", "BCM2709", "BCM2835", "BCM2711", "BCM9999", "MSM8916", ""};
	Device d;
	d.text[HARDWARE] = mc::pick(chips, "chip");
	int n = mc::choose(12, "length");
	static const char* const fills[] = {"a02082", "000000", "c03111", "ffffff"};
	std::string f = mc::pick(fills, "digits");
	for (int i = 0; i < n; i++) d.revision += f[i % 6];
	if (n == 0) d.phase = mc::choose(8, "memory");
	if (n >= 4) {
		static const char ch[] = "0123456789abcdefABF/:g xyz\xB0";
		d.revision[n - 4] = ch[mc::choose(sizeof(ch) - 1, "processor digit")];
	}
	go(d);
}

MC_FAMILY(P15, fragments, "every sequence of up to 4 (thorough 5) fragments of the patterns", 0) {
	static const char* const parts[] = {"msm", "APQ", "MT", "K", "k", " ", "89", "74", "8", "SDM", "SM", "AB", "-", "rk", "Kirin", "sc", "x15", "sun", "i", "BCM", "Unisoc ", "T", "Samsung ", "Exynos", "universal"};
	Device d;
	int src = vd_android ? (int)mc::choose(3, "source") : HARDWARE;
	if (src == 2) src = CHIPNAME;
	std::string t;
	for (int i = 0; i < (mc::thorough() ? 5 : vd_android ? 3 : 4); i++) {
		uint32_t k = mc::choose(sizeof(parts) / sizeof(*parts) + 1, "fragment");
		if (!k) break;
		t += parts[k - 1];
	}
	d.text[src] = t;
	go(d);
}

// texts which meet in several sources
static const char* const meeting[] = {"", "MSM8996", "MSM8996PRO", "msm8996pro-ab", "MSM8976", "APQ8074", "APQ8074PRO-AB", "SM8150", "MT6795", "MT6795T", "MT6795M", "MT6797", "MT6797TURBO", "exynos7420", "exynos5433", "universal7420", "sc9863", "sc9863a", "sc7731se", "SC7731", "PXA1088", "PXA988", "rk3288", "rk3188s",
	"kirin970", "BAC", "hi6250", "gxl", "gxm", "meson6", "Amlogic Meson8", "lc1860", "lc1860c", "tegra", "tegra4", "mocha", "sailfish", "K00F", "mp523x", "hawaii", "BCM2835", "song", "junk"};
static const uint32_t NMEETING = sizeof(meeting) / sizeof(*meeting);

MC_FAMILY(P15, two_sources, "every pair of properties with every pair of texts out of 43, 1, 2, 4 or 8 processors", 0) {
	if (!vd_android) mc::reject();
	static const uint32_t cores[] = {4, 2, 8, 1};
	Device d;
	int a = mc::choose(NSOURCES, "source"), b = mc::choose(NSOURCES, "source");
	if (a >= b) mc::reject();
	d.text[a] = meeting[mc::choose(NMEETING, "text")];
	d.text[b] = meeting[mc::choose(NMEETING, "text")];
	d.cores = mc::pick(cores, "processors");
	go(d);
}

MC_FAMILY(P15, several_sources, "texts of one vendor in every property at once, or missing from some", 0) {
	if (!vd_android) mc::reject();
	static const char* const qualcomm[] = {"", "MSM8996", "MSM8996PRO", "MSM8996AB", "MSM8916A", "APQ8096S"};
	static const char* const mediatek[] = {"", "MT6795", "MT6795T", "MT6795M", "MT6797TX", "MT6797MXT"};
	static const char* const spreadtrum[] = {"", "sc9863", "sc9863a", "sc7731se", "sc7731ab", "scx15"};
	static const char* const marvell[] = {"", "PXA1088", "PXA988", "PXA1908", "PXA1L88", "x"};
	static const char* const samsung[] = {"", "universal7420", "exynos7420", "exynos5433", "universal5433", "Samsung Exynos7420"};
	static const char* const hisilicon[] = {"", "kirin970", "BAC", "hi6250", "hi3650", "BAC-L23"};
	static const char* const* const vendors[] = {qualcomm, mediatek, spreadtrum, marvell, samsung, hisilicon};
	static const int limit[NSOURCES] = {6, 6, 6, 4, 2, 4, 3};
	Device d;
	uint32_t v = mc::choose(6, "vendor");
	auto* texts = vendors[v];
	for (int i = 0; i < NSOURCES; i++) {
		uint32_t n = (uint32_t)limit[i];
		if (v != 1 && i == MEDIATEK) n = 1;
		if (v != 4 && i == ARCH_) n = 1;
		if (v == 4 && i == ARCH_) n = 4;
		d.text[i] = texts[mc::choose(n, "text")];
	}
	go(d);
}

MC_FAMILY(P15, three_sources, "every triple of properties with every triple of texts out of 43", 1) {
	if (!vd_android) mc::reject();
	Device d;
	int a = mc::choose(NSOURCES, "source"), b = mc::choose(NSOURCES, "source"), c = mc::choose(NSOURCES, "source");
	if (a >= b || b >= c) mc::reject();
	d.text[a] = meeting[mc::choose(NMEETING, "text")];
	d.text[b] = meeting[mc::choose(NMEETING, "text")];
	d.text[c] = meeting[mc::choose(NMEETING, "text")];
	go(d);
}
