// P13 (64-bit ARM) and P14 (32-bit ARM): instruction-set queries.
#include <map>
#include "arm_parts.h"
using namespace arm;
using venv::D;
using venv::env;

typedef std::map<int, bool> Isa;
#define HAS(n) isa[VI_arm_##n]

static void compare(const vdesc& d, const Isa& isa) {
	for (int i = 0; i < VI_COUNT; i++) {
		auto it = isa.find(i);
		bool want = it != isa.end() && it->second;
		MC_CHECK(d.isa[i] == want, "isa", "%s is reported as %d, expected %d", vd_isa_names[i], d.isa[i], want);
	}
}
static bool among(uint32_t midr, std::initializer_list<uint32_t> l) {
	return std::find(l.begin(), l.end(), midr & 0xFF00FFF0) != l.end();
}
enum { C_NONE, C_EXYNOS9810, C_EXYNOS9820, C_SC9863, C_T310, C_UMS312, NCHIP };
static const char* const chip_text[NCHIP] = {"", "SAMSUNG Exynos9810", "SAMSUNG Exynos9820", "sc9863a", "Unisoc T310", "Unisoc UMS312"};

// ---------------------------------------------------------------- 64-bit

static Isa ref64(uint32_t midr, uint32_t h, uint64_t h2, int chip) {
	Isa isa;
	for (int i : {VI_arm_v8, VI_arm_idiv, VI_arm_vfpv3, VI_arm_vfpv3_d32, VI_arm_vfpv3_fp16, VI_arm_vfpv3_fp16_d32, VI_arm_vfpv4, VI_arm_vfpv4_d32, VI_arm_neon, VI_arm_neon_fp16, VI_arm_neon_fma, VI_arm_neon_v8}) isa[i] = true;
	auto b = [&](int n) { return h >> n & 1; };
	auto b2 = [&](int n) { return h2 >> n & 1; };
	HAS(aes) = b(3);
	HAS(pmull) = b(4);
	HAS(sha1) = b(5);
	HAS(sha2) = b(6);
	HAS(crc32) = b(7);
	HAS(atomics) = b(8);
	HAS(jscvt) = b(13);
	HAS(fcma) = b(14);
	HAS(sve) = b(22);
	HAS(fhm) = b(23);
	HAS(sve2) = b2(1);
	HAS(i8mm) = b2(13);
	HAS(bf16) = HAS(neon_bf16) = b2(12) || b2(14);
	HAS(sve_bf16) = b(22) && (b2(12) || b2(14));
	HAS(sme) = b2(23);
	HAS(sme2) = b2(37);
	HAS(sme2p1) = b2(38);
	HAS(sme_i16i32) = b2(39);
	HAS(sme_bi32i32) = b2(40);
	HAS(sme_b16b16) = b2(41);
	HAS(sme_f16f16) = b2(42);
	bool fp16 = b(9) && b(10), rdm = b(12), dot = b(20);
	// cores which have these extensions although old kernels do not say so
	if (among(midr, {0x4100D050, 0x4100D060, 0x4100D0A0, 0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D490, 0x4100D4F0, 0x4800D400, 0x51008020, 0x51008030, 0x51008040, 0x51008050, 0x53000030, 0x53000040})) fp16 = rdm = true;
	if (chip == C_EXYNOS9810) fp16 = rdm = false; // only on some of its cores
	if (among(midr, {0x4100D060, 0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D490, 0x4100D4A0, 0x4100D4F0, 0x4800D400, 0x51008040, 0x51008050, 0x53000030, 0x53000040})) dot = true;
	uint32_t variant = midr >> 20 & 15;
	if (among(midr, {0x4100D050})) dot = variant >= 1;
	if (among(midr, {0x4100D0A0})) dot = variant >= 2;
	HAS(fp16_arith) = HAS(neon_fp16_arith) = fp16;
	HAS(neon_rdm) = rdm;
	HAS(neon_dot) = dot;
	return isa;
}
static void run64(Machine& m, uint32_t h, uint64_t h2, int chip, uint32_t midr, int vl = -1) {
	if (*chip_text[chip]) m.hardware = chip_text[chip];
	mc::commit();
	venv::fresh();
	m.emit();
	env.hwcap = h;
	env.hwcap2 = h2;
	env.sve_vl = vl;
	run();
	compare(D, ref64(midr, h, h2, chip));
	MC_CHECK(D.sve_length == (vl < 0 ? 0u : 8u * (vl & 0xFFFF)), "vector_length", "vector length %u bits, the kernel answered %d", D.sve_length, vl);
}
static void flip(uint32_t* h, uint64_t* h2, uint32_t k) {
	if (k < 32) *h ^= 1u << k;
	else *h2 ^= 1ull << (k - 32);
}
static uint32_t part64(uint32_t k, uint32_t variant) {
	return parts[k].impl << 24 | variant << 20 | 0xF0000 | parts[k].part << 4 | 1;
}
static const uint32_t NP = sizeof(parts) / sizeof(*parts);

MC_FAMILY(P13, bits, "every set of up to two (thorough: three) of the 96 capability bits and every complement of one, five identities, three chipsets", 0) {
	static const uint32_t ids[] = {A53, A55, A78, 0x410FD050, 0};
	Machine m;
	uint32_t h = 0;
	uint64_t h2 = 0;
	uint32_t n = mc::choose(mc::thorough() ? 4 : 3, "bits"), last = 0;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = last + mc::choose(96 - last, "bit");
		flip(&h, &h2, k);
		last = k + 1;
		if (last == 96 && i + 1 < n) mc::reject();
	}
	if (mc::flag("complement")) h = ~h, h2 = ~h2;
	uint32_t midr = mc::pick(ids, "identity");
	int chip = (int)mc::choose(3, "chipset");
	m.add(0, midr, 0);
	if (!midr) m.procs.back().known = 0;
	run64(m, h, h2, chip, midr);
}
MC_FAMILY(P13, identities, "11 implementers, every part number, two variants; no and all capability bits", 0) {
	static const uint32_t impl[] = {'A', 'B', 'C', 'H', 'N', 'P', 'Q', 'S', 'V', 'D', 0};
	Machine m;
	uint32_t midr = mc::pick(impl, "implementer") << 24 | mc::choose(2, "variant") << 20 | 0xF0000 | mc::choose(4096, "part") << 4;
	bool all = mc::flag("all bits");
	m.add(0, midr, 0);
	run64(m, all ? ~0u : 0, all ? ~0ull : 0, C_NONE, midr);
}
MC_FAMILY(P13, exceptions, "every recognised core type and variant 0-3 (thorough: all), every subset of the five bits that have exceptions, six chipsets", 0) {
	static const int bit[] = {9, 10, 12, 20, 23};
	Machine m;
	uint32_t midr = part64(mc::choose(NP, "core type"), mc::choose(mc::thorough() ? 16 : 4, "variant"));
	uint32_t h = 0;
	for (int b : bit)
		if (mc::flag("bit")) h |= 1u << b;
	int chip = (int)mc::choose(NCHIP, "chipset");
	m.add(0, midr, 0);
	run64(m, h, 0, chip, midr);
}
MC_FAMILY(P13, vector_length, "every vector length in bytes, with and without inheritance flags, and failure; with and without the capability bit", 0) {
	Machine m;
	m.add(0, A53, 0);
	bool cap = mc::flag("capability");
	int vl = -1;
	if (!mc::flag("failure")) {
		static const int f[] = {0, 1 << 17, 1 << 18, 3 << 17};
		vl = (int)mc::choose(65536, "length") | mc::pick(f, "flags");
	}
	run64(m, cap ? 1u << 22 : 0, 0, C_NONE, A53, vl);
}
MC_FAMILY(P13, mixed, "two or three processors with every combination of 6 identities or none: the exceptions follow the last identity reported", 0) {
	static const uint32_t ids[] = {A53, A55, 0x410FD050, A76, 0x531F0020, 0x51DF805E, 0};
	Machine m;
	uint32_t n = 2 + mc::choose(2, "processors"), last = 0;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t midr = mc::pick(ids, "identity");
		m.add(i, midr, (int)i);
		if (!midr) {
			m.procs.back().known = 0;
			m.procs.back().listed = mc::flag("listed");
		} else
			last = midr;
	}
	bool all = mc::flag("all bits");
	m.tail = "Serial\t: 0\n";
	run64(m, all ? ~0u : 0, all ? ~0ull : 0, C_NONE, last);
}

// ---------------------------------------------------------------- 32-bit

struct Arch {
	const char* text;
	uint32_t version;
	bool t, e, j;
};
static const Arch archs[] = {{"4", 4, 0, 0, 0}, {"4T", 4, 1, 0, 0}, {"5T", 5, 1, 0, 0}, {"5TE", 5, 1, 1, 0}, {"5TEJ", 5, 1, 1, 1}, {"6", 6, 0, 0, 0}, {"6TEJ", 6, 1, 1, 1}, {"7", 7, 0, 0, 0}, {"8", 8, 0, 0, 0}, {"AArch64", 8, 0, 0, 0}, {"9", 9, 0, 0, 0}, {nullptr, 0, 0, 0, 0}};
static const uint32_t NARCH = sizeof(archs) / sizeof(*archs);

enum { F_THUMB = 2, F_VFP = 6, F_EDSP = 7, F_JAVA = 8, F_IWMMXT = 9, F_NEON = 12, F_VFPV3 = 13, F_VFPV3D16 = 14, F_VFPV4 = 16, F_IDIVA = 17, F_IDIVT = 18, F_VFPD32 = 19 };

static Isa ref32(uint32_t midr, const Arch& a, uint32_t h, uint32_t h2, int chip, uint32_t fpsid, uint32_t wcid) {
	Isa isa;
	auto b = [&](int n) { return (h >> n & 1) != 0; };
	uint32_t v = a.version;
	HAS(aes) = h2 & 1;
	HAS(pmull) = h2 >> 1 & 1;
	HAS(sha1) = h2 >> 2 & 1;
	HAS(sha2) = h2 >> 3 & 1;
	HAS(crc32) = h2 >> 4 & 1;
	if (h2 & 0x1F) v = std::max(v, 8u); // only ARMv8 has these
	bool vfp3 = false, d32 = false, fp16 = false, fma = false, neon = false;
	if (v >= 8) {
		HAS(v5e) = HAS(v6) = HAS(v6k) = HAS(v7) = HAS(v7mp) = HAS(v8) = HAS(thumb) = HAS(thumb2) = HAS(idiv) = true;
		vfp3 = d32 = fp16 = fma = neon = true;
		bool arith = among(midr, {0x4100D050, 0x4100D0A0, 0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D410, 0x4100D440, 0x4100D460, 0x4100D470, 0x4100D480, 0x4100D490, 0x4100D4D0, 0x4100D4E0, 0x4100D4F0, 0x4800D400, 0x51008020, 0x51008030, 0x51008040,
			0x51008050, 0x53000030, 0x53000040});
		if (chip == C_EXYNOS9810) arith = false;
		HAS(fp16_arith) = HAS(neon_fp16_arith) = HAS(neon_rdm) = arith;
		bool dot = among(midr, {0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D410, 0x4100D440, 0x4100D460, 0x4100D470, 0x4100D480, 0x4100D490, 0x4100D4D0, 0x4100D4E0, 0x4100D4F0, 0x4800D400, 0x51008040, 0x51008050, 0x53000030, 0x53000040});
		if (among(midr, {0x4100D050})) dot = (midr >> 20 & 15) >= 1;
		if (among(midr, {0x4100D0A0})) dot = (midr >> 20 & 15) >= 2;
		if (chip == C_SC9863 || chip == C_T310 || chip == C_UMS312) dot = false;
		HAS(neon_dot) = dot;
		HAS(neon_v8) = true;
	} else {
		bool arm11 = (midr & 0xFF00F000) == 0x4100B000;
		if (v == 7 && arm11) v = 6;
		bool v7bits = b(F_VFPV3) || b(F_VFPV3D16) || b(F_VFPD32) || b(F_VFPV4) || b(F_NEON) || b(F_IDIVA) || b(F_IDIVT);
		if (v7bits) v = std::max(v, 7u);
		bool idiv = b(F_IDIVA) && b(F_IDIVT);
		bool krait = among(midr, {0x510004D0, 0x510006F0});
		HAS(v5e) = v >= 6 || b(F_EDSP) || a.e;
		HAS(v6) = v >= 6;
		HAS(v6k) = HAS(v7) = v >= 7;
		HAS(v7mp) = v >= 7 && (idiv || krait || among(midr, {0x4100C050, 0x4100C090, 0x510002D0}));
		HAS(thumb) = b(F_THUMB) || a.t;
		HAS(thumb2) = HAS(thumb) && (v >= 7 || among(midr, {0x4100B560}));
		HAS(idiv) = idiv || krait;
		uint32_t wtype = wcid >> 8 & 0xFF;
		HAS(wmmx) = b(F_IWMMXT) && wtype >= 0x10;
		HAS(wmmx2) = b(F_IWMMXT) && wtype >= 0x20;
		neon = b(F_NEON);
		bool v3bits = b(F_VFPV3) || b(F_VFPV3D16) || b(F_VFPD32) || b(F_VFPV4) || neon;
		vfp3 = v3bits || (b(F_VFP) && v >= 7);
		HAS(vfpv2) = b(F_VFP) && !vfp3 && (fpsid >> 16 & 0x7F) >= 1;
		d32 = b(F_VFPD32) || neon;
		fma = b(F_VFPV4);
		fp16 = fma || among(midr, {0x4100C090, 0x510000F0, 0x510002D0});
	}
	HAS(vfpv3) = vfp3;
	HAS(vfpv3_d32) = vfp3 && d32;
	HAS(vfpv3_fp16) = vfp3 && fp16;
	HAS(vfpv3_fp16_d32) = vfp3 && fp16 && d32;
	HAS(vfpv4) = vfp3 && fma;
	HAS(vfpv4_d32) = vfp3 && fma && d32;
	HAS(neon) = neon;
	HAS(neon_fp16) = neon && fp16;
	HAS(neon_fma) = neon && fma;
	return isa;
}
struct In32 {
	uint32_t midr = A7, h = 0, h2 = 0, fpsid = 0x41012000, wcid = 0;
	const Arch* arch = &archs[7];
	int chip = 0;
};
static void setup32(Machine& m, const In32& in) {
	if (*chip_text[in.chip]) m.hardware = chip_text[in.chip];
	m.add(0, in.midr, 0);
	if (!in.midr) m.procs.back().known = 0;
	m.procs.back().known &= ~ARCH;
	if (in.arch->text) m.procs.back().extra = venv::fmt("CPU architecture: %s\n", in.arch->text);
	m.tail = "Serial\t: 0\n";
}
// the identity counts only if it is completely reported
static uint32_t effective(const In32& in) {
	return in.midr && in.arch->text ? in.midr : 0;
}
static void finish32(const In32& in) {
	env.fpsid = in.fpsid;
	env.wcid = in.wcid;
	run();
	compare(D, ref32(effective(in), *in.arch, in.h, in.h2, in.chip, in.fpsid, in.wcid));
	// what the architecture implies
	auto& x = D.isa;
	static const int implies[][2] = {{VI_arm_thumb2, VI_arm_thumb}, {VI_arm_v6, VI_arm_v5e}, {VI_arm_v6k, VI_arm_v6}, {VI_arm_v7, VI_arm_v6k}, {VI_arm_v7mp, VI_arm_v7}, {VI_arm_v8, VI_arm_v7mp}, {VI_arm_vfpv3_d32, VI_arm_vfpv3}, {VI_arm_vfpv4, VI_arm_vfpv3_fp16}, {VI_arm_wmmx2, VI_arm_wmmx}, {VI_arm_neon, VI_arm_vfpv3_d32},
		{VI_arm_neon_fma, VI_arm_neon_fp16}, {VI_arm_neon_v8, VI_arm_neon_fma}, {VI_arm_neon_dot, VI_arm_neon_v8}, {VI_arm_neon_rdm, VI_arm_neon_v8}, {VI_arm_neon_fp16_arith, VI_arm_neon_v8}, {VI_arm_neon, VI_arm_v7}};
	for (auto& p : implies) MC_CHECK(!x[p[0]] || x[p[1]], "implication", "%s is reported without %s", vd_isa_names[p[0]], vd_isa_names[p[1]]);
}
static void run32(const In32& in) {
	Machine m;
	setup32(m, in);
	mc::commit();
	venv::fresh();
	m.emit();
	env.hwcap = in.h;
	env.hwcap2 = in.h2;
	finish32(in);
}

static const uint32_t ids32[] = {A7, 0x410FB764, 0x410FB560, 0x411FC090, 0x510F00F2, 0x511F02D2, 0x512F04D0, 0x510F06F2, A53, 0};

MC_FAMILY(P14, bits, "every set of up to two of the 64 capability bits and complements of one, 12 architecture texts, 10 identities (thorough: three bits)", 0) {
	In32 in;
	uint32_t n = mc::choose(mc::thorough() ? 4 : 3, "bits"), last = 0;
	uint64_t w = 0;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = last + mc::choose(64 - last, "bit");
		w |= 1ull << k;
		last = k + 1;
		if (last == 64 && i + 1 < n) mc::reject();
	}
	if (n < 2 && mc::flag("complement")) w = ~w;
	in.h = (uint32_t)w;
	in.h2 = (uint32_t)(w >> 32);
	in.arch = &archs[mc::choose(NARCH, "architecture")];
	in.midr = mc::pick(ids32, "identity");
	run32(in);
}
MC_FAMILY(P14, subsets, "every subset of the twelve meaningful capability bits, seven architecture texts, four identities (thorough: all)", 0) {
	static const int bit[] = {F_THUMB, F_VFP, F_EDSP, F_IWMMXT, F_NEON, F_VFPV3, F_VFPV3D16, F_VFPV4, F_IDIVA, F_IDIVT, F_VFPD32, F_JAVA};
	In32 in;
	uint32_t s = mc::choose(4096, "subset");
	for (int i = 0; i < 12; i++)
		if (s >> i & 1) in.h |= 1u << bit[i];
	in.arch = &archs[mc::choose(NARCH, "architecture")];
	uint32_t k = mc::choose(10, "identity");
	if (!mc::thorough() && (k == 2 || k == 4 || k == 5 || k == 7 || k == 8)) mc::reject();
	in.midr = ids32[k];
	in.wcid = 0x2000;
	run32(in);
}
MC_FAMILY(P14, coprocessors, "every value of the coprocessor type and of the floating-point subarchitecture, with and without the capability bits", 0) {
	In32 in;
	static const uint32_t av[] = {3, 4, 6, 7, 8};
	in.arch = &archs[mc::pick(av, "architecture")];
	in.midr = mc::flag("XScale") ? 0x69056826 : 0x4107B764;
	if (mc::flag("WMMX")) in.h |= 1 << F_IWMMXT;
	if (mc::flag("VFP")) in.h |= 1 << F_VFP;
	if (mc::flag("which")) {
		in.wcid = mc::choose(256, "WCID") << 8 | mc::choose(4, "low bits") * 0x55 | 0x69050000;
		if (in.h >> F_VFP & 1) mc::reject();
	} else {
		in.fpsid = mc::choose(256, "subarchitecture") << 16 | 0x410000B4;
	}
	// architecture text and identity register agree on real machines; the register's architecture field is not compared
	run32(in);
}
MC_FAMILY(P14, identities, "11 implementers, every part number, two variants on ARMv8 and on ARMv7 with no capability bits", 0) {
	static const uint32_t impl[] = {'A', 'B', 'C', 'H', 'N', 'P', 'Q', 'S', 'V', 'i', 0};
	In32 in;
	in.midr = mc::pick(impl, "implementer") << 24 | mc::choose(2, "variant") << 20 | 0xF0000 | mc::choose(4096, "part") << 4;
	in.arch = &archs[mc::flag("ARMv8") ? 8 : 7];
	run32(in);
}
MC_FAMILY(P14, exceptions, "every recognised core type and variant, six chipsets, four architecture texts", 0) {
	static const uint32_t av[] = {7, 8, 9, 6};
	In32 in;
	in.midr = part64(mc::choose(NP, "core type"), mc::choose(16, "variant"));
	in.chip = (int)mc::choose(NCHIP, "chipset");
	in.arch = &archs[mc::pick(av, "architecture")];
	run32(in);
}
MC_FAMILY(P14, architecture_text, "every architecture text of up to four characters of an alphabet of ten, and of seven characters differing from AArch64 in one", 0) {
	static const char abc[] = "04578TEJA ";
	std::string s;
	if (mc::flag("AArch64-like")) {
		s = "AArch64";
		uint32_t p = mc::choose(7, "position");
		s[p] = (char)(32 + mc::choose(95, "character"));
		if (s[0] == ' ' || s[6] == ' ') mc::reject();
	} else {
		uint32_t n = 1 + mc::choose(4, "length");
		for (uint32_t i = 0; i < n; i++) s += abc[mc::choose(10, "character")];
		if (s[0] == ' ' || s.back() == ' ') mc::reject();
	}
	Arch a = {s.c_str(), 0, 0, 0, 0};
	uint32_t v = 0;
	size_t i = 0;
	for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0');
	if (s == "AArch64") v = 8;
	else if (i > 0 && v > 0) {
		for (; i < s.size(); i++) a.t |= s[i] == 'T', a.e |= s[i] == 'E', a.j |= s[i] == 'J';
	}
	a.version = v;
	In32 in;
	in.arch = &a;
	in.midr = A7; // has no say in these answers
	Machine m;
	setup32(m, in);
	mc::commit();
	venv::fresh();
	m.emit();
	finish32(in);
}

static const char* const names[] = {"swp", "half", "thumb", "26bit", "fastmult", "fpa", "vfp", "edsp", "java", "iwmmxt", "crunch", "thumbee", "neon", "vfpv3", "vfpv3d16", "tls", "vfpv4", "idiva", "idivt", "vfpd32", "lpae", "evtstrm"};
static const char* const names2[] = {"aes", "pmull", "sha1", "sha2", "crc32"};
static std::string feature_text(uint32_t h, uint32_t h2) {
	std::string s;
	for (int i = 0; i < 22; i++)
		if (h >> i & 1) s += std::string(s.empty() ? "" : " ") + names[i];
	for (int i = 0; i < 5; i++)
		if (h2 >> i & 1) s += std::string(s.empty() ? "" : " ") + names2[i];
	return s;
}
MC_FAMILY(P14, text, "Android without getauxval and auxiliary vector: every pair of the 27 feature names, per-processor lists are intersected; one to three processors", 0) {
	if (!vd_android) mc::reject();
	uint32_t a = mc::choose(27, "first name"), b = mc::choose(27, "second name");
	uint32_t n = 1 + mc::choose(3, "processors");
	uint64_t w = 1ull << a | 1ull << b;
	uint32_t lack = mc::choose(3, "last processor lacks"); // nothing, the first, has no list
	uint32_t base = mc::choose(2, "base") ? 1u << F_THUMB | 1u << F_VFP : 0;
	uint32_t av = mc::choose(3, "architecture");
	Machine m;
	In32 in;
	in.arch = &archs[av == 0 ? 3 : av == 1 ? 7 : 5];
	uint64_t eff = w;
	for (uint32_t i = 0; i < n; i++) {
		m.add(i, A7, 0);
		auto& p = m.procs.back();
		p.known &= ~ARCH;
		uint64_t mine = w;
		if (i + 1 == n && lack == 1) mine &= ~(1ull << a);
		std::string f = feature_text((uint32_t)(mine & 0x3FFFFF) | base, (uint32_t)(mine >> 22));
		p.extra = venv::fmt("CPU architecture: %s\n", in.arch->text);
		if (!(i + 1 == n && lack == 2 && n > 1) && !f.empty()) {
			p.extra += "Features\t: " + f + "\n";
			eff &= mine;
		}
	}
	in.h = (uint32_t)(eff & 0x3FFFFF) | base;
	in.h2 = (uint32_t)(eff >> 22);
	// without any list there is nothing to report
	if (lack == 1 && a == b && !base) mc::reject();
	mc::commit();
	venv::fresh();
	m.emit();
	env.have_getauxval = false;
	env.hwcap = 0xFFFFFFFF;
	env.hwcap2 = 0xFFFFFFFF;
	finish32(in);
}
MC_FAMILY(P14, auxiliary_vector, "Android without getauxval: every order of three entries and positions among others of the auxiliary vector, five values; the processors' feature lists do not matter", 0) {
	if (!vd_android) mc::reject();
	static const uint32_t val[] = {0, 1u << F_NEON, 1u << F_IDIVA | 1u << F_IDIVT, 0xFFFFFFFF, 1u << F_VFP};
	In32 in;
	Machine m;
	in.h = mc::pick(val, "first word");
	in.h2 = mc::choose(4, "second word");
	uint32_t order = mc::choose(2, "order"), pad1 = mc::choose(3, "entries before"), pad2 = mc::choose(3, "entries between"), pad3 = mc::choose(2, "entries after");
	uint32_t have = mc::choose(4, "entries");
	if (!(have & 1)) in.h = 0;
	if (!(have & 2)) in.h2 = 0;
	std::string s;
	auto put = [&](uint32_t t, uint32_t v) {
		s.append((char*)&t, 4);
		s.append((char*)&v, 4);
	};
	for (uint32_t i = 0; i < pad1; i++) put(6 + i, 0xFFFFFFFF);
	for (int k = 0; k < 2; k++) {
		bool second = (k == 1) != (order == 1);
		if (second ? have & 2 : have & 1) put(second ? 26 : 16, second ? in.h2 : in.h);
		if (k == 0)
			for (uint32_t i = 0; i < pad2; i++) put(16 + 256 * (i + 1), 0xFFFFFFFF);
	}
	for (uint32_t i = 0; i < pad3; i++) put(0, 0);
	setup32(m, in);
	m.procs.back().extra += "Features\t: neon vfpv4 idiva idivt aes\n";
	mc::commit();
	venv::fresh();
	m.emit();
	env.file("/proc/self/auxv", s);
	env.have_getauxval = false;
	env.hwcap = 0xFFFFFFFF;
	finish32(in);
}
