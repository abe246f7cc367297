// P06 (instruction-set queries) and P07 (vendor and microarchitecture) on x86.
#include <cpuinfo.h>
#include "x86_model.h"
using venv::D;
using venv::env;
using venv::Regs;

#if VARCH_i386
static const bool is64 = false;
#else
static const bool is64 = true;
#endif

// ---------------------------------------------------------------- P06

enum Reg { L1C, L1D_, XC, XD, S7B, S7C, S7D, S71A, S71D, S24B, X8B, NREG };
enum Gate { ANY, AVX, AVX512, MPX, TILE };
struct Feature {
	int query;
	int reg;
	int bit;
	Gate gate;
};
// one bit of one register, behind one kind of register state
static const Feature features[] = {
	{VI_x86_rdtscp, XD, 27, ANY}, {VI_x86_rdpid, S7C, 22, ANY}, {VI_x86_clzero, X8B, 0, ANY}, {VI_x86_mwait, L1C, 3, ANY}, {VI_x86_mwaitx, XC, 29, ANY}, {VI_x86_xsave, L1C, 26, ANY},
	{VI_x86_3dnow, XD, 31, ANY}, {VI_x86_3dnow_plus, XD, 30, ANY}, {VI_x86_prefetchwt1, S7C, 0, ANY}, {VI_x86_sse3, L1C, 0, ANY}, {VI_x86_ssse3, L1C, 9, ANY}, {VI_x86_sse4_1, L1C, 19, ANY},
	{VI_x86_sse4_2, L1C, 20, ANY}, {VI_x86_sse4a, XC, 6, ANY}, {VI_x86_misaligned_sse, XC, 7, ANY}, {VI_x86_avx, L1C, 28, AVX}, {VI_x86_avxvnni, S71A, 4, AVX}, {VI_x86_fma3, L1C, 12, AVX},
	{VI_x86_fma4, XC, 16, AVX}, {VI_x86_xop, XC, 11, AVX}, {VI_x86_f16c, L1C, 29, AVX}, {VI_x86_avx2, S7B, 5, AVX}, {VI_x86_avx512f, S7B, 16, AVX512}, {VI_x86_avx512pf, S7B, 26, AVX512},
	{VI_x86_avx512er, S7B, 27, AVX512}, {VI_x86_avx512cd, S7B, 28, AVX512}, {VI_x86_avx512dq, S7B, 17, AVX512}, {VI_x86_avx512bw, S7B, 30, AVX512}, {VI_x86_avx512vl, S7B, 31, AVX512},
	{VI_x86_avx512ifma, S7B, 21, AVX512}, {VI_x86_avx512vbmi, S7C, 1, AVX512}, {VI_x86_avx512vbmi2, S7C, 6, AVX512}, {VI_x86_avx512bitalg, S7C, 12, AVX512}, {VI_x86_avx512vpopcntdq, S7C, 14, AVX512},
	{VI_x86_avx512vnni, S7C, 11, AVX512}, {VI_x86_avx512bf16, S71A, 5, AVX512}, {VI_x86_avx512fp16, S7D, 23, AVX512}, {VI_x86_avx512vp2intersect, S7D, 8, AVX512}, {VI_x86_avx512_4vnniw, S7D, 2, AVX512},
	{VI_x86_avx512_4fmaps, S7D, 3, AVX512}, {VI_x86_amx_bf16, S7D, 22, TILE}, {VI_x86_amx_tile, S7D, 24, TILE}, {VI_x86_amx_int8, S7D, 25, TILE}, {VI_x86_amx_fp16, S71A, 21, TILE},
	{VI_x86_avx_vnni_int8, S71D, 4, AVX}, {VI_x86_avx_vnni_int16, S71D, 10, AVX}, {VI_x86_avx_ne_convert, S71D, 5, AVX}, {VI_x86_avx10_1, S71D, 19, AVX512}, {VI_x86_hle, S7B, 4, ANY}, {VI_x86_rtm, S7B, 11, ANY},
	{VI_x86_mpx, S7B, 14, MPX}, {VI_x86_clwb, S7B, 24, ANY}, {VI_x86_movbe, L1C, 22, ANY}, {VI_x86_lzcnt, XC, 5, ANY}, {VI_x86_popcnt, L1C, 23, ANY}, {VI_x86_tbm, XC, 21, ANY}, {VI_x86_bmi, S7B, 3, ANY},
	{VI_x86_bmi2, S7B, 8, ANY}, {VI_x86_adx, S7B, 19, ANY}, {VI_x86_aes, L1C, 25, ANY}, {VI_x86_vaes, S7C, 9, AVX}, {VI_x86_pclmulqdq, L1C, 1, ANY}, {VI_x86_vpclmulqdq, S7C, 10, AVX}, {VI_x86_gfni, S7C, 8, ANY},
	{VI_x86_rdrand, L1C, 30, ANY}, {VI_x86_rdseed, S7B, 18, ANY}, {VI_x86_sha, S7B, 29, ANY}};

enum V { vINTEL, vAMD, vHYGON, vVIA, vCYRIX, vNSC, vOTHER };
struct Cpu {
	V vendor = vINTEL;
	uint32_t signature = 0x000906EA;
	uint32_t max_base = 0x24, max_ext = 0x80000008;
	uint32_t r[NREG] = {};
	uint64_t xcr0 = 0, xcr0_valid = 0;
	uint32_t beyond = 0; // what leaves which do not exist answer
};
static const char* vendor_string(V v) {
	static const char* s[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "CyrixInstead", "Geode by NSC", "NotAVendor!!"};
	return s[v];
}
static void emit(const Cpu& c) {
	x86::Machine m;
	m.procs = {{0, 0}};
	m.topo = x86::NO_TOPOLOGY;
	m.emit();
	env.cpuid.clear();
	const char* s = vendor_string(c.vendor);
	Regs v;
	v.a = c.max_base;
	memcpy(&v.b, s, 4);
	memcpy(&v.d, s + 4, 4);
	memcpy(&v.c, s + 8, 4);
	env.leaf(0, 0, v);
	env.leaf(0x80000000, 0, {c.max_ext, 0, 0, 0});
	uint32_t mb = c.max_base, me = c.max_ext;
	if (mb >= 1) env.leaf(1, 0, {c.signature, 0x800, c.r[L1C], c.r[L1D_]});
	for (uint32_t l = 2; l <= 0x24 && l <= mb; l++) env.leaf(l, 0, {0, 0, 0, 0});
	if (mb >= 4) env.leaf(4, 0, {0, 0, 0, 0});
	if (mb >= 7) {
		env.leaf(7, 0, {1, c.r[S7B], c.r[S7C], c.r[S7D]});
		env.leaf(7, 1, {c.r[S71A], 0, 0, c.r[S71D]});
	}
	if (mb >= 0xD) env.leaf(0xD, 0, {(uint32_t)c.xcr0_valid, 0, 0, (uint32_t)(c.xcr0_valid >> 32)});
	if (mb >= 0x24) env.leaf(0x24, 0, {0, c.r[S24B], 0, 0});
	if (me >= 0x80000001) env.leaf(0x80000001, 0, {0, 0, c.r[XC], c.r[XD]});
	for (uint32_t l = 0x80000002; l <= me && l < 0x80000008; l++) env.leaf(l, 0, {0, 0, 0, 0});
	if (me >= 0x80000008) env.leaf(0x80000008, 0, {0, c.r[X8B], 0, 0});
	env.leaf(0xC0000000, 0, {0, 0, 0, 0});
	uint32_t b = c.beyond;
	env.cpuid_default = [b, mb](uint32_t leaf, uint32_t sub) {
		// enumerating leaves must end even in garbage
		if (leaf == 4 || leaf == 0xB || leaf == 0x8000001D) return Regs{b & ~31u, b, b & ~0xFF00u, b};
		if (leaf <= mb && sub > 0) return Regs{0, 0, 0, 0};
		return Regs{b, b, b, b};
	};
	env.xcr0 = c.xcr0;
}
static void expected(const Cpu& c, uint8_t e[VI_COUNT]) {
	memset(e, 0, VI_COUNT);
	uint32_t r[NREG];
	memcpy(r, c.r, sizeof r);
	if (c.max_base < 1) r[L1C] = r[L1D_] = 0;
	if (c.max_base < 7) r[S7B] = r[S7C] = r[S7D] = r[S71A] = r[S71D] = 0;
	if (c.max_base < 0x24) r[S24B] = 0;
	if (c.max_ext < 0x80000001) r[XC] = r[XD] = 0;
	if (c.max_ext < 0x80000008) r[X8B] = 0;
	uint64_t st = 0;
	if ((r[L1C] & 0x0C000000) == 0x0C000000) st = c.xcr0 & (c.max_base >= 0xD ? c.xcr0_valid : 0);
	bool gate[5] = {true, (st & 6) == 6, (st & 0xE6) == 0xE6, (st & 0x18) == 0x18, (st & 0x60000) == 0x60000};
	auto bit = [&](int reg, int b) { return (r[reg] >> b & 1) != 0; };
	bool any = c.max_base >= 1; // without leaf 1 the processor is not identified at all
	for (auto& f : features) e[f.query] = any && bit(f.reg, f.bit) && gate[f.gate];
	e[VI_x86_avx10_2] = e[VI_x86_avx10_1] && (r[S24B] & 0xFF) >= 2;
	e[VI_x86_xtest] = e[VI_x86_hle] || e[VI_x86_rtm];
	bool cyrix = !is64 && (c.vendor == vCYRIX || c.vendor == vNSC);
	uint32_t d = r[L1D_] | r[XD];
	e[VI_x86_fxsave] = any && !cyrix && (d >> 24 & 1);
	bool amd = c.vendor == vAMD || c.vendor == vHYGON;
	uint32_t pm = amd ? 0xE0000000 : 0xC0000000;
	e[VI_x86_prefetchw] = any && (bit(XC, 8) || (r[XD] & pm));
	e[VI_x86_prefetch] = any && c.vendor != vINTEL && ((amd && bit(XC, 8)) || (r[XD] & pm));
	if (is64) {
		e[VI_x86_rdtsc] = e[VI_x86_fpu] = e[VI_x86_mmx] = e[VI_x86_mmx_plus] = e[VI_x86_daz] = e[VI_x86_sse] = e[VI_x86_sse2] = e[VI_x86_cmov] = e[VI_x86_cmpxchg8b] = true;
		e[VI_x86_cmpxchg16b] = any && bit(L1C, 13);
		e[VI_x86_lahf_sahf] = any && bit(XC, 0);
	} else {
		e[VI_x86_rdtsc] = any && (d >> 4 & 1);
		e[VI_x86_fpu] = any && (d & 1);
		e[VI_x86_mmx] = any && (d >> 23 & 1);
		e[VI_x86_mmx_plus] = any && (bit(L1D_, 25) || bit(XD, 22));
		e[VI_x86_sse] = any && bit(L1D_, 25);
		e[VI_x86_sse2] = any && bit(L1D_, 26);
		e[VI_x86_cmov] = any && (d >> 15 & 1);
		e[VI_x86_cmpxchg8b] = any && (d >> 8 & 1);
		e[VI_x86_lahf_sahf] = true;
		// the mask comes from FXSAVE on the processor which runs the check; every one of this century has the bit
		e[VI_x86_daz] = e[VI_x86_sse3] || (e[VI_x86_sse] && e[VI_x86_fxsave]);
		e[VI_x86_3dnow_geode] = e[VI_x86_3dnow_plus] && c.vendor == vAMD && ((c.signature >> 4 & 0xFF) == 0x5A);
	}
}
static void run_isa(const Cpu& c) {
	mc::commit();
	venv::fresh();
	emit(c);
	x86::run(x86::Machine());
	uint8_t e[VI_COUNT];
	expected(c, e);
	for (int q = 0; q < VI_COUNT; q++) MC_CHECK(D.isa[q] == e[q], vd_isa_names[q], "%s answers %d, the processor description says %d", vd_isa_names[q], D.isa[q], e[q]);
	bool osxsave = c.max_base >= 1 && (c.r[L1C] >> 27 & 1);
	MC_CHECK(env.n_xgetbv == 0 || osxsave, "xgetbv", "XGETBV is executed although the operating system does not support it");
}
static const uint64_t FULL = 0x602E7; // x87 SSE AVX AVX512 PKRU tiles
static const uint64_t FULLMPX = FULL | 0x18;

MC_FAMILY(P06, bits, "every feature register bit and every pair of bits (11 registers) on an all-zero and an all-one background, with all and with no extended register state enabled", 0) {
	Cpu c;
	bool ones = mc::flag("background");
	c.vendor = mc::flag("vendor") ? vAMD : vINTEL;
	bool state = mc::flag("register state enabled");
	uint32_t a = mc::choose(NREG * 32, "bit"), b = mc::choose(NREG * 32, "other bit");
	if (b < a) mc::reject();
	for (auto& x : c.r) x = ones ? 0xFFFFFFFF : 0;
	c.r[L1C] &= ~(1u << 21); // x2APIC: another property
	c.r[L1D_] &= ~(1u << 28);
	c.r[L1C] |= 0x0C000000;
	c.r[a / 32] ^= 1u << a % 32;
	if (b != a) c.r[b / 32] ^= 1u << b % 32;
	c.xcr0_valid = FULLMPX;
	c.xcr0 = state ? FULLMPX : 1;
	run_isa(c);
}

MC_FAMILY(P06, register_state, "all features advertised: every combination of XSAVE, OSXSAVE and the nine XCR0 bits that matter, every single bit (or all) missing in leaf D, maximum leaves around 7, D and 24", 0) {
	static const uint32_t MB[] = {6, 7, 0xC, 0xD, 0x23, 0x24};
	static const int bits[] = {1, 2, 3, 4, 5, 6, 7, 17, 18};
	Cpu c;
	for (auto& x : c.r) x = 0xFFFFFFFF;
	c.r[L1C] &= ~(1u << 21 | 1u << 26 | 1u << 27);
	c.r[L1D_] &= ~(1u << 28);
	c.max_base = mc::pick(MB, "maximum leaf");
	c.r[L1C] |= mc::choose(4, "XSAVE, OSXSAVE") << 26;
	uint32_t x = mc::choose(512, "XCR0");
	uint32_t miss = mc::choose(11, "leaf D lacks");
	c.xcr0 = 1;
	for (int k = 0; k < 9; k++)
		if (x >> k & 1) c.xcr0 |= 1ull << bits[k];
	c.xcr0_valid = FULLMPX;
	if (miss < 9) c.xcr0_valid &= ~(1ull << bits[miss]);
	if (miss == 9) c.xcr0_valid = 1;
	c.xcr0 &= c.xcr0_valid | 1;
	run_isa(c);
}

MC_FAMILY(P06, leaves, "maximum basic leaf x maximum extended leaf x seven vendors, features advertised or not, with the leaves beyond the maximum answering zeros, ones or alternating bits, with and without register state", 0) {
	static const uint32_t MB[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0xA, 0xB, 0xC, 0xD, 0xE, 0x14, 0x1F, 0x23, 0x24, 0x25, 0x7FFFFFFF};
	static const uint32_t ME[] = {0, 1, 0x24, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000002, 0x80000004, 0x80000007, 0x80000008, 0x80000009, 0x8000001D, 0x80000021};
	static const uint32_t G[] = {0, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA};
	static const V VS[] = {vINTEL, vAMD, vHYGON, vVIA, vCYRIX, vNSC, vOTHER};
	Cpu c;
	c.vendor = mc::pick(VS, "vendor");
	c.max_base = mc::pick(MB, "maximum leaf");
	c.max_ext = mc::pick(ME, "maximum extended leaf");
	c.beyond = mc::pick(G, "missing leaves");
	uint32_t on = mc::choose(3, "features");
	for (auto& x : c.r) x = on == 1 ? 0xFFFFFFFF : 0;
	if (on == 2)
		for (auto& f : features) c.r[f.reg] |= 1u << f.bit;
	c.r[S24B] = on ? 2 : 0;
	c.r[L1C] &= ~(1u << 21);
	c.r[L1D_] &= ~(1u << 28);
	if (on) c.r[L1C] |= 0x0C000000;
	c.xcr0 = c.xcr0_valid = mc::flag("register state enabled") ? FULLMPX : 3;
	run_isa(c);
}

MC_FAMILY(P06, avx10, "AVX10 version 0-255 and reserved bits of leaf 24", 0) {
	Cpu c;
	for (auto& x : c.r) x = 0;
	c.r[L1C] = 0x1C000000;
	c.r[S71D] = mc::flag("AVX10") << 19;
	c.r[S24B] = mc::choose(256, "version") | (mc::flag("reserved bits") ? 0xFFFFFF00 : 0);
	c.xcr0_valid = FULLMPX;
	c.xcr0 = mc::flag("register state enabled") ? FULLMPX : 7;
	run_isa(c);
}
MC_FAMILY(P06, vendor_bits, "features whose meaning depends on the vendor (FXSAVE, PREFETCH, PREFETCHW, 3DNow): every combination of their bits for every vendor and three signatures", 0) {
	static const V VS[] = {vINTEL, vAMD, vHYGON, vVIA, vCYRIX, vNSC, vOTHER};
	static const uint32_t sig[] = {0x000906EA, 0x000005A2, 0x00800F11};
	Cpu c;
	c.vendor = mc::pick(VS, "vendor");
	c.signature = mc::pick(sig, "signature");
	uint32_t x = mc::choose(1u << 10, "bits");
	uint32_t hi = x & 7; // XD 29..31
	c.r[XD] = hi << 29 | (x >> 3 & 1) << 24 | (x >> 4 & 1) << 22;
	c.r[XC] = (x >> 5 & 1) << 8;
	c.r[L1D_] = (x >> 6 & 1) << 24 | (x >> 7 & 1) << 25 | (x >> 8 & 1) << 4;
	c.r[L1C] = x >> 9 & 1;
	run_isa(c);
}
MC_FAMILY(P06, triples, "every triple of bits on an all-zero background with register state", 1) {
	Cpu c;
	uint32_t a = mc::choose(NREG * 32, "a"), b = mc::choose(NREG * 32, "b"), d = mc::choose(NREG * 32, "c");
	if (b <= a || d <= b) mc::reject();
	c.r[L1C] |= 0x0C000000;
	c.r[a / 32] ^= 1u << a % 32;
	c.r[b / 32] ^= 1u << b % 32;
	c.r[d / 32] ^= 1u << d % 32;
	if (c.r[L1C] >> 21 & 1 || c.r[L1D_] >> 28 & 1) mc::reject();
	c.xcr0_valid = c.xcr0 = FULLMPX;
	run_isa(c);
}

// ---------------------------------------------------------------- P07

struct Row {
	V vendor;
	int family, model; // model -1: all; -2 - k: all with extended model k
	uint32_t uarch;
	bool only32;
};
// Vendor documentation: family and model numbers of the cores this library distinguishes. First match counts.
static const Row rows[] = {
	{vINTEL, 5, 1, cpuinfo_uarch_p5, true}, {vINTEL, 5, 2, cpuinfo_uarch_p5, true}, {vINTEL, 5, 3, cpuinfo_uarch_p5, true}, {vINTEL, 5, 4, cpuinfo_uarch_p5, true}, {vINTEL, 5, 9, cpuinfo_uarch_quark, true},
	{vINTEL, 6, 0x01, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x03, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x05, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x06, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x07, cpuinfo_uarch_p6, true},
	{vINTEL, 6, 0x08, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x0A, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x0B, cpuinfo_uarch_p6, true}, {vINTEL, 6, 0x09, cpuinfo_uarch_dothan, true}, {vINTEL, 6, 0x0D, cpuinfo_uarch_dothan, true},
	{vINTEL, 6, 0x15, cpuinfo_uarch_dothan, true}, {vINTEL, 6, 0x0E, cpuinfo_uarch_yonah, true}, {vINTEL, 6, 0x0F, cpuinfo_uarch_conroe, false}, {vINTEL, 6, 0x16, cpuinfo_uarch_conroe, false},
	{vINTEL, 6, 0x17, cpuinfo_uarch_penryn, false}, {vINTEL, 6, 0x1D, cpuinfo_uarch_penryn, false}, {vINTEL, 6, 0x1A, cpuinfo_uarch_nehalem, false}, {vINTEL, 6, 0x1E, cpuinfo_uarch_nehalem, false},
	{vINTEL, 6, 0x1F, cpuinfo_uarch_nehalem, false}, {vINTEL, 6, 0x2E, cpuinfo_uarch_nehalem, false}, {vINTEL, 6, 0x25, cpuinfo_uarch_nehalem, false}, {vINTEL, 6, 0x2C, cpuinfo_uarch_nehalem, false},
	{vINTEL, 6, 0x2F, cpuinfo_uarch_nehalem, false}, {vINTEL, 6, 0x2A, cpuinfo_uarch_sandy_bridge, false}, {vINTEL, 6, 0x2D, cpuinfo_uarch_sandy_bridge, false}, {vINTEL, 6, 0x3A, cpuinfo_uarch_ivy_bridge, false},
	{vINTEL, 6, 0x3E, cpuinfo_uarch_ivy_bridge, false}, {vINTEL, 6, 0x3C, cpuinfo_uarch_haswell, false}, {vINTEL, 6, 0x3F, cpuinfo_uarch_haswell, false}, {vINTEL, 6, 0x45, cpuinfo_uarch_haswell, false},
	{vINTEL, 6, 0x46, cpuinfo_uarch_haswell, false}, {vINTEL, 6, 0x3D, cpuinfo_uarch_broadwell, false}, {vINTEL, 6, 0x47, cpuinfo_uarch_broadwell, false}, {vINTEL, 6, 0x4F, cpuinfo_uarch_broadwell, false},
	{vINTEL, 6, 0x56, cpuinfo_uarch_broadwell, false}, {vINTEL, 6, 0x4E, cpuinfo_uarch_sky_lake, false}, {vINTEL, 6, 0x55, cpuinfo_uarch_sky_lake, false}, {vINTEL, 6, 0x5E, cpuinfo_uarch_sky_lake, false},
	{vINTEL, 6, 0x8E, cpuinfo_uarch_sky_lake, false}, {vINTEL, 6, 0x9E, cpuinfo_uarch_sky_lake, false}, {vINTEL, 6, 0xA5, cpuinfo_uarch_sky_lake, false}, {vINTEL, 6, 0xA6, cpuinfo_uarch_sky_lake, false},
	{vINTEL, 6, 0x66, cpuinfo_uarch_palm_cove, false}, {vINTEL, 6, 0x6A, cpuinfo_uarch_sunny_cove, false}, {vINTEL, 6, 0x6C, cpuinfo_uarch_sunny_cove, false}, {vINTEL, 6, 0x7D, cpuinfo_uarch_sunny_cove, false},
	{vINTEL, 6, 0x7E, cpuinfo_uarch_sunny_cove, false}, {vINTEL, 6, 0x8F, cpuinfo_uarch_golden_cove, false}, {vINTEL, 6, 0xCF, cpuinfo_uarch_golden_cove, false}, {vINTEL, 6, 0x1C, cpuinfo_uarch_bonnell, false},
	{vINTEL, 6, 0x26, cpuinfo_uarch_bonnell, false}, {vINTEL, 6, 0x27, cpuinfo_uarch_saltwell, false}, {vINTEL, 6, 0x35, cpuinfo_uarch_saltwell, false}, {vINTEL, 6, 0x36, cpuinfo_uarch_saltwell, false},
	{vINTEL, 6, 0x37, cpuinfo_uarch_silvermont, false}, {vINTEL, 6, 0x4A, cpuinfo_uarch_silvermont, false}, {vINTEL, 6, 0x4D, cpuinfo_uarch_silvermont, false}, {vINTEL, 6, 0x5A, cpuinfo_uarch_silvermont, false},
	{vINTEL, 6, 0x5D, cpuinfo_uarch_silvermont, false}, {vINTEL, 6, 0x4C, cpuinfo_uarch_airmont, false}, {vINTEL, 6, 0x75, cpuinfo_uarch_airmont, false}, {vINTEL, 6, 0x5C, cpuinfo_uarch_goldmont, false},
	{vINTEL, 6, 0x5F, cpuinfo_uarch_goldmont, false}, {vINTEL, 6, 0x7A, cpuinfo_uarch_goldmont_plus, false}, {vINTEL, 6, 0x57, cpuinfo_uarch_knights_landing, false}, {vINTEL, 6, 0x85, cpuinfo_uarch_knights_mill, false},
	{vINTEL, 0xF, 0, cpuinfo_uarch_willamette, false}, {vINTEL, 0xF, 1, cpuinfo_uarch_willamette, false}, {vINTEL, 0xF, 2, cpuinfo_uarch_willamette, false}, {vINTEL, 0xF, 3, cpuinfo_uarch_prescott, false},
	{vINTEL, 0xF, 4, cpuinfo_uarch_prescott, false}, {vINTEL, 0xF, 6, cpuinfo_uarch_prescott, false},
	{vAMD, 5, 0, cpuinfo_uarch_k5, true}, {vAMD, 5, 1, cpuinfo_uarch_k5, true}, {vAMD, 5, 2, cpuinfo_uarch_k5, true}, {vAMD, 5, 6, cpuinfo_uarch_k6, true}, {vAMD, 5, 7, cpuinfo_uarch_k6, true}, {vAMD, 5, 8, cpuinfo_uarch_k6, true},
	{vAMD, 5, 0xD, cpuinfo_uarch_k6, true}, {vAMD, 5, 0xA, cpuinfo_uarch_geode, true}, {vAMD, 6, -1, cpuinfo_uarch_k7, true}, {vAMD, 0xF, -1, cpuinfo_uarch_k8, false}, {vAMD, 0x11, -1, cpuinfo_uarch_k8, false},
	{vAMD, 0x10, -1, cpuinfo_uarch_k10, false}, {vAMD, 0x12, -1, cpuinfo_uarch_k10, false}, {vAMD, 0x14, -1, cpuinfo_uarch_bobcat, false},
	{vAMD, 0x15, 2, cpuinfo_uarch_piledriver, false}, {vAMD, 0x15, 0x60, cpuinfo_uarch_excavator, false}, {vAMD, 0x15, 0x65, cpuinfo_uarch_excavator, false}, {vAMD, 0x15, 0x70, cpuinfo_uarch_excavator, false},
	{vAMD, 0x15, -2, cpuinfo_uarch_bulldozer, false}, {vAMD, 0x15, -3, cpuinfo_uarch_piledriver, false}, {vAMD, 0x15, -4, cpuinfo_uarch_piledriver, false}, {vAMD, 0x15, -5, cpuinfo_uarch_steamroller, false}, {vAMD, 0x15, -6, cpuinfo_uarch_steamroller, false},
	{vAMD, 0x16, -2, cpuinfo_uarch_jaguar, false}, {vAMD, 0x16, -3, cpuinfo_uarch_jaguar, false}, {vAMD, 0x16, -4, cpuinfo_uarch_jaguar, false}, {vAMD, 0x16, -1, cpuinfo_uarch_puma, false},
	{vAMD, 0x17, -2, cpuinfo_uarch_zen, false}, {vAMD, 0x17, -3, cpuinfo_uarch_zen, false}, {vAMD, 0x17, -5, cpuinfo_uarch_zen2, false}, {vAMD, 0x17, -6, cpuinfo_uarch_zen2, false}, {vAMD, 0x17, -8, cpuinfo_uarch_zen2, false},
	{vAMD, 0x17, -9, cpuinfo_uarch_zen2, false}, {vAMD, 0x17, -11, cpuinfo_uarch_zen2, false},
	{vAMD, 0x19, -2, cpuinfo_uarch_zen3, false}, {vAMD, 0x19, -4, cpuinfo_uarch_zen3, false}, {vAMD, 0x19, -5, cpuinfo_uarch_zen3, false}, {vAMD, 0x19, -6, cpuinfo_uarch_zen3, false}, {vAMD, 0x19, -7, cpuinfo_uarch_zen3, false},
	{vAMD, 0x19, -3, cpuinfo_uarch_zen4, false}, {vAMD, 0x19, -8, cpuinfo_uarch_zen4, false}, {vAMD, 0x19, -9, cpuinfo_uarch_zen4, false}, {vAMD, 0x19, -12, cpuinfo_uarch_zen4, false}, {vAMD, 0x1A, -1, cpuinfo_uarch_zen5, false},
	{vHYGON, 0x18, -1, cpuinfo_uarch_dhyana, false}};

static uint32_t uarch_of(V v, uint32_t family, uint32_t model) {
	for (auto& r : rows)
		if (r.vendor == v && r.family == (int)family && (!r.only32 || !is64) && (r.model == -1 || r.model == (int)model || (r.model <= -2 && (int)(model >> 4) == -2 - r.model))) return r.uarch;
	return cpuinfo_uarch_unknown;
}
static uint32_t vendor_of(V v) {
	switch (v) {
		case vINTEL: return cpuinfo_vendor_intel;
		case vAMD: return cpuinfo_vendor_amd;
		case vHYGON: return cpuinfo_vendor_hygon;
		case vVIA: return cpuinfo_vendor_via;
		case vCYRIX: return is64 ? cpuinfo_vendor_unknown : cpuinfo_vendor_cyrix;
		case vNSC: return is64 ? cpuinfo_vendor_unknown : cpuinfo_vendor_nsc;
		default: return cpuinfo_vendor_unknown;
	}
}
static void check_identity(uint32_t vendor, uint32_t uarch, uint32_t sig) {
	for (uint32_t i = 0; i < D.ncore; i++)
		MC_CHECK(D.core[i].vendor == vendor && D.core[i].uarch == uarch && D.core[i].id == sig, "core", "core %u: vendor %u microarchitecture %#x signature %#x, expected %u %#x %#x", i, D.core[i].vendor, D.core[i].uarch, D.core[i].id, vendor, uarch, sig);
	for (uint32_t i = 0; i < D.ncluster; i++)
		MC_CHECK(D.cluster[i].vendor == vendor && D.cluster[i].uarch == uarch && D.cluster[i].id == sig, "cluster", "cluster %u: vendor %u microarchitecture %#x signature %#x, expected %u %#x %#x", i, D.cluster[i].vendor, D.cluster[i].uarch, D.cluster[i].id, vendor, uarch, sig);
	MC_CHECK(D.nuarch == 1, "list", "%u microarchitectures", D.nuarch);
	MC_CHECK(D.uarch[0].uarch == uarch && D.uarch[0].id == sig && D.uarch[0].processor_count == D.nproc && D.uarch[0].core_count == D.ncore, "list", "microarchitecture entry %#x %#x %u %u", D.uarch[0].uarch, D.uarch[0].id, D.uarch[0].processor_count, D.uarch[0].core_count);
}
static void signature(bool all) {
	static const V VS[] = {vINTEL, vAMD, vHYGON, vVIA, vCYRIX, vOTHER};
	Cpu c;
	c.vendor = mc::pick(VS, "vendor");
	uint32_t bf = mc::choose(16, "family");
	uint32_t ef = bf == 15 ? mc::choose(256, "extended family") : 0;
	// the extended model belongs to families 6 and 15 only
	uint32_t em = (bf == 15 || bf == 6) ? mc::choose(16, "extended model") : 0;
	uint32_t bm = mc::choose(16, "model");
	uint32_t step = all ? mc::choose(16, "stepping") : mc::choose(3, "stepping") * 7;
	uint32_t rest = mc::choose(all ? 8 : 3, "type and reserved bits");
	static const uint32_t other[] = {0, 0xF0000000, 0x0000F000, 0xF000F000, 0x00001000, 0x00002000, 0x10000000, 0x80004000};
	if (!all && ef > 0x20 && ef != 0x55 && ef != 0xF1 && ef != 0xFF) mc::reject();
	c.signature = step | bm << 4 | bf << 8 | em << 16 | ef << 20 | other[rest];
	mc::commit();
	venv::fresh();
	emit(c);
	x86::run(x86::Machine());
	check_identity(vendor_of(c.vendor), uarch_of(c.vendor, bf + ef, bm | em << 4), c.signature);
}
MC_FAMILY(P07, signature, "six vendors, all 16 families, extended families 0-20h and samples above, all 256 models, steppings 0/7/14, type and reserved bits", 0) {
	signature(false);
}
MC_FAMILY(P07, signature_all, "six vendors, every family, extended family, model, stepping and eight patterns of the other bits", 1) {
	signature(true);
}

struct VS {
	const char* s;
	uint32_t vendor;
	bool only32;
};
static const VS vendor_strings[] = {{"GenuineIntel", cpuinfo_vendor_intel, false}, {"AuthenticAMD", cpuinfo_vendor_amd, false}, {"CentaurHauls", cpuinfo_vendor_via, false}, {"HygonGenuine", cpuinfo_vendor_hygon, false},
	{"AMDisbetter!", cpuinfo_vendor_amd, true}, {"AMD ISBETTER", cpuinfo_vendor_amd, true}, {"VIA VIA VIA ", cpuinfo_vendor_via, true}, {"GenuineTMx86", cpuinfo_vendor_transmeta, true}, {"TransmetaCPU", cpuinfo_vendor_transmeta, true},
	{"CyrixInstead", cpuinfo_vendor_cyrix, true}, {"RiseRiseRise", cpuinfo_vendor_rise, true}, {"Geode by NSC", cpuinfo_vendor_nsc, true}, {"SiS SiS SiS ", cpuinfo_vendor_sis, true}, {"NexGenDriven", cpuinfo_vendor_nexgen, true},
	{"UMC UMC UMC ", cpuinfo_vendor_umc, true}, {"Genuine  RDC", cpuinfo_vendor_rdc, true}, {"Vortex86 SoC", cpuinfo_vendor_dmp, true}};
static void vendor_case(const std::string& s) {
	uint32_t want = cpuinfo_vendor_unknown;
	V v = vOTHER;
	for (auto& k : vendor_strings)
		if (s == k.s && (!k.only32 || !is64)) {
			want = k.vendor;
			v = want == cpuinfo_vendor_intel ? vINTEL : want == cpuinfo_vendor_amd ? vAMD : want == cpuinfo_vendor_hygon ? vHYGON : vOTHER;
		}
	mc::commit();
	venv::fresh();
	Cpu c;
	c.signature = 0x00800F11; // family 17h model 1
	emit(c);
	auto& r = env.cpuid[0];
	memcpy(&r.b, s.data(), 4);
	memcpy(&r.d, s.data() + 4, 4);
	memcpy(&r.c, s.data() + 8, 4);
	x86::run(x86::Machine());
	check_identity(want, uarch_of(v, 0x17, 1), c.signature);
}
MC_FAMILY(P07, vendor_mix, "every combination of the three words of all known identification strings", 0) {
	const uint32_t n = sizeof vendor_strings / sizeof *vendor_strings;
	std::string a = vendor_strings[mc::choose(n)].s, b = vendor_strings[mc::choose(n)].s, c = vendor_strings[mc::choose(n)].s;
	vendor_case(a.substr(0, 4) + b.substr(4, 4) + c.substr(8, 4));
}
MC_FAMILY(P07, vendor_bytes, "every single-byte change of every identification string", 0) {
	const uint32_t n = sizeof vendor_strings / sizeof *vendor_strings;
	std::string s = vendor_strings[mc::choose(n)].s;
	uint32_t pos = mc::choose(12), ch = mc::choose(256);
	s[pos] = (char)ch;
	vendor_case(s);
}
MC_FAMILY(P07, hierarchy, "identity is the same in every core, cluster and microarchitecture entry of machines with 1-3 packages, 1-3 cores and 1-2 threads", 0) {
	static const V VS[] = {vINTEL, vAMD, vHYGON, vOTHER};
	static const uint32_t sig[] = {0x000906EA, 0x00800F11, 0x00900F00, 0xFFFFFFFF, 0};
	Cpu c;
	c.vendor = mc::pick(VS, "vendor");
	c.signature = mc::pick(sig, "signature");
	uint32_t p = 1 + mc::choose(3), k = 1 + mc::choose(3), t = 1 + mc::choose(2);
	uint32_t share = mc::choose(4);
	mc::commit();
	venv::fresh();
	emit(c);
	x86::Machine m;
	m.topo = x86::X2APIC;
	m.thread_bits = 1;
	m.core_bits = 2;
	m.signature = c.signature;
	m.vendor = c.vendor == vINTEL ? x86::INTEL : c.vendor == vAMD ? x86::AMD : c.vendor == vHYGON ? x86::HYGON : x86::NONAME;
	m.caches = {{2, 3, 8, 1, 64, 1024, 0, 1u << share}};
	for (uint32_t a = 0; a < p; a++)
		for (uint32_t b = 0; b < k; b++)
			for (uint32_t x = 0; x < t; x++) m.procs.push_back({(uint32_t)m.procs.size(), a << 3 | b << 1 | x});
	m.emit();
	x86::run(m);
	uint32_t bf = c.signature >> 8 & 15, f = bf + (c.signature >> 20 & 255), md = (c.signature >> 4 & 15) | (c.signature >> 12 & 0xF0);
	check_identity(vendor_of(c.vendor), uarch_of(c.vendor, f, md), c.signature);
}
