// Reference tables of ARM core types.
#pragma once
#include <cpuinfo.h>
#include "arm_model.h"

namespace arm {

// ---------------------------------------------------------------- reference: identity -> vendor and microarchitecture

struct Part {
	uint32_t impl, part;
	int variant; // -1: any
	int arch; // 0: both, 1: 64-bit only, 2: 32-bit only
	cpuinfo_vendor vendor;
	cpuinfo_uarch uarch;
};
static const Part parts[] = {
	{'A', 0xC05, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a5},
	{'A', 0xC07, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a7},
	{'A', 0xC08, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a8},
	{'A', 0xC09, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a9},
	{'A', 0xC0C, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a12},
	{'A', 0xC0D, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a12},
	{'A', 0xC0E, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a17},
	{'A', 0xC0F, -1, 2, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a15},
	{'A', 0xD01, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a32},
	{'A', 0xD03, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a53},
	{'A', 0xD04, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a35},
	{'A', 0xD05, 0, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a55r0},
	{'A', 0xD05, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a55},
	{'A', 0xD06, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a65},
	{'A', 0xD07, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a57},
	{'A', 0xD08, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a72},
	{'A', 0xD09, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a73},
	{'A', 0xD0A, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a75},
	{'A', 0xD0B, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76},
	{'A', 0xD0C, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_neoverse_n1},
	{'A', 0xD0D, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a77},
	{'A', 0xD0E, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76},
	{'A', 0xD40, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_neoverse_v1},
	{'A', 0xD41, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a78},
	{'A', 0xD44, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_x1},
	{'A', 0xD46, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a510},
	{'A', 0xD47, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a710},
	{'A', 0xD48, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_x2},
	{'A', 0xD49, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_neoverse_n2},
	{'A', 0xD4A, -1, 1, cpuinfo_vendor_arm, cpuinfo_uarch_neoverse_e1},
	{'A', 0xD4D, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a715},
	{'A', 0xD4E, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_x3},
	{'A', 0xD4F, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_neoverse_v2},
	{'B', 0x00F, -1, 0, cpuinfo_vendor_broadcom, cpuinfo_uarch_brahma_b15},
	{'B', 0x100, -1, 0, cpuinfo_vendor_broadcom, cpuinfo_uarch_brahma_b53},
	{'B', 0x516, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx2},
	{'C', 0x0A0, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx},
	{'C', 0x0A1, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx},
	{'C', 0x0A2, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx},
	{'C', 0x0A3, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx},
	{'C', 0x0AF, -1, 1, cpuinfo_vendor_cavium, cpuinfo_uarch_thunderx2},
	{'H', 0xD01, -1, 1, cpuinfo_vendor_huawei, cpuinfo_uarch_taishan_v110},
	{'H', 0xD40, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76},
	{'N', 0x000, -1, 0, cpuinfo_vendor_nvidia, cpuinfo_uarch_denver},
	{'N', 0x003, -1, 0, cpuinfo_vendor_nvidia, cpuinfo_uarch_denver2},
	{'N', 0x004, -1, 0, cpuinfo_vendor_nvidia, cpuinfo_uarch_carmel},
	{'P', 0x000, -1, 0, cpuinfo_vendor_apm, cpuinfo_uarch_xgene},
	{'Q', 0x00F, -1, 2, cpuinfo_vendor_qualcomm, cpuinfo_uarch_scorpion},
	{'Q', 0x02D, -1, 2, cpuinfo_vendor_qualcomm, cpuinfo_uarch_scorpion},
	{'Q', 0x04D, -1, 2, cpuinfo_vendor_qualcomm, cpuinfo_uarch_krait},
	{'Q', 0x06F, -1, 2, cpuinfo_vendor_qualcomm, cpuinfo_uarch_krait},
	{'Q', 0x201, -1, 0, cpuinfo_vendor_qualcomm, cpuinfo_uarch_kryo},
	{'Q', 0x205, -1, 0, cpuinfo_vendor_qualcomm, cpuinfo_uarch_kryo},
	{'Q', 0x211, -1, 0, cpuinfo_vendor_qualcomm, cpuinfo_uarch_kryo},
	{'Q', 0x800, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a73},
	{'Q', 0x801, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a53},
	{'Q', 0x802, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a75},
	{'Q', 0x803, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a55r0},
	{'Q', 0x804, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a76},
	{'Q', 0x805, -1, 0, cpuinfo_vendor_arm, cpuinfo_uarch_cortex_a55},
	{'Q', 0x001, -1, 1, cpuinfo_vendor_qualcomm, cpuinfo_uarch_oryon},
	{'Q', 0xC00, -1, 1, cpuinfo_vendor_qualcomm, cpuinfo_uarch_falkor},
	{'Q', 0xC01, -1, 1, cpuinfo_vendor_qualcomm, cpuinfo_uarch_saphira},
	{'S', 0x001, 1, 0, cpuinfo_vendor_samsung, cpuinfo_uarch_exynos_m1},
	{'S', 0x001, 4, 0, cpuinfo_vendor_samsung, cpuinfo_uarch_exynos_m2},
	{'S', 0x002, 1, 0, cpuinfo_vendor_samsung, cpuinfo_uarch_exynos_m3},
	{'S', 0x003, 1, 0, cpuinfo_vendor_samsung, cpuinfo_uarch_exynos_m4},
	{'S', 0x004, 1, 0, cpuinfo_vendor_samsung, cpuinfo_uarch_exynos_m5},
	{'V', 0x581, -1, 2, cpuinfo_vendor_marvell, cpuinfo_uarch_pj4},
	{'V', 0x584, -1, 2, cpuinfo_vendor_marvell, cpuinfo_uarch_pj4},
};
inline void ref_decode(uint32_t midr, bool vfpv4, uint32_t* vendor, uint32_t* uarch) {
	uint32_t impl = midr >> 24, part = midr >> 4 & 0xFFF;
	int variant = midr >> 20 & 15;
	*vendor = cpuinfo_vendor_unknown;
	*uarch = cpuinfo_uarch_unknown;
	if (!is64() && impl == 'Q' && part == 0x00F && vfpv4) { // Cortex-A5 made by Qualcomm
		*vendor = cpuinfo_vendor_arm;
		*uarch = cpuinfo_uarch_cortex_a5;
		return;
	}
	for (auto& p : parts)
		if (p.impl == impl && p.part == part && (p.variant < 0 || p.variant == variant) && (p.arch == 0 || (p.arch == 1) == is64())) {
			*vendor = p.vendor;
			*uarch = p.uarch;
			return;
		}
	switch (impl) {
		case 'A': *vendor = cpuinfo_vendor_arm; break;
		case 'B': *vendor = cpuinfo_vendor_broadcom; break;
		case 'C': if (is64()) *vendor = cpuinfo_vendor_cavium; break;
		case 'H': *vendor = cpuinfo_vendor_huawei; break;
		case 'N': *vendor = cpuinfo_vendor_nvidia; break;
		case 'P': *vendor = cpuinfo_vendor_apm; break;
		case 'Q': *vendor = cpuinfo_vendor_qualcomm; break;
		case 'S': *vendor = cpuinfo_vendor_samsung; break;
		case 'V': if (!is64()) *vendor = cpuinfo_vendor_marvell; break;
		case 'i': if (!is64()) *vendor = cpuinfo_vendor_intel; break;
	}
	if (!is64() && impl == 'A') {
		if (part >> 8 == 7) *uarch = cpuinfo_uarch_arm7;
		if (part >> 8 == 9) *uarch = cpuinfo_uarch_arm9;
		if (part >> 8 == 11) *uarch = cpuinfo_uarch_arm11;
	}
	if (!is64() && impl == 'i' && (part >> 8 == 2 || part >> 8 == 4 || part >> 8 == 6)) *uarch = cpuinfo_uarch_xscale;
}

} // namespace arm
