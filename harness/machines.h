// Representative machines of every architecture, for properties which are about all of the detection code.
#pragma once
#include "arm_model.h"
#include "riscv_model.h"
#include "x86_model.h"

namespace machines {

inline int count() {
	return vd_arch <= 1 ? 37 : vd_arch <= 3 ? 7 : 3;
}
// those which differ in more than their caches
inline int basic() {
	return vd_arch <= 1 ? 5 : count();
}
inline const char* name(int k) {
	static const char* const x[] = {"4 processors, x2APIC, 4 cache levels", "AMD, two packages", "legacy cache descriptors", "one processor, nothing known", "two processors with gaps"};
	static const char* const a[] = {"2+2 processors", "three clusters with third-level caches", "8 processors, some offline", "one processor", "no identities", "cache geometry in /proc/cpuinfo", "6 processors without topology"};
	static const char* const r[] = {"2 cores of 2 threads", "interleaved numbers", "one processor"};
	return vd_arch <= 1 ? k < 5 ? x[k] : "a subset of the cache levels" : vd_arch <= 3 ? a[k] : r[k];
}
inline void brand(const char* text) {
	char b[48] = {};
	strncpy(b, text, 48);
	for (int i = 0; i < 3; i++) {
		venv::Regs r;
		memcpy(&r, b + 16 * i, 16);
		venv::env.leaf(0x80000002 + i, 0, r);
	}
}
inline void emit_x86(int k) {
	x86::Machine m;
	auto& e = venv::env;
	switch (k) {
		case 0:
			m.thread_bits = 1;
			m.core_bits = 1;
			m.caches = {{1, 1, 8, 1, 64, 64, 0, 2}, {1, 2, 8, 1, 64, 64, 0, 2}, {2, 3, 4, 1, 64, 1024, 0, 2}, {3, 3, 16, 1, 64, 8192, 6, 4}, {4, 3, 16, 1, 64, 65536, 0, 8}};
			for (uint32_t i = 0; i < 4; i++) m.procs.push_back({i, i < 2 ? i * 2 : i * 2 - 3});
			m.leaf1_ecx = 1u << 28 | 1u << 27 | 1u << 26 | 1;
			m.leaf1_edx = 0x0F808120;
			e.xcr0 = 7;
			e.leaf(7, 0, {0, 1u << 5 | 1u << 8, 0, 0});
			brand("Intel(R) Core(TM) i7-6700K CPU @ 4.00GHz");
			break;
		case 1:
			m.vendor = x86::AMD;
			m.signature = 0x00800F11;
			m.topo = x86::AMD_NC;
			m.core_bits = 1;
			m.caches_in_8000001d = true;
			m.max_ext = 0x8000001F;
			m.caches = {{1, 1, 8, 1, 64, 64, 0, 1}, {1, 2, 4, 1, 64, 256, 0, 1}, {2, 3, 8, 1, 64, 1024, 2, 1}, {3, 3, 16, 1, 64, 8192, 0, 2}};
			for (uint32_t i = 0; i < 4; i++) m.procs.push_back({i, 3 - i});
			brand("AMD Ryzen 7 1700 Eight-Core Processor          ");
			break;
		case 2:
			m.signature = 0x00000F29;
			m.max_base = 2;
			m.max_ext = 0x80000004;
			m.topo = x86::INTEL_HT_ONLY;
			m.thread_bits = 1;
			m.procs = {{0, 0}, {1, 1}};
			e.leaf(2, 0, {0x665B5001, 0, 0, 0x007A7040});
			brand("              Intel(R) Xeon(TM) CPU 2.40GHz");
			break;
		case 3:
			m.vendor = x86::NONAME;
			m.max_base = 1;
			m.max_ext = 0;
			m.topo = x86::NO_TOPOLOGY;
			m.procs = {{0, 5}};
			break;
		case 4:
			m.core_bits = 2;
			m.caches = {{1, 1, 8, 1, 64, 64, 0, 1}, {2, 3, 4, 1, 64, 1024, 0, 1}};
			m.procs = {{5, 3}, {1, 2}};
			m.kernel_max = 7;
			break;
		default: {
			static const x86::Cache c[5] = {{1, 1, 8, 1, 64, 64, 0, 1}, {1, 2, 8, 1, 64, 64, 0, 1}, {2, 3, 4, 1, 64, 1024, 0, 1}, {3, 3, 16, 1, 64, 8192, 6, 2}, {4, 3, 16, 1, 64, 65536, 0, 2}};
			m.core_bits = 1;
			for (int i = 0; i < 5; i++)
				if ((k - 5) >> i & 1) m.caches.push_back(c[i]);
			m.procs = {{0, 0}, {1, 1}};
		}
	}
	m.emit();
}
inline void emit_arm(int k) {
	arm::Machine m;
	const char *platform = "", *chip = "";
	bool a64 = arm::is64();
	switch (k) {
		case 0:
			for (uint32_t i = 0; i < 4; i++) m.add(i, i < 2 ? arm::A53 : arm::A57, i / 2, i < 2 ? 1440000 : 1824000);
			for (auto& p : m.procs) p.fmin = 384000;
			m.hardware = "Qualcomm Technologies, Inc MSM8992";
			m.revision = "0000";
			platform = "msm8992";
			break;
		case 1:
			m.source = arm::CLUSTER_AND_PACKAGE;
			for (uint32_t i = 0; i < 4; i++) m.add(i, i < 2 ? arm::A55 : i < 3 ? arm::A76 : arm::X1, i < 2 ? 0 : i - 1, 1800000 + 300000 * (i < 2 ? 0 : i));
			m.hardware = "Qualcomm Technologies, Inc SM8350";
			chip = "SM8350";
			break;
		case 2:
			for (uint32_t i = 0; i < 8; i++) m.add(i, i < 4 ? (a64 ? arm::A53 : arm::A7) : (a64 ? arm::A73 : arm::A15), i < 4 ? 0 : 1, i < 4 ? 1300000 : 1900000);
			for (uint32_t i : {3u, 6u, 7u}) m.procs[i].listed = false, m.procs[i].group = -1, m.procs[i].fmax = 0;
			m.hardware = "Hardkernel ODROID-XU4";
			m.revision = "0100";
			chip = "exynos5430";
			break;
		case 3:
			m.add(0, a64 ? arm::A53 : arm::A7, 0);
			m.hardware = "BCM2709";
			m.revision = "a02082";
			break;
		case 4:
			for (uint32_t i = 0; i < 3; i++) {
				m.add(i, 0);
				m.procs[i].known = 0;
			}
			m.preamble = "Processor\t: AArch64 Processor rev 1 (aarch64)\n";
			m.tail = "CPU implementer\t: 0x41\nCPU architecture: 8\nCPU variant\t: 0x1\nCPU part\t: 0xd07\nCPU revision\t: 1\n";
			break;
		case 5:
			m.arch_version = 5;
			m.add(0, 0x41069265);
			m.procs[0].extra = "Cache type\t: write-back\nCache clean\t: cp15 c7 ops\nCache lockdown\t: format C\nCache format\t: Harvard\nI size\t\t: 16384\nI assoc\t\t: 4\nI line length\t: 32\nI sets\t\t: 128\nD size\t\t: 8192\nD assoc\t\t: 4\nD line length\t: 32\nD sets\t\t: 64\n";
			m.hardware = "Marvell PXA988";
			break;
		case 6:
			for (uint32_t i = 0; i < 6; i++) m.add(i, i < 4 ? arm::A53 : arm::A72, -1, i < 4 ? 1416000 : 1800000);
			m.hardware = "rockchip,rk3399";
			chip = "rk3399";
			platform = "rk3399";
			break;
	}
	m.emit();
	auto& e = venv::env;
	e.hwcap = a64 ? 0x1FF : 0x0017B0D6;
	e.hwcap2 = a64 ? 0 : 0x1F;
	if (vd_arch == 3 && vd_android && k == 2) {
		// old Android: the capabilities are read from the auxiliary vector
		e.have_getauxval = false;
		std::string s;
		for (uint32_t w : {6u, 4096u, 16u, (uint32_t)e.hwcap, 26u, 31u, 0u, 0u})
			for (int b = 0; b < 4; b++) s += (char)(w >> (8 * b));
		e.file("/proc/self/auxv", s);
	}
	if (*platform) e.props["ro.board.platform"] = platform;
	if (*chip) e.props["ro.chipname"] = chip;
}
inline void emit_riscv(int k) {
	riscv::Machine m;
	switch (k) {
		case 0:
			for (uint32_t i = 0; i < 4; i++) m.add(i, i / 2, i / 2, 0);
			break;
		case 1:
			for (uint32_t i = 0; i < 4; i++) m.add(i + i / 2, i & 1, i & 1, i & 1);
			m.style = riscv::SINGLES;
			break;
		case 2: m.add(2, 0, 0, 0); break;
	}
	for (auto& p : m.procs) {
		p.core_id = p.core;
		p.freq = 1000000 + p.core;
		p.probe.vendor = p.core ? 0x489 : 0;
	}
	m.emit();
	venv::env.hwcap = 0x20112D;
}
inline void emit(int k) {
	if (vd_arch <= 1) emit_x86(k);
	else if (vd_arch <= 3) emit_arm(k);
	else emit_riscv(k);
}

} // namespace machines
