/* What the threads do; compiled and instrumented like the library. */
#include <cpuinfo.h>
#include <stddef.h>
#include <stdint.h>
#include "vdesc.h"

static inline uint64_t mix(uint64_t h, uint64_t v) {
	return (h ^ v) * UINT64_C(0x9E3779B97F4A7C15) ^ h >> 29;
}
static uint64_t cache(uint64_t h, const struct cpuinfo_cache* c) {
	if (c == NULL) {
		return mix(h, 1);
	}
	return mix(mix(h, c->size), c->processor_start * 64 + c->processor_count);
}
static uint64_t processor(uint64_t h, const struct cpuinfo_processor* p) {
	h = mix(h, p->smt_id);
	h = mix(h, (uint64_t)p->linux_id);
	h = mix(h, p->core->core_id * 64 + p->core->processor_count);
	h = mix(h, p->cluster->core_count);
	h = mix(h, p->package->processor_count);
	for (const char* c = p->package->name; c < p->package->name + CPUINFO_PACKAGE_NAME_MAX && *c; c++) {
		h = mix(h, (uint8_t)*c);
	}
	h = cache(h, p->cache.l1d);
	return cache(h, p->cache.l2);
}
/* a few queries of every kind */
static uint64_t brief(void) {
	uint64_t h = 1;
	uint32_t n = cpuinfo_get_processors_count();
	h = mix(h, n);
	h = mix(h, cpuinfo_get_cores_count());
	h = mix(h, cpuinfo_get_packages_count());
	h = mix(h, cpuinfo_get_l2_caches_count());
	h = mix(h, cpuinfo_get_max_cache_size());
	h = mix(h, cpuinfo_get_uarchs_count());
	h = mix(h, cpuinfo_get_uarch(0)->uarch);
	h = processor(h, cpuinfo_get_processors() + (n - 1));
	const struct cpuinfo_processor* p = cpuinfo_get_current_processor();
	h = mix(h, p == NULL ? 77 : p->linux_id);
	const struct cpuinfo_core* c = cpuinfo_get_current_core();
	h = mix(h, c == NULL ? 77 : c->core_id);
	h = mix(h, cpuinfo_get_current_uarch_index_with_default(5));
	h = mix(h, cpuinfo_has_x86_avx2() + 2 * cpuinfo_has_arm_neon_dot() + 4 * cpuinfo_has_riscv_v());
	return h;
}
uint64_t vu_run(int kind, struct vdesc* d) {
	int ok;
	switch (kind) {
		case 0:
			return cpuinfo_initialize() ? brief() : 0;
		case 1:
			if (!cpuinfo_initialize()) {
				return 0;
			}
			vd_dump(d);
			return brief();
		case 2:
			ok = cpuinfo_initialize();
			if (ok != cpuinfo_initialize()) {
				return 3;
			}
			return ok ? brief() : 0;
		case 3:
			return brief();
		case 4:
			vd_dump(d);
			return brief();
		case 5:
			ok = cpuinfo_initialize();
			cpuinfo_deinitialize();
			return ok ? brief() : 0;
		default:
			return cpuinfo_initialize() ? 2 : 0;
	}
}
