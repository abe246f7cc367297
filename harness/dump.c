/* Compiled once per architecture flavour, with the same macros as the library. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <cpuinfo.h>
#include "vdesc.h"

const char* const vd_isa_names[VI_COUNT] = {
#define X(n) #n,
#include "isa_names.inc"
#undef X
};
#if CPUINFO_ARCH_X86_64
const int vd_arch = 0;
#elif CPUINFO_ARCH_X86
const int vd_arch = 1;
#elif CPUINFO_ARCH_ARM64
const int vd_arch = 2;
#elif CPUINFO_ARCH_ARM
const int vd_arch = 3;
#elif CPUINFO_ARCH_WASM
const int vd_arch = 5;
#else
const int vd_arch = 4;
#endif
const unsigned vd_vendor_sifive = cpuinfo_vendor_sifive;
#ifdef __ANDROID__
const int vd_android = 1;
#else
const int vd_android = 0;
#endif

#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
#define ID(o) ((o).cpuid)
#elif CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
#define ID(o) ((o).midr)
#else
#define ID(o) 0
#endif

static int32_t index_of(const void* p, const void* base, uint32_t count, size_t size) {
	if (p == NULL) {
		return VD_NULL;
	}
	uintptr_t d = (uintptr_t)p - (uintptr_t)base;
	if (base == NULL || (uintptr_t)p < (uintptr_t)base || d % size != 0 || d / size >= count) {
		return VD_BAD;
	}
	return (int32_t)(d / size);
}

int vd_initialize(void) {
	return cpuinfo_initialize();
}
void vd_deinitialize(void) {
	cpuinfo_deinitialize();
}

#define CLAMP(n) ((n) > VD_MAX ? (d->truncated = 1, VD_MAX) : (n))

void vd_dump(struct vdesc* d) {
	d->truncated = 0;
	d->null_array = 0;
	const struct cpuinfo_processor* procs = cpuinfo_get_processors();
	const struct cpuinfo_core* cores = cpuinfo_get_cores();
	const struct cpuinfo_cluster* clusters = cpuinfo_get_clusters();
	const struct cpuinfo_package* packages = cpuinfo_get_packages();
	const struct cpuinfo_uarch_info* uarchs = cpuinfo_get_uarchs();
	const struct cpuinfo_cache* caches[5] = {
		cpuinfo_get_l1i_caches(),
		cpuinfo_get_l1d_caches(),
		cpuinfo_get_l2_caches(),
		cpuinfo_get_l3_caches(),
		cpuinfo_get_l4_caches()};
	d->nproc = cpuinfo_get_processors_count();
	d->ncore = cpuinfo_get_cores_count();
	d->ncluster = cpuinfo_get_clusters_count();
	d->npackage = cpuinfo_get_packages_count();
	d->nuarch = cpuinfo_get_uarchs_count();
	d->ncache[0] = cpuinfo_get_l1i_caches_count();
	d->ncache[1] = cpuinfo_get_l1d_caches_count();
	d->ncache[2] = cpuinfo_get_l2_caches_count();
	d->ncache[3] = cpuinfo_get_l3_caches_count();
	d->ncache[4] = cpuinfo_get_l4_caches_count();
	if ((!procs && d->nproc) || (!cores && d->ncore) || (!clusters && d->ncluster) || (!packages && d->npackage) ||
	    (!uarchs && d->nuarch)) {
		d->null_array = 1;
		return;
	}
	for (int k = 0; k < 5; k++) {
		if (!caches[k] && d->ncache[k]) {
			d->null_array = 1;
			return;
		}
	}
	for (uint32_t i = 0; i < CLAMP(d->nproc); i++) {
		const struct cpuinfo_processor* s = &procs[i];
		struct vd_processor* t = &d->proc[i];
		t->smt_id = s->smt_id;
		t->core = index_of(s->core, cores, d->ncore, sizeof(*cores));
		t->cluster = index_of(s->cluster, clusters, d->ncluster, sizeof(*clusters));
		t->package = index_of(s->package, packages, d->npackage, sizeof(*packages));
#if defined(__linux__)
		t->linux_id = (uint32_t)s->linux_id;
#elif defined(_WIN32)
		t->linux_id = (uint32_t)s->windows_group_id << 16 | s->windows_processor_id;
#else
		t->linux_id = i;
#endif
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
		t->apic_id = s->apic_id;
#else
		t->apic_id = 0;
#endif
		t->cache[0] = index_of(s->cache.l1i, caches[0], d->ncache[0], sizeof(struct cpuinfo_cache));
		t->cache[1] = index_of(s->cache.l1d, caches[1], d->ncache[1], sizeof(struct cpuinfo_cache));
		t->cache[2] = index_of(s->cache.l2, caches[2], d->ncache[2], sizeof(struct cpuinfo_cache));
		t->cache[3] = index_of(s->cache.l3, caches[3], d->ncache[3], sizeof(struct cpuinfo_cache));
		t->cache[4] = index_of(s->cache.l4, caches[4], d->ncache[4], sizeof(struct cpuinfo_cache));
	}
	for (uint32_t i = 0; i < CLAMP(d->ncore); i++) {
		const struct cpuinfo_core* s = &cores[i];
		struct vd_core* t = &d->core[i];
		t->processor_start = s->processor_start;
		t->processor_count = s->processor_count;
		t->core_id = s->core_id;
		t->cluster = index_of(s->cluster, clusters, d->ncluster, sizeof(*clusters));
		t->package = index_of(s->package, packages, d->npackage, sizeof(*packages));
		t->vendor = s->vendor;
		t->uarch = s->uarch;
		t->id = ID(*s);
		t->frequency = s->frequency;
	}
	for (uint32_t i = 0; i < CLAMP(d->ncluster); i++) {
		const struct cpuinfo_cluster* s = &clusters[i];
		struct vd_cluster* t = &d->cluster[i];
		t->processor_start = s->processor_start;
		t->processor_count = s->processor_count;
		t->core_start = s->core_start;
		t->core_count = s->core_count;
		t->cluster_id = s->cluster_id;
		t->package = index_of(s->package, packages, d->npackage, sizeof(*packages));
		t->vendor = s->vendor;
		t->uarch = s->uarch;
		t->id = ID(*s);
		t->frequency = s->frequency;
	}
	for (uint32_t i = 0; i < CLAMP(d->npackage); i++) {
		const struct cpuinfo_package* s = &packages[i];
		struct vd_package* t = &d->package[i];
		memset(t->name, 0, sizeof(t->name));
		t->name_terminated = 0;
		for (int k = 0; k < CPUINFO_PACKAGE_NAME_MAX; k++) {
			if (s->name[k] == 0) {
				t->name_terminated = 1;
				break;
			}
			t->name[k] = s->name[k];
		}
		t->processor_start = s->processor_start;
		t->processor_count = s->processor_count;
		t->core_start = s->core_start;
		t->core_count = s->core_count;
		t->cluster_start = s->cluster_start;
		t->cluster_count = s->cluster_count;
	}
	for (uint32_t i = 0; i < CLAMP(d->nuarch); i++) {
		const struct cpuinfo_uarch_info* s = &uarchs[i];
		struct vd_uarch* t = &d->uarch[i];
		t->uarch = s->uarch;
		t->id = ID(*s);
		t->processor_count = s->processor_count;
		t->core_count = s->core_count;
	}
	for (int k = 0; k < 5; k++) {
		for (uint32_t i = 0; i < CLAMP(d->ncache[k]); i++) {
			const struct cpuinfo_cache* s = &caches[k][i];
			struct vd_cache* t = &d->cache[k][i];
			t->size = s->size;
			t->associativity = s->associativity;
			t->sets = s->sets;
			t->partitions = s->partitions;
			t->line_size = s->line_size;
			t->flags = s->flags;
			t->processor_start = s->processor_start;
			t->processor_count = s->processor_count;
		}
	}
	d->max_cache_size = cpuinfo_get_max_cache_size();
	d->sve_length = cpuinfo_get_max_arm_sve_length();
	uint8_t* isa = d->isa;
#define X(n) *isa++ = cpuinfo_has_##n();
#include "isa_names.inc"
#undef X
}

#define ARRAY(n, t) {"cpuinfo_get_" #n, VK_ARRAY, t},
#define INDEXED(n, t) {"cpuinfo_get_" #n, VK_INDEXED, t},
#define COUNT(n, t) {"cpuinfo_get_" #n "_count", VK_COUNT, t},
const struct vd_getter vd_getters[] = {
	ARRAY(processors, 0) ARRAY(cores, 1) ARRAY(clusters, 2) ARRAY(packages, 3) ARRAY(uarchs, 4) ARRAY(l1i_caches, 5)
		ARRAY(l1d_caches, 6) ARRAY(l2_caches, 7) ARRAY(l3_caches, 8) ARRAY(l4_caches, 9) INDEXED(processor, 0)
			INDEXED(core, 1) INDEXED(cluster, 2) INDEXED(package, 3) INDEXED(uarch, 4) INDEXED(l1i_cache, 5)
				INDEXED(l1d_cache, 6) INDEXED(l2_cache, 7) INDEXED(l3_cache, 8) INDEXED(l4_cache, 9)
					COUNT(processors, 0) COUNT(cores, 1) COUNT(clusters, 2) COUNT(packages, 3) COUNT(uarchs, 4)
						COUNT(l1i_caches, 5) COUNT(l1d_caches, 6) COUNT(l2_caches, 7) COUNT(l3_caches, 8)
							COUNT(l4_caches, 9){"cpuinfo_get_max_cache_size", VK_MAXCACHE, 0},
	{"cpuinfo_get_current_processor", VK_CURRENT, 0},
	{"cpuinfo_get_current_core", VK_CURRENT, 1},
	{"cpuinfo_get_current_uarch_index", VK_CURRENT, 2},
	{"cpuinfo_get_current_uarch_index_with_default", VK_CURRENT, 3},
};
const int vd_getters_count = sizeof(vd_getters) / sizeof(vd_getters[0]);

uint64_t vd_call(int getter, uint32_t arg) {
	switch (getter) {
#define A(i, n) \
	case i:      \
		return (uint64_t)(uintptr_t)cpuinfo_get_##n();
#define I(i, n) \
	case i:      \
		return (uint64_t)(uintptr_t)cpuinfo_get_##n(arg);
#define C(i, n) \
	case i:      \
		return (uint64_t)cpuinfo_get_##n();
		A(0, processors) A(1, cores) A(2, clusters) A(3, packages) A(4, uarchs) A(5, l1i_caches) A(6, l1d_caches)
			A(7, l2_caches) A(8, l3_caches) A(9, l4_caches) I(10, processor) I(11, core) I(12, cluster)
				I(13, package) I(14, uarch) I(15, l1i_cache) I(16, l1d_cache) I(17, l2_cache) I(18, l3_cache)
					I(19, l4_cache) C(20, processors_count) C(21, cores_count) C(22, clusters_count)
						C(23, packages_count) C(24, uarchs_count) C(25, l1i_caches_count) C(26, l1d_caches_count)
							C(27, l2_caches_count) C(28, l3_caches_count) C(29, l4_caches_count)
								C(30, max_cache_size) A(31, current_processor) A(32, current_core)
									C(33, current_uarch_index) case 34
			: return cpuinfo_get_current_uarch_index_with_default(arg);
	}
	return 0;
}

uint32_t vd_element_size(int table) {
	switch (table) {
		case 0:
			return sizeof(struct cpuinfo_processor);
		case 1:
			return sizeof(struct cpuinfo_core);
		case 2:
			return sizeof(struct cpuinfo_cluster);
		case 3:
			return sizeof(struct cpuinfo_package);
		case 4:
			return sizeof(struct cpuinfo_uarch_info);
		default:
			return sizeof(struct cpuinfo_cache);
	}
}

int32_t vd_current_processor(void) {
	return index_of(
		cpuinfo_get_current_processor(),
		cpuinfo_get_processors(),
		cpuinfo_get_processors_count(),
		sizeof(struct cpuinfo_processor));
}
int32_t vd_current_core(void) {
	return index_of(
		cpuinfo_get_current_core(), cpuinfo_get_cores(), cpuinfo_get_cores_count(), sizeof(struct cpuinfo_core));
}
uint32_t vd_current_uarch_index(void) {
	return cpuinfo_get_current_uarch_index();
}
uint32_t vd_current_uarch_index_with_default(uint32_t d) {
	return cpuinfo_get_current_uarch_index_with_default(d);
}
