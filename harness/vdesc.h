/* Architecture-neutral copy of everything the public interface of the library reports. */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define VD_MAX 600
#define VD_BAD (-2) /* pointer which is not an element of the corresponding array */
#define VD_NULL (-1)

struct vd_processor {
	uint32_t smt_id;
	int32_t core, cluster, package;
	uint32_t linux_id;
	uint32_t apic_id;
	int32_t cache[5]; /* l1i l1d l2 l3 l4 */
};
struct vd_core {
	uint32_t processor_start, processor_count, core_id;
	int32_t cluster, package;
	uint32_t vendor, uarch, id;
	uint64_t frequency;
};
struct vd_cluster {
	uint32_t processor_start, processor_count, core_start, core_count, cluster_id;
	int32_t package;
	uint32_t vendor, uarch, id;
	uint64_t frequency;
};
struct vd_package {
	char name[64];
	uint32_t name_terminated;
	uint32_t processor_start, processor_count, core_start, core_count, cluster_start, cluster_count;
};
struct vd_uarch {
	uint32_t uarch, id, processor_count, core_count;
};
struct vd_cache {
	uint32_t size, associativity, sets, partitions, line_size, flags, processor_start, processor_count;
};
enum {
#define X(n) VI_##n,
#include "isa_names.inc"
#undef X
	VI_COUNT
};
struct vdesc {
	uint32_t nproc, ncore, ncluster, npackage, nuarch, ncache[5];
	uint32_t truncated; /* a count exceeds VD_MAX */
	uint32_t null_array; /* an array getter returned NULL although its count is not zero */
	struct vd_processor proc[VD_MAX];
	struct vd_core core[VD_MAX];
	struct vd_cluster cluster[VD_MAX];
	struct vd_package package[VD_MAX];
	struct vd_uarch uarch[VD_MAX];
	struct vd_cache cache[5][VD_MAX];
	uint32_t max_cache_size;
	uint32_t sve_length;
	uint8_t isa[VI_COUNT];
};
extern const char* const vd_isa_names[VI_COUNT];
int vd_initialize(void);
void vd_deinitialize(void);
/* Fills the description through the public getters; may end in abort() when not initialized */
void vd_dump(struct vdesc* d);
/* Every public getter, by index; writes a value which identifies the answer. Returns 0 if there is no such getter */
enum vd_kind { VK_ARRAY, VK_INDEXED, VK_COUNT, VK_MAXCACHE, VK_CURRENT };
struct vd_getter {
	const char* name;
	enum vd_kind kind;
	int table; /* 0 processors 1 cores 2 clusters 3 packages 4 uarchs 5..9 caches */
};
extern const struct vd_getter vd_getters[];
extern const int vd_getters_count;
/* value: pointer for array/indexed/current processor/core; number for counts */
uint64_t vd_call(int getter, uint32_t arg);
uint32_t vd_element_size(int table);
int32_t vd_current_processor(void); /* index, VD_NULL or VD_BAD */
int32_t vd_current_core(void);
uint32_t vd_current_uarch_index(void);
uint32_t vd_current_uarch_index_with_default(uint32_t d);
extern const int vd_arch; /* 0 x86-64, 1 i386, 2 arm64, 3 arm32, 4 riscv64 */
extern const int vd_android;
extern const unsigned vd_vendor_sifive;
#ifdef __cplusplus
}
#endif
