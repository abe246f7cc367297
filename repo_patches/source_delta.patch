From 89c98ba13376f12f698aaf716b2c3a47aa3cc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:52 +0000
Subject: [PATCH 01/69] fix: count present processors which /proc/cpuinfo does
 not list

On ARM the processor arrays were sized by the number of processors listed
in /proc/cpuinfo, but filled from, and clustered over, all possible and
present processors. With offline processors (or with old kernels which
list none) online processors were dropped, clusters and microarchitectures
referred to processors beyond the end of the array, and a single-core
system was reported to have no processors.

Count every possible and present processor, as the clustering code and the
device tests expect.
---
 src/arm/linux/init.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..835e7c4 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -203,14 +203,9 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
-- 
2.43.0


From 098a2ba70ada3cd8afbf308a76fad7c3fdc9b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:23 +0000
Subject: [PATCH 02/69] Let a verification harness answer XGETBV

With CPUINFO_VERIF defined, xgetbv() calls a function supplied by the
harness instead of executing the instruction. Without it nothing changes.
---
 src/x86/cpuid.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x86/cpuid.h b/src/x86/cpuid.h
index 0d7cf5c..598bf75 100644
--- a/src/x86/cpuid.h
+++ b/src/x86/cpuid.h
@@ -66,8 +66,15 @@ static inline struct cpuid_regs cpuidex(uint32_t eax, uint32_t ecx) {
 }
 #endif
 
+#if CPUINFO_VERIF
+/* Supplied by a verification harness to simulate the extended control register */
+extern uint64_t cpuinfo_verif_xgetbv(uint32_t ext_ctrl_reg);
+#endif
+
 static inline uint64_t xgetbv(uint32_t ext_ctrl_reg) {
-#ifdef _MSC_VER
+#if CPUINFO_VERIF
+	return cpuinfo_verif_xgetbv(ext_ctrl_reg);
+#elif defined(_MSC_VER)
 	return (uint64_t)_xgetbv((unsigned int)ext_ctrl_reg);
 #else
 	uint32_t lo, hi;
-- 
2.43.0


From 41ff16ed2bd988656e1c2c6f1a81ef184c7c938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:01 +0000
Subject: [PATCH 03/69] fix: keep the threads of an x86 core in one cluster

When the last-level cache is declared as shared by fewer logical processors
than a core has threads, or no cache is declared at all, every thread was put
in a cluster of its own. The core then belonged to one cluster only and the
other clusters had no cores.
---
 src/x86/linux/init.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..55ddece 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -62,7 +62,8 @@ static void cpuinfo_x86_count_objects(
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(processor->topology.core_bits_length) << processor->topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	/* Logical processors of one core are never in different clusters */
+	const uint32_t cluster_apic_mask = core_apic_mask & (package_apic_mask | llc_apic_mask);
 
 	uint32_t cores_count = 0, clusters_count = 0, packages_count = 0;
 	uint32_t l1i_count = 0, l1d_count = 0, l2_count = 0, l3_count = 0, l4_count = 0;
@@ -381,7 +382,8 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(x86_processor.topology.core_bits_length) << x86_processor.topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	/* Logical processors of one core are never in different clusters */
+	const uint32_t cluster_apic_mask = core_apic_mask & (package_apic_mask | llc_apic_mask);
 
 	uint32_t processor_index = UINT32_MAX, core_index = UINT32_MAX, cluster_index = UINT32_MAX,
 		 package_index = UINT32_MAX;
-- 
2.43.0


From 9d6b2a6bfdc585bbadabd9f39444036700aa6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:01 +0000
Subject: [PATCH 04/69] fix: treat x2APIC level shifts as cumulative

CPUID leaf 0xB reports for each level the number of APIC ID bits below the
next level, including the bits of the lower levels. Adding the values up made
the core field too wide on processors with hyper-threading, so that distinct
packages could be merged.
---
 src/x86/topology.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..f0b6619 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -104,7 +104,9 @@ void cpuinfo_x86_detect_topology(
 		do {
 			const struct cpuid_regs leafB = cpuidex(UINT32_C(0xB), level);
 			type = (leafB.ecx >> 8) & UINT32_C(0x000000FF);
-			const uint32_t level_shift = leafB.eax & UINT32_C(0x0000001F);
+			/* Shift to the ID of the next level, i.e. it includes the bits of all levels so far */
+			const uint32_t next_shift = leafB.eax & UINT32_C(0x0000001F);
+			const uint32_t level_shift = next_shift > total_shift ? next_shift - total_shift : 0;
 			const uint32_t x2apic_id = leafB.edx;
 			apic_id = x2apic_id;
 			switch (type) {
-- 
2.43.0


From c9af9c83e8e28a27198a65608e3f03b8564cf01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:01 +0000
Subject: [PATCH 05/69] fix: correct the geometry of cache descriptors 0x82 and
 0xD2

Descriptor 0x82 is an 8-way cache. The size of descriptor 0xD2 had a typo in
the multiplier and was not the product of its geometry.
---
 src/x86/cache/descriptor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 93d855a..9caa7f4 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1255,8 +1255,8 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 */
 			cache->l2 = (struct cpuinfo_x86_cache){
 				.size = 256 * 1024,
-				.associativity = 4,
-				.sets = 2048,
+				.associativity = 8,
+				.sets = 1024,
 				.partitions = 1,
 				.line_size = 32,
 				.flags = CPUINFO_CACHE_INCLUSIVE,
@@ -1593,7 +1593,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * size"
 			 */
 			cache->l3 = (struct cpuinfo_x86_cache){
-				.size = 2 * 1024 * 2014,
+				.size = 2 * 1024 * 1024,
 				.associativity = 4,
 				.sets = 8192,
 				.partitions = 1,
-- 
2.43.0


From 2c6b2b534fdf0d9e5dde90e823204cc317a94827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:01 +0000
Subject: [PATCH 06/69] fix: ignore CPUID leaf 2 registers without valid
 descriptors

A register with bit 31 set does not contain cache descriptors.
---
 src/x86/cache/init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/cache/init.c b/src/x86/cache/init.c
index 34af90e..513954a 100644
--- a/src/x86/cache/init.c
+++ b/src/x86/cache/init.c
@@ -47,7 +47,9 @@ void cpuinfo_x86_detect_cache(
 		iterate_descriptors:
 			for (uint32_t i = 1 /* note: not 0 */; i < 16; i++) {
 				const uint8_t descriptor = descriptors.as_bytes[i];
-				if (descriptor != 0) {
+				/* Registers with bit 31 set contain no valid descriptors */
+				const bool valid = !(descriptors.as_bytes[i | 3] & UINT8_C(0x80));
+				if (valid && descriptor != 0) {
 					cpuinfo_x86_decode_cache_descriptor(
 						descriptor,
 						vendor,
-- 
2.43.0


From dcc120195acb42f9739d5dfa2a2307f06c8abf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:31 +0000
Subject: [PATCH 07/69] fix: release the processor table when /proc/cpuinfo
 cannot be parsed on x86

Initialization returned without freeing the table of logical processors.
---
 src/x86/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 55ddece..26d50f0 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -208,7 +208,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From 26c4aceba5f2948095ec6d5ce969244f8e13baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:31 +0000
Subject: [PATCH 08/69] fix: fail initialization on x86 when no logical
 processor is usable

With disjoint lists of possible and present processors the library read past
the end of an empty processor table and reported success with no processors.
---
 src/x86/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 26d50f0..cb735ea 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -231,6 +231,11 @@ void cpuinfo_x86_linux_init(void) {
 		}
 	}
 
+	if (processors_count == 0) {
+		cpuinfo_log_error("no usable logical processors found");
+		goto cleanup;
+	}
+
 	qsort(x86_linux_processors,
 	      x86_linux_processors_count,
 	      sizeof(struct cpuinfo_x86_linux_processor),
-- 
2.43.0


From e89264e8f8dbd1e274b091429a2639893ba24343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:31 +0000
Subject: [PATCH 09/69] fix: make the order of x86 processors without APIC ID
 deterministic

Present processors which are offline are not listed in /proc/cpuinfo and all
get APIC ID zero. Their order depended on how the C library sorts equal
elements.
---
 src/x86/linux/init.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index cb735ea..e72cf98 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -40,7 +40,12 @@ static int cmp_x86_linux_processor(const void* ptr_a, const void* ptr_b) {
 	/* Compare based on APIC ID (i.e. processor 0 < processor 1) */
 	const uint32_t id_a = processor_a->apic_id;
 	const uint32_t id_b = processor_b->apic_id;
-	return cmp(id_a, id_b);
+	if (id_a != id_b) {
+		return cmp(id_a, id_b);
+	}
+
+	/* Processors which /proc/cpuinfo does not list have no APIC ID: keep their order defined */
+	return cmp(processor_a->linux_id, processor_b->linux_id);
 }
 
 static void cpuinfo_x86_count_objects(
-- 
2.43.0


From 27a27cccb65c8786c1b5a55d7da92d3191cd81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:40 +0000
Subject: [PATCH 10/69] fix: recognise Sapphire Rapids and Emerald Rapids
 processors

They were reported with an unknown microarchitecture, and the known_uarch test
failed on them.
---
 include/cpuinfo.h | 2 ++
 src/x86/uarch.c   | 3 +++
 tools/cpu-info.c  | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..7947993 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,8 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Intel 7, Sapphire/Emerald Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020E,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..f03ff62 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,9 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_golden_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
diff --git a/tools/cpu-info.c b/tools/cpu-info.c
index ca3ebfa..13fe278 100644
--- a/tools/cpu-info.c
+++ b/tools/cpu-info.c
@@ -80,6 +80,8 @@ static const char* uarch_to_string(enum cpuinfo_uarch uarch) {
 			return "Palm Cove";
 		case cpuinfo_uarch_sunny_cove:
 			return "Sunny Cove";
+		case cpuinfo_uarch_golden_cove:
+			return "Golden Cove";
 		case cpuinfo_uarch_willamette:
 			return "Willamette";
 		case cpuinfo_uarch_prescott:
-- 
2.43.0


From 63e7627260914dce402fcaa6fb5cd9a0dff8fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:39 +0000
Subject: [PATCH 11/69] fix: report VAES and VPCLMULQDQ only when AVX registers
 are enabled

Both instruction sets need AVX register state. Without it in XCR0 they fault,
like the other VEX-encoded instructions.
---
 src/x86/isa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 222bd23..9224817 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -713,7 +713,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VAES instructions:
 	 * - Intel: ecx[bit 9] in structured feature info (ecx = 0).
 	 */
-	isa.vaes = !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
+	isa.vaes = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
 
 	/*
 	 * PCLMULQDQ instruction:
@@ -725,7 +725,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VPCLMULQDQ instruction:
 	 * - Intel: ecx[bit 10] in structured feature info (ecx = 0).
 	 */
-	isa.vpclmulqdq = !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
+	isa.vpclmulqdq = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
 
 	/*
 	 * GFNI instructions:
-- 
2.43.0


From e0d1d7cd05bfb13c809994a78130899bd1c45d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:39 +0000
Subject: [PATCH 12/69] fix: read CPUID leaf 0x24 only when the processor has
 it

A leaf beyond the maximum returns the data of the highest leaf on Intel
processors, which was taken for the AVX10 version.
---
 src/x86/isa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 9224817..b5b40ab 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -47,7 +47,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	const struct cpuid_regs structured_feature_info1 =
 		(max_base_index >= 7) ? cpuidex(7, 1) : (struct cpuid_regs){0, 0, 0, 0};
 	const struct cpuid_regs structured_feature_info2 =
-		(max_base_index >= 7) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
+		(max_base_index >= 0x24) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
 
 	const uint32_t processor_capacity_info_index = UINT32_C(0x80000008);
 	const struct cpuid_regs processor_capacity_info = (max_extended_index >= processor_capacity_info_index)
-- 
2.43.0


From a10ec3caa93d48cafb49cd77f0267bbff3aae826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:39 +0000
Subject: [PATCH 13/69] fix: report AMX according to tile register state

AMX instructions need the XTILECFG and XTILEDATA state (XCR0 bits 17 and 18),
not the AVX512 state.
---
 src/x86/isa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index b5b40ab..d1808f8 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -54,7 +54,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		? cpuid(processor_capacity_info_index)
 		: (struct cpuid_regs){0, 0, 0, 0};
 
-	bool avx_regs = false, avx512_regs = false, mpx_regs = false;
+	bool avx_regs = false, avx512_regs = false, mpx_regs = false, amx_regs = false;
 	/*
 	 * OSXSAVE: Operating system enabled XSAVE instructions for application
 	 * use:
@@ -112,6 +112,16 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		if ((xcr0_valid_bits & mpx_regs_mask) == mpx_regs_mask) {
 			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) == mpx_regs_mask;
 		}
+
+		/*
+		 * AMX registers:
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 17] for XTILECFG
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 18] for XTILEDATA
+		 */
+		const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);
+		if ((xcr0_valid_bits & amx_regs_mask) == amx_regs_mask) {
+			amx_regs = (xfeature_enabled_mask & amx_regs_mask) == amx_regs_mask;
+		}
 	}
 
 #if CPUINFO_ARCH_X86
@@ -555,25 +565,25 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * AMX_BF16 instructions:
 	 * - Intel: edx[bit 22] in structured feature info (ecx = 0).
 	 */
-	isa.amx_bf16 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
+	isa.amx_bf16 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
 
 	/*
 	 * AMX_TILE instructions:
 	 * - Intel: edx[bit 24] in structured feature info (ecx = 0).
 	 */
-	isa.amx_tile = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
+	isa.amx_tile = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
 
 	/*
 	 * AMX_INT8 instructions:
 	 * - Intel: edx[bit 25] in structured feature info (ecx = 0).
 	 */
-	isa.amx_int8 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
+	isa.amx_int8 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
 
 	/*
 	 * AMX_FP16 instructions:
 	 * - Intel: eax[bit 21] in structured feature info (ecx = 1).
 	 */
-	isa.amx_fp16 = avx512_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
+	isa.amx_fp16 = amx_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
 
 	/*
 	 * AVX_VNNI_INT8 instructions:
-- 
2.43.0


From 9ec415b05eb8cfdea8c2ac4b14a2cb9bed6c3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:39 +0000
Subject: [PATCH 14/69] fix: recognise Hygon Dhyana processors

They report family 0x18 (base family 0xF plus extended family 0x9), not 0.
---
 src/x86/uarch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index f03ff62..96a0bcb 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -396,7 +396,7 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 			break;
 		case cpuinfo_vendor_hygon:
 			switch (model_info->family) {
-				case 0x00:
+				case 0x18:
 					return cpuinfo_uarch_dhyana;
 			}
 			break;
-- 
2.43.0


From e801b8ef14d55a06dd980cada46dc41fb6446769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:26 +0000
Subject: [PATCH 15/69] fix: forget "Engineering" after the next word of a
 brand string

Only "Engineering Sample" and "Eng Sample" mark engineering samples. A word
"Sample" anywhere later in the string made the whole name empty.
---
 src/x86/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/x86/name.c b/src/x86/name.c
index 76f6136..950da4e 100644
--- a/src/x86/name.c
+++ b/src/x86/name.c
@@ -62,6 +62,7 @@ static void reset_context(struct parser_state* state) {
 	state->context_upper_letter = NULL;
 	state->context_dual = NULL;
 	state->context_core = NULL;
+	state->context_engineering = NULL;
 }
 
 /**
-- 
2.43.0


From fcf202286566051ddcbbf9c8e8c3ed72d4ef6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:47 +0000
Subject: [PATCH 16/69] fix: free the ARM processor table when /proc/cpuinfo
 can not be parsed

---
 src/arm/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 835e7c4..cc92567 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
-- 
2.43.0


From 6c0d91d2efa6dd6eaea7e6ea5b92a5cb1ca8cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:47 +0000
Subject: [PATCH 17/69] fix: fail ARM initialization when no processor is
 usable

---
 src/arm/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index cc92567..f3dfe76 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -233,6 +233,11 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (valid_processors == 0) {
+		cpuinfo_log_error("no processor is both possible and present");
+		goto cleanup;
+	}
+
 #if defined(__ANDROID__)
 	const struct cpuinfo_arm_chipset chipset =
 		cpuinfo_arm_android_decode_chipset(&android_properties, valid_processors, 0);
-- 
2.43.0


From 6b5676767226dc9be4a461fe392d87536c9fa9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:14 +0000
Subject: [PATCH 18/69] fix: use one architecture version for all ARM cores of
 a cluster

Processors which /proc/cpuinfo does not describe had architecture version 0, so
generic cache parameters differed within a cluster and processors could get an
L2 pointer outside the L2 table.
---
 src/arm/linux/init.c | 6 +++++-
 src/arm/linux/midr.c | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index f3dfe76..5b2fc26 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -451,7 +451,9 @@ void cpuinfo_arm_linux_init(void) {
 					&arm_linux_processors[cluster_leader].uarch);
 			} else {
 				/* Cluster non-leader: copy vendor, uarch, MIDR,
-				 * and frequency from cluster leader */
+				 * frequency, and architecture version (which
+				 * selects generic cache parameters) from
+				 * cluster leader */
 				arm_linux_processors[i].flags |= arm_linux_processors[cluster_leader].flags &
 					(CPUINFO_ARM_LINUX_VALID_MIDR | CPUINFO_LINUX_FLAG_MAX_FREQUENCY);
 				arm_linux_processors[i].midr = arm_linux_processors[cluster_leader].midr;
@@ -459,6 +461,8 @@ void cpuinfo_arm_linux_init(void) {
 				arm_linux_processors[i].uarch = arm_linux_processors[cluster_leader].uarch;
 				arm_linux_processors[i].max_frequency =
 					arm_linux_processors[cluster_leader].max_frequency;
+				arm_linux_processors[i].architecture_version =
+					arm_linux_processors[cluster_leader].architecture_version;
 			}
 		}
 	}
diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 10db278..508b93a 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -869,6 +869,10 @@ uint32_t cpuinfo_arm_linux_detect_cluster_midr(
 					processors[group_leader].max_frequency = processors[i].max_frequency;
 					processors[group_leader].flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
 				}
+				if (processors[group_leader].architecture_version == 0) {
+					processors[group_leader].architecture_version =
+						processors[i].architecture_version;
+				}
 				if (!bitmask_all(processors[group_leader].flags, CPUINFO_ARM_LINUX_VALID_MIDR) &&
 				    bitmask_all(processors[i].flags, CPUINFO_ARM_LINUX_VALID_MIDR)) {
 					processors[group_leader].midr = processors[i].midr;
-- 
2.43.0


From 26e04e21363bcf81ac450059a3e6aee75d101096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:28 +0000
Subject: [PATCH 19/69] fix: compare the first processor too when guessing ARM
 core clusters

---
 src/arm/linux/clusters.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/arm/linux/clusters.c b/src/arm/linux/clusters.c
index 8dd452a..c4e90f8 100644
--- a/src/arm/linux/clusters.c
+++ b/src/arm/linux/clusters.c
@@ -132,7 +132,33 @@ bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(
 						return false;
 					}
 				} else {
+					/* Copy known information from processor to cluster, and
+					 * set the flags accordingly */
 					cluster_flags = 0;
+					if (processors[i].flags & CPUINFO_LINUX_FLAG_MIN_FREQUENCY) {
+						cluster_min_frequency = processors[i].min_frequency;
+						cluster_flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;
+					}
+					if (processors[i].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) {
+						cluster_max_frequency = processors[i].max_frequency;
+						cluster_flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
+					}
+					if (processors[i].flags & CPUINFO_ARM_LINUX_VALID_IMPLEMENTER) {
+						cluster_midr = midr_copy_implementer(cluster_midr, processors[i].midr);
+						cluster_flags |= CPUINFO_ARM_LINUX_VALID_IMPLEMENTER;
+					}
+					if (processors[i].flags & CPUINFO_ARM_LINUX_VALID_VARIANT) {
+						cluster_midr = midr_copy_variant(cluster_midr, processors[i].midr);
+						cluster_flags |= CPUINFO_ARM_LINUX_VALID_VARIANT;
+					}
+					if (processors[i].flags & CPUINFO_ARM_LINUX_VALID_PART) {
+						cluster_midr = midr_copy_part(cluster_midr, processors[i].midr);
+						cluster_flags |= CPUINFO_ARM_LINUX_VALID_PART;
+					}
+					if (processors[i].flags & CPUINFO_ARM_LINUX_VALID_REVISION) {
+						cluster_midr = midr_copy_revision(cluster_midr, processors[i].midr);
+						cluster_flags |= CPUINFO_ARM_LINUX_VALID_REVISION;
+					}
 				}
 
 				cluster_start = i;
-- 
2.43.0


From 7ea6cb106f2bd06c95944241a6b1292d481e7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:57 +0000
Subject: [PATCH 20/69] fix: recognise Kryo 280 Gold when guessing its
 companion core

The identity is compared without variant and revision.
The constant has both, so the comparison never matched.
The LITTLE cluster was then reported as a second big cluster.
---
 src/arm/midr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/midr.h b/src/arm/midr.h
index 5530d5a..0dc50b3 100644
--- a/src/arm/midr.h
+++ b/src/arm/midr.h
@@ -261,7 +261,7 @@ inline static uint32_t midr_little_core_for_big(uint32_t midr) {
 		case CPUINFO_ARM_MIDR_CORTEX_A17:
 		case CPUINFO_ARM_MIDR_CORTEX_A15:
 			return CPUINFO_ARM_MIDR_CORTEX_A7;
-		case CPUINFO_ARM_MIDR_KRYO280_GOLD:
+		case CPUINFO_ARM_MIDR_KRYO280_GOLD & ~(CPUINFO_ARM_MIDR_VARIANT_MASK | CPUINFO_ARM_MIDR_REVISION_MASK):
 			return CPUINFO_ARM_MIDR_KRYO280_SILVER;
 		case CPUINFO_ARM_MIDR_KRYO_GOLD:
 			return CPUINFO_ARM_MIDR_KRYO_SILVER_820;
-- 
2.43.0


From 51501989d732dbac06bdf10926a6c006414a3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:57 +0000
Subject: [PATCH 21/69] fix: count clusters, not processors, in the big.LITTLE
 heuristic

The heuristic applies when the identity of one of two clusters is known.
It was given the number of processors with a known identity.
With two or more such processors the heuristic was skipped.
The unknown cluster was then reported as a copy of the known one.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 508b93a..b7e67ec 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -985,7 +985,7 @@ uint32_t cpuinfo_arm_linux_detect_cluster_midr(
 				/* Try big.LITTLE heuristic */
 				if (cpuinfo_arm_linux_detect_cluster_midr_by_big_little_heuristic(
 					    clusters_count,
-					    processors_with_midr_count,
+					    clusters_with_midr_count,
 					    last_processor_with_midr,
 					    cluster_leaders,
 					    processors,
-- 
2.43.0


From 5f30de7757184670c2051caa7dc36efeecac10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:57 +0000
Subject: [PATCH 22/69] fix: correct the number of cores of MediaTek MT6592

The table of known configurations has two clusters of four cores.
It gave four as the total, so the entry was never used.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index b7e67ec..77bdbf2 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -443,7 +443,7 @@ static const struct cluster_config
 				 * MediaTek MT6592: 4x Cortex-A7 + 4x Cortex-A7
 				 * Some phones use non-standard /proc/cpuinfo format.
 				 */
-				.cores = 4,
+				.cores = 8,
 				.series = cpuinfo_arm_chipset_series_mediatek_mt,
 				.model = UINT16_C(6592),
 				.clusters = 2,
-- 
2.43.0


From ce7eb2614827a324d9aaefa9a02a0eaf521388cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:46 +0000
Subject: [PATCH 23/69] fix: make the maximum cache size on ARM an upper bound
 of all caches

It was derived from the core type of the first processor only.
Other core types can have larger caches.
Some caches also grow with the number of cores of a cluster.
---
 src/arm/linux/init.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 5b2fc26..19798a4 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -857,6 +857,14 @@ void cpuinfo_arm_linux_init(void) {
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);
+	/* Cores other than the first, and unusually large clusters, may have
+	 * larger caches */
+	for (uint32_t i = 0; i < valid_processors; i++) {
+		const uint32_t max_cache_size = cpuinfo_compute_max_cache_size(&processors[i]);
+		if (cpuinfo_max_cache_size < max_cache_size) {
+			cpuinfo_max_cache_size = max_cache_size;
+		}
+	}
 
 	cpuinfo_linux_cpu_max = arm_linux_processors_count;
 	cpuinfo_linux_cpu_to_processor_map = linux_cpu_to_processor_map;
-- 
2.43.0


From f63cad7512261851a7c89bac25f681b183d8fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:46 +0000
Subject: [PATCH 24/69] fix: report the third-level cache of every ARM cluster

Clusters with the same third-level cache size as the first were not counted.
If a further cluster had another size or no such cache, the table was too small.
The last clusters were then reported without a third-level cache.
---
 src/arm/linux/init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 19798a4..ee512fb 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -707,14 +707,13 @@ void cpuinfo_arm_linux_init(void) {
 			 */
 			l2_count += 1;
 			if (arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id) {
+				l3_count += 1;
 				if (cluster_id == 0) {
 					big_l3_size = temp_l3.size;
-					l3_count = 1;
 				} else if (temp_l3.size != big_l3_size) {
 					/* If some cores have different L3 size,
 					 * L3 is not shared between all cores */
 					shared_l3 = false;
-					l3_count += 1;
 				}
 			}
 		} else {
@@ -733,6 +732,10 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (shared_l3 && l3_count != 0) {
+		l3_count = 1;
+	}
+
 	if (l2_count != 0) {
 		l2 = calloc(l2_count, sizeof(struct cpuinfo_cache));
 		if (l2 == NULL) {
-- 
2.43.0


From 10b2a6a8588139d77d4d78db975595c97f6ad5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:46 +0000
Subject: [PATCH 25/69] fix: keep the processor range of caches reported by
 /proc/cpuinfo

Old 32-bit kernels report the geometry of first-level caches.
Using it discarded the range of processors which use the cache.
---
 src/arm/linux/init.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index ee512fb..0afdc61 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -684,7 +684,9 @@ void cpuinfo_arm_linux_init(void) {
 				.associativity = arm_linux_processors[i].proc_cpuinfo_cache.i_assoc,
 				.sets = arm_linux_processors[i].proc_cpuinfo_cache.i_sets,
 				.partitions = 1,
-				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.i_line_length};
+				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.i_line_length,
+				.processor_start = i,
+				.processor_count = 1};
 		}
 		/* L1D reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_DCACHE)) {
@@ -693,7 +695,9 @@ void cpuinfo_arm_linux_init(void) {
 				.associativity = arm_linux_processors[i].proc_cpuinfo_cache.d_assoc,
 				.sets = arm_linux_processors[i].proc_cpuinfo_cache.d_sets,
 				.partitions = 1,
-				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
+				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length,
+				.processor_start = i,
+				.processor_count = 1};
 		}
 #endif
 
-- 
2.43.0


From 5fbdbdb18cbdf0787c0e5bb131a2f626222f1ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:14 +0000
Subject: [PATCH 26/69] fix: do not decode Kirin chipsets with more than three
 digits by their last three

A text like "Kirin9000" was taken for a Kirin with the model number 000,
because only the last three characters were looked at.
---
 src/arm/linux/chipset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index c4977c3..9a6155c 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -704,6 +704,9 @@ static bool match_kirin(const char* start, const char* end, struct cpuinfo_arm_c
 		if (length != 9) {
 			return false;
 		}
+	} else if (length != 8) {
+		/* Without whitespace, model number follows immediately */
+		return false;
 	}
 
 	/* Validate and parse 3-digit model number */
-- 
2.43.0


From 6b27b251879d7a46d8e1c7a8e70ab1bcab8ba028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:49 +0000
Subject: [PATCH 27/69] fix: do not ignore a character after the model number
 of Samsung Exynos chipsets

Without the optional space the pattern accepted one trailing character,
for example a fifth digit, and decoded a different model. White space at
the end of the line is still accepted.
---
 src/arm/linux/chipset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index 9a6155c..8399b11 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -347,6 +347,11 @@ static bool match_samsung_exynos(
 		model = model * 10 + digit;
 	}
 
+	/* Nothing but white space may follow the model number */
+	if (pos != end && (uint8_t)*pos > (uint8_t)' ') {
+		return false;
+	}
+
 	/* Return parsed chipset */
 	*chipset = (struct cpuinfo_arm_chipset){
 		.vendor = cpuinfo_arm_chipset_vendor_samsung,
-- 
2.43.0


From 9eb592c597c4269d612500a633c87829cb950530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:14 +0000
Subject: [PATCH 28/69] fix: keep the suffix of Leadcore chipsets

The suffix letter was stored in the output structure and then overwritten
when the structure was filled in.
---
 src/arm/linux/chipset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index 8399b11..77ba0a6 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -1081,7 +1081,7 @@ static bool match_lc(const char* start, const char* end, struct cpuinfo_arm_chip
 		const char c = start[6];
 		if (is_ascii_alphabetic(c)) {
 			/* Convert to uppercase */
-			chipset->suffix[0] = c & '\xDF';
+			suffix = c & '\xDF';
 		} else {
 			/* Invalid suffix character */
 			return false;
-- 
2.43.0


From 332446a1cda38e50359d61df1a53c6251590ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:14 +0000
Subject: [PATCH 29/69] fix: do not mix chipset suffixes of different Android
 properties

The length of a suffix was not updated after a longer one was copied over
it, so the next property overwrote only its beginning.
---
 src/arm/linux/chipset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index 77ba0a6..bafd519 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -4040,9 +4040,10 @@ struct cpuinfo_arm_chipset cpuinfo_arm_android_decode_chipset(
 	 * another's chipset suffix, use the longest suffix.
 	 */
 	for (size_t i = 0; i < cpuinfo_android_chipset_property_max; i++) {
-		const size_t chipset_i_suffix_length = strnlen(chipsets[i].suffix, CPUINFO_ARM_CHIPSET_SUFFIX_MAX);
 		for (size_t j = 0; j < i; j++) {
 			if (chipsets[i].series == chipsets[j].series) {
+				const size_t chipset_i_suffix_length =
+					strnlen(chipsets[i].suffix, CPUINFO_ARM_CHIPSET_SUFFIX_MAX);
 				const size_t chipset_j_suffix_length =
 					strnlen(chipsets[j].suffix, CPUINFO_ARM_CHIPSET_SUFFIX_MAX);
 				if (chipset_i_suffix_length != chipset_j_suffix_length) {
-- 
2.43.0


From d99fd4a988c7ced2d151c06e116956a2291897dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:43 +0000
Subject: [PATCH 30/69] fix: do not write past the buffer for Hardware and
 Revision in /proc/cpuinfo

A value which fills the buffer exactly was terminated one byte behind it.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..0ab328b 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From 1bab5e237c83703896300f8d98ec71afc1651491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:43 +0000
Subject: [PATCH 31/69] fix: initialize the revision when /proc/cpuinfo does
 not contain it

Broadcom chipset names were derived from an uninitialized buffer.
---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 0ab328b..f950544 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From 7d449f0b2abd08c14c66f06bde07c32beb386168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:50 +0000
Subject: [PATCH 32/69] fix: keep the processors of a RISC-V core, cluster and
 package together

Processors were sorted by microarchitecture only. With interleaved
numbers, or a sort which is not stable, they were attached to the core,
cluster or package of whichever leader came before them.
---
 src/riscv/linux/init.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 9ab3d6e..f6f258d 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -15,11 +15,29 @@ static inline bool bitmask_all(uint32_t flags, uint32_t mask) {
 
 static int compare_riscv_linux_processors(const void* a, const void* b) {
 	/**
-	 * For our purposes, it is only relevant that the list is sorted by
-	 * micro-architecture, so the nature of ordering is irrelevant.
+	 * The list is sorted by micro-architecture, so that the unique ones can
+	 * be counted. Within a micro-architecture the processors of the same
+	 * package, cluster and core must be adjacent, with their leader (which
+	 * has the smallest ID) in front, whatever numbers the kernel gave them.
 	 */
-	return ((const struct cpuinfo_riscv_linux_processor*)a)->core.uarch -
-		((const struct cpuinfo_riscv_linux_processor*)b)->core.uarch;
+	const struct cpuinfo_riscv_linux_processor* processor_a = (const struct cpuinfo_riscv_linux_processor*)a;
+	const struct cpuinfo_riscv_linux_processor* processor_b = (const struct cpuinfo_riscv_linux_processor*)b;
+	if (processor_a->core.uarch != processor_b->core.uarch) {
+		return processor_a->core.uarch < processor_b->core.uarch ? -1 : 1;
+	}
+	if (processor_a->package_leader_id != processor_b->package_leader_id) {
+		return processor_a->package_leader_id < processor_b->package_leader_id ? -1 : 1;
+	}
+	if (processor_a->cluster_leader_id != processor_b->cluster_leader_id) {
+		return processor_a->cluster_leader_id < processor_b->cluster_leader_id ? -1 : 1;
+	}
+	if (processor_a->core_leader_id != processor_b->core_leader_id) {
+		return processor_a->core_leader_id < processor_b->core_leader_id ? -1 : 1;
+	}
+	if (processor_a->processor.linux_id != processor_b->processor.linux_id) {
+		return processor_a->processor.linux_id < processor_b->processor.linux_id ? -1 : 1;
+	}
+	return 0;
 }
 
 /**
-- 
2.43.0


From e5bd5a04add9ad457a699c057dcb0fef853650f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:50 +0000
Subject: [PATCH 33/69] fix: report RISC-V start indices as positions in the
 reported arrays

The kernel's processor numbers were reported instead. They differ from
positions when numbers have gaps, and cores and clusters are not numbered
like processors.
---
 src/riscv/linux/init.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index f6f258d..8e28237 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -560,6 +560,7 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
+			cores[valid_cores_index - 1].processor_start = valid_processors_index - 1;
 			/* Update uarch core count. */
 			uarchs[valid_uarchs_index - 1].core_count++;
 		}
@@ -569,6 +570,8 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
+			clusters[valid_clusters_index - 1].processor_start = valid_processors_index - 1;
+			clusters[valid_clusters_index - 1].core_start = valid_cores_index - 1;
 		}
 
 		/* Copy cpuinfo_package information, if this is the leader. */
@@ -576,6 +579,9 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
+			packages[valid_packages_index - 1].processor_start = valid_processors_index - 1;
+			packages[valid_packages_index - 1].core_start = valid_cores_index - 1;
+			packages[valid_packages_index - 1].cluster_start = valid_clusters_index - 1;
 		}
 
 		/* Commit pointers on the final structures. */
-- 
2.43.0


From 3f7cc227b132c27f859c8a2e4b9fbb2fa675b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:50 +0000
Subject: [PATCH 34/69] fix: report RISC-V clock rates in Hz

The kernel's value is in kHz.
---
 src/riscv/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 8e28237..ff4ff3e 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -343,7 +343,7 @@ void cpuinfo_riscv_linux_init(void) {
 		/* Populate frequency information of this core. */
 		uint32_t frequency = cpuinfo_linux_get_processor_cur_frequency(processor);
 		if (frequency != 0) {
-			riscv_linux_processors[processor].core.frequency = frequency;
+			riscv_linux_processors[processor].core.frequency = UINT64_C(1000) * frequency;
 			riscv_linux_processors[processor].flags |= CPUINFO_LINUX_FLAG_CUR_FREQUENCY;
 		}
 	}
-- 
2.43.0


From 6dfaf917185e82519e1b6ed8545016eacdaa55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:15 +0000
Subject: [PATCH 35/69] fix: do not let large numbers in processor lists wrap
 around

A number of 2^32 or more denoted a small processor number, and a range
up to 2^32-1 was empty.
---
 src/linux/cpulist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index f6c4c29..1dc0e22 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -44,7 +44,15 @@ inline static const char* parse_number(const char* string, const char* end, uint
 		if (digit >= 10) {
 			break;
 		}
-		number = number * UINT32_C(10) + digit;
+		/*
+		 * Saturate numbers which are out of range, so that neither they nor
+		 * the end of a range with them wrap around to a small number.
+		 */
+		if (number > (UINT32_MAX - 1 - digit) / 10) {
+			number = UINT32_MAX - 1;
+		} else {
+			number = number * UINT32_C(10) + digit;
+		}
 		string += 1;
 	}
 	*number_ptr = number;
-- 
2.43.0


From ea2bff4b3d3ceefaf264e8a5a00bc4ca5089c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:15 +0000
Subject: [PATCH 36/69] fix: fail initialization on RISC-V if no processor is
 present

It succeeded with empty tables if all present processors were above the
kernel's maximum.
---
 src/riscv/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index ff4ff3e..96489fc 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -448,6 +448,11 @@ void cpuinfo_riscv_linux_init(void) {
 		}
 	}
 
+	if (valid_processors_count == 0) {
+		cpuinfo_log_error("no processor is present");
+		goto cleanup;
+	}
+
 	/* Allocate and populate final public ABI structures. */
 	processors = calloc(valid_processors_count, sizeof(struct cpuinfo_processor));
 	if (processors == NULL) {
-- 
2.43.0


From 9f5a644a29c44f068a7bd456970a9bf51f33be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:32 +0000
Subject: [PATCH 37/69] fix: keep RISC-V tables consistent when topology lists
 contradict each other

A processor whose list names another leader, which does not list itself,
was attached to the element before the first one of a table, and counts
were taken from the lists instead of the tables.
---
 src/riscv/linux/init.c | 85 ++++++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 23 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 96489fc..77d869d 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -40,6 +40,29 @@ static int compare_riscv_linux_processors(const void* a, const void* b) {
 	return 0;
 }
 
+/**
+ * Two adjacent processors of the sorted list belong to the same package, cluster
+ * or core if they have the same leaders down to that level. 'previous' is NULL
+ * for the first processor.
+ */
+static inline bool is_same_package(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* current) {
+	return previous != NULL && previous->package_leader_id == current->package_leader_id;
+}
+
+static inline bool is_same_cluster(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* current) {
+	return is_same_package(previous, current) && previous->cluster_leader_id == current->cluster_leader_id;
+}
+
+static inline bool is_same_core(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* current) {
+	return is_same_cluster(previous, current) && previous->core_leader_id == current->core_leader_id;
+}
+
 /**
  * Parses the core cpus list for each processor. This function is called once
  * per-processor, with the IDs of all other processors in the core list.
@@ -415,29 +438,25 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_packages_count = 0;
 	size_t valid_uarchs_count = 0;
 	enum cpuinfo_uarch last_uarch = cpuinfo_uarch_unknown;
+	const struct cpuinfo_riscv_linux_processor* previous = NULL;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
-		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
+		const struct cpuinfo_riscv_linux_processor* current = &riscv_linux_processors[processor];
+		if (!bitmask_all(current->flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
-		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
-		 */
-		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
-
 		valid_processors_count++;
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+		if (!is_same_core(previous, current)) {
 			valid_cores_count++;
 		}
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+		if (!is_same_cluster(previous, current)) {
 			valid_clusters_count++;
 		}
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+		if (!is_same_package(previous, current)) {
 			valid_packages_count++;
 		}
+		previous = current;
+
 		/**
 		 * As we've sorted by micro-architecture, when the uarch differs
 		 * between two entries, a unique uarch has been observed.
@@ -533,16 +552,17 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_packages_index = 0;
 	size_t valid_uarchs_index = 0;
 	last_uarch = cpuinfo_uarch_unknown;
+	previous = NULL;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
-		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
+		const struct cpuinfo_riscv_linux_processor* current = &riscv_linux_processors[processor];
+		if (!bitmask_all(current->flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
 		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
+		 * The 'linux_id' must be used as opposed to 'processor'. The
+		 * sort function above no longer allows us to make the
+		 * assumption that these two values are the same.
 		 */
 		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
 
@@ -560,34 +580,53 @@ void cpuinfo_riscv_linux_init(void) {
 		/* Update uarch processor count. */
 		uarchs[valid_uarchs_index - 1].processor_count++;
 
-		/* Copy cpuinfo_core information, if this is the leader. */
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+		/* Copy cpuinfo_core information, if this starts a new core. */
+		if (!is_same_core(previous, current)) {
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
 			cores[valid_cores_index - 1].processor_start = valid_processors_index - 1;
+			cores[valid_cores_index - 1].processor_count = 0;
 			/* Update uarch core count. */
 			uarchs[valid_uarchs_index - 1].core_count++;
 		}
 
-		/* Copy cpuinfo_cluster information, if this is the leader. */
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+		/* Copy cpuinfo_cluster information, if this starts a new cluster. */
+		if (!is_same_cluster(previous, current)) {
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
 			clusters[valid_clusters_index - 1].processor_start = valid_processors_index - 1;
+			clusters[valid_clusters_index - 1].processor_count = 0;
 			clusters[valid_clusters_index - 1].core_start = valid_cores_index - 1;
+			clusters[valid_clusters_index - 1].core_count = 0;
 		}
 
-		/* Copy cpuinfo_package information, if this is the leader. */
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+		/* Copy cpuinfo_package information, if this starts a new package. */
+		if (!is_same_package(previous, current)) {
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
 			packages[valid_packages_index - 1].processor_start = valid_processors_index - 1;
+			packages[valid_packages_index - 1].processor_count = 0;
 			packages[valid_packages_index - 1].core_start = valid_cores_index - 1;
+			packages[valid_packages_index - 1].core_count = 0;
 			packages[valid_packages_index - 1].cluster_start = valid_clusters_index - 1;
+			packages[valid_packages_index - 1].cluster_count = 0;
+		}
+
+		/* Count what was added at each level. */
+		cores[valid_cores_index - 1].processor_count++;
+		clusters[valid_clusters_index - 1].processor_count++;
+		packages[valid_packages_index - 1].processor_count++;
+		if (!is_same_core(previous, current)) {
+			clusters[valid_clusters_index - 1].core_count++;
+			packages[valid_packages_index - 1].core_count++;
+		}
+		if (!is_same_cluster(previous, current)) {
+			packages[valid_packages_index - 1].cluster_count++;
 		}
+		previous = current;
 
 		/* Commit pointers on the final structures. */
 		processors[valid_processors_index - 1].core = &cores[valid_cores_index - 1];
-- 
2.43.0


From beda809156ee66d987320ed20d68c32e0f99acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:32 +0000
Subject: [PATCH 38/69] fix: ignore RISC-V core siblings which are out of range
 or not present

One entry of the list without present processors failed initialization,
although the processor itself was in another entry.
---
 src/riscv/linux/init.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 77d869d..6aa65ac 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -119,8 +119,7 @@ static bool core_cpus_parser(
 	}
 	processors[processor].core.processor_count += processor_count;
 	processors[processor].flags |= CPUINFO_LINUX_FLAG_CORE_CLUSTER;
-	/* The parser has failed only if no processors were found. */
-	return processor_count != 0;
+	return true;
 }
 
 /**
-- 
2.43.0


From 82a82301621d9fc104759913463f92af47329fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:28 +0000
Subject: [PATCH 39/69] fix: continue an auxiliary vector entry which a read
 returned in part

A read of /proc/self/auxv which ends in the middle of an entry made
detection drop the capability words and fall back to the feature names
in /proc/cpuinfo. Read the rest of the entry instead.
---
 src/arm/linux/hwcap.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/arm/linux/hwcap.c b/src/arm/linux/hwcap.c
index 7f7b4df..61083eb 100644
--- a/src/arm/linux/hwcap.c
+++ b/src/arm/linux/hwcap.c
@@ -99,32 +99,37 @@ bool cpuinfo_arm_linux_hwcap_from_procfs(uint32_t hwcap[restrict static 1], uint
 		goto cleanup;
 	}
 
+	Elf32_auxv_t elf_auxv;
+	size_t entry_bytes = 0;
 	ssize_t bytes_read;
 	do {
-		Elf32_auxv_t elf_auxv;
-		bytes_read = read(file, &elf_auxv, sizeof(Elf32_auxv_t));
+		/* A read may end in the middle of an entry: continue where it ended */
+		bytes_read = read(file, (char*)&elf_auxv + entry_bytes, sizeof(elf_auxv) - entry_bytes);
 		if (bytes_read < 0) {
 			cpuinfo_log_warning("failed to read /proc/self/auxv: %s", strerror(errno));
 			goto cleanup;
-		} else if (bytes_read > 0) {
-			if (bytes_read == sizeof(elf_auxv)) {
-				switch (elf_auxv.a_type) {
-					case AT_HWCAP:
-						hwcaps[0] = (uint32_t)elf_auxv.a_un.a_val;
-						break;
-					case AT_HWCAP2:
-						hwcaps[1] = (uint64_t)elf_auxv.a_un.a_val;
-						break;
-				}
-			} else {
-				cpuinfo_log_warning(
-					"failed to read %zu bytes from /proc/self/auxv: %zu bytes available",
-					sizeof(elf_auxv),
-					(size_t)bytes_read);
-				goto cleanup;
+		}
+		entry_bytes += (size_t)bytes_read;
+		if (entry_bytes == sizeof(elf_auxv)) {
+			entry_bytes = 0;
+			switch (elf_auxv.a_type) {
+				case AT_HWCAP:
+					hwcaps[0] = (uint32_t)elf_auxv.a_un.a_val;
+					break;
+				case AT_HWCAP2:
+					hwcaps[1] = (uint64_t)elf_auxv.a_un.a_val;
+					break;
 			}
 		}
-	} while (bytes_read == sizeof(Elf32_auxv_t));
+	} while (bytes_read != 0);
+
+	if (entry_bytes != 0) {
+		cpuinfo_log_warning(
+			"failed to read %zu bytes from /proc/self/auxv: %zu bytes available",
+			sizeof(elf_auxv),
+			entry_bytes);
+		goto cleanup;
+	}
 
 	/* Success, commit results */
 	*hwcap = hwcaps[0];
-- 
2.43.0


From 469e7d88745bbe6c94ff941ca227ee3650be7907 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:05 +0000
Subject: [PATCH 40/69] fix: skip lines of /proc/cpuinfo which exceed the line
 buffer

When a line did not fit into the buffer the next read was asked for zero
bytes. Its result looked like the end of the file, so the beginning of the
line was parsed as if it was complete and the rest of the file was lost.
Drop such a line and continue after its end.
---
 src/linux/multiline.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/linux/multiline.c b/src/linux/multiline.c
index 00f4583..95244e3 100644
--- a/src/linux/multiline.c
+++ b/src/linux/multiline.c
@@ -1,5 +1,6 @@
 #include <alloca.h>
 #include <errno.h>
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -40,6 +41,8 @@ bool cpuinfo_linux_parse_multiline_file(
 	uint64_t line_number = 1;
 	const char* buffer_end = &buffer[buffer_size];
 	char* data_start = buffer;
+	/* Set inside of a line which is longer than the buffer */
+	bool skip_line = false;
 	ssize_t bytes_read;
 	do {
 #if CPUINFO_MOCK
@@ -61,7 +64,7 @@ bool cpuinfo_linux_parse_multiline_file(
 			/* No more data in the file: process the remaining text
 			 * in the buffer as a single entry */
 			const char* line_end = data_end;
-			if (!callback(line_start, line_end, context, line_number)) {
+			if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 				goto cleanup;
 			}
 		} else {
@@ -82,16 +85,31 @@ bool cpuinfo_linux_parse_multiline_file(
 				 * data at the end; read the file once again.
 				 */
 				if (line_end != data_end) {
-					if (!callback(line_start, line_end, context, line_number++)) {
+					if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 						goto cleanup;
 					}
+					skip_line = false;
+					line_number++;
 					line_start = line_end + 1;
 				}
 			} while (line_end != data_end);
 
 			/* Move remaining partial line data at the end to the
 			 * beginning of the buffer */
-			const size_t line_length = (size_t)(line_end - line_start);
+			size_t line_length = (size_t)(line_end - line_start);
+			if (line_length == buffer_size) {
+				/* The line does not fit into the buffer: drop
+				 * this part and the remaining parts of it */
+				cpuinfo_log_warning(
+					"line %" PRIu64 " in file %s is ignored: length exceeds limit (%zu)",
+					line_number,
+					filename,
+					buffer_size);
+				skip_line = true;
+			}
+			if (skip_line) {
+				line_length = 0;
+			}
 			memmove(buffer, line_start, line_length);
 			data_start = &buffer[line_length];
 		}
-- 
2.43.0


From 12e1336da2d479cead5b97b1e4bef73e5d330b7d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:05 +0000
Subject: [PATCH 41/69] fix: do not take malformed processor numbers for other
 processors

Processor numbers in /proc/cpuinfo beyond 32 bits wrapped around, and values
which are no numbers counted as zero, so that facts of one processor were
recorded for another. A colon was accepted as a digit, too. Report such
numbers as the largest one, which is beyond every limit.
---
 src/arm/linux/cpuinfo.c | 15 +++++++++++++--
 src/x86/linux/cpuinfo.c | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index f950544..03b9e82 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -20,13 +20,20 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 
 	if (processor_length == 0) {
 		cpuinfo_log_warning("Processor number in /proc/cpuinfo is ignored: string is empty");
-		return 0;
+		return UINT32_MAX;
 	}
 
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
+			if (digit_ptr == processor_start) {
+				cpuinfo_log_warning(
+					"Processor number %.*s in /proc/cpuinfo is ignored: not a decimal number",
+					(int)processor_length,
+					processor_start);
+				return UINT32_MAX;
+			}
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
@@ -34,6 +41,10 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 			break;
 		}
 
+		if (processor_number > (UINT32_MAX - digit) / 10) {
+			/* No such processor */
+			return UINT32_MAX;
+		}
 		processor_number = processor_number * 10 + digit;
 	}
 
diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..ae29885 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -19,13 +19,20 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 
 	if (processor_length == 0) {
 		cpuinfo_log_warning("Processor number in /proc/cpuinfo is ignored: string is empty");
-		return 0;
+		return UINT32_MAX;
 	}
 
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
+			if (digit_ptr == processor_start) {
+				cpuinfo_log_warning(
+					"Processor number %.*s in /proc/cpuinfo is ignored: not a decimal number",
+					(int)processor_length,
+					processor_start);
+				return UINT32_MAX;
+			}
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
@@ -33,6 +40,10 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 			break;
 		}
 
+		if (processor_number > (UINT32_MAX - digit) / 10) {
+			/* No such processor */
+			return UINT32_MAX;
+		}
 		processor_number = processor_number * 10 + digit;
 	}
 
-- 
2.43.0


From 14911bf4ee1a9f57de875309f1d334bd8709e594 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:05 +0000
Subject: [PATCH 42/69] fix: ignore APIC IDs which are out of range

APIC IDs beyond 32 bits wrapped around to the ID of another processor.
The ID 4294967295, which addresses all processors and belongs to none, also
marks the absence of a previous processor when cores are enumerated: a
processor with this ID was recorded before the beginning of the list of cores.
---
 src/x86/linux/cpuinfo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index ae29885..8e9a679 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -73,6 +73,15 @@ static void parse_apic_id(
 			return;
 		}
 
+		/* APIC ID 0xFFFFFFFF means broadcast to all processors */
+		if (apic_id > (UINT32_MAX - 1 - digit) / 10) {
+			cpuinfo_log_warning(
+				"APIC ID %.*s in /proc/cpuinfo is ignored due to value out of range",
+				(int)(apic_end - apic_start),
+				apic_start);
+			return;
+		}
+
 		apic_id = apic_id * 10 + digit;
 	}
 
-- 
2.43.0


From f345a0ebd29cd5e755ee4cd8de6a6253440f210f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:20 +0000
Subject: [PATCH 43/69] fix: ignore CPU revisions in /proc/cpuinfo which are
 out of range

The revision in the Main ID Register has four bits. A larger number was
reduced to its low bits and gave another, valid revision. Ignore it, as it
is done for an implementer, a variant or a part with too many digits.
---
 src/arm/linux/cpuinfo.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 03b9e82..e7db9c7 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -628,6 +628,16 @@ static void parse_cpu_revision(
 		}
 
 		cpu_revision = cpu_revision * 10 + digit;
+
+		/* Main ID Register (MIDR) assigns only a 4-bit value for CPU
+		 * revision */
+		if (cpu_revision > UINT32_C(0xF)) {
+			cpuinfo_log_warning(
+				"CPU revision %.*s in /proc/cpuinfo is ignored due to value out of range",
+				(int)(cpu_revision_end - cpu_revision_start),
+				cpu_revision_start);
+			return;
+		}
 	}
 
 	processor->midr = midr_set_revision(processor->midr, cpu_revision);
-- 
2.43.0


From 7ae4fd5483081759682fa8e04689b8d4b9af8443 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:20 +0000
Subject: [PATCH 44/69] fix: ignore invalid cache parameters in /proc/cpuinfo
 as logged

Cache parameters of zero and unusual cache line sizes were reported as
ignored in the log, but used. Parameters beyond 32 bits wrapped around.
---
 src/arm/linux/cpuinfo.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index e7db9c7..3f210ca 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -681,6 +681,15 @@ static void parse_cache_number(
 			return;
 		}
 
+		if (number > (UINT32_MAX - digit) / 10) {
+			cpuinfo_log_warning(
+				"%s %.*s in /proc/cpuinfo is ignored due to value out of range",
+				number_name,
+				(int)(number_end - number_start),
+				number_start);
+			return;
+		}
+
 		number = number * 10 + digit;
 	}
 
@@ -690,6 +699,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -707,6 +717,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0


From 85f554886d77a180f6acf8fc110bb74389b461c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 01:57:40 +0000
Subject: [PATCH 45/69] fix: ignore numbers in sysfs files which are out of
 range

Frequencies, package IDs and the kernel limit on processors beyond 32 bits
wrapped around to unrelated values. A kernel limit of 4294967295 gave a
limit of no processors at all. Treat such files as unusable.
---
 src/linux/processors.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linux/processors.c b/src/linux/processors.c
index b68cd1c..28782d6 100644
--- a/src/linux/processors.c
+++ b/src/linux/processors.c
@@ -51,6 +51,7 @@
 #define POSSIBLE_CPULIST_FILENAME "/sys/devices/system/cpu/possible"
 #define PRESENT_CPULIST_FILENAME "/sys/devices/system/cpu/present"
 
+/* Returns start if there is no number, or if it does not fit into 32 bits */
 inline static const char* parse_number(const char* start, const char* end, uint32_t number_ptr[restrict static 1]) {
 	uint32_t number = 0;
 	const char* parsed = start;
@@ -59,6 +60,9 @@ inline static const char* parse_number(const char* start, const char* end, uint3
 		if (digit >= 10) {
 			break;
 		}
+		if (number > (UINT32_MAX - digit) / UINT32_C(10)) {
+			return start;
+		}
 		number = number * UINT32_C(10) + digit;
 	}
 	*number_ptr = number;
@@ -102,7 +106,7 @@ static bool uint32_parser(const char* filename, const char* text_start, const ch
 	const char* parsed_end = parse_number(text_start, text_end, &kernel_max);
 	if (parsed_end == text_start) {
 		cpuinfo_log_error(
-			"failed to parse file %s: \"%.*s\" is not an unsigned number",
+			"failed to parse file %s: \"%.*s\" is not an unsigned 32-bit number",
 			filename,
 			(int)(text_end - text_start),
 			text_start);
@@ -127,7 +131,8 @@ static bool uint32_parser(const char* filename, const char* text_start, const ch
 
 uint32_t cpuinfo_linux_get_max_processors_count(void) {
 	uint32_t kernel_max;
-	if (cpuinfo_linux_parse_small_file(KERNEL_MAX_FILENAME, KERNEL_MAX_FILESIZE, uint32_parser, &kernel_max)) {
+	if (cpuinfo_linux_parse_small_file(KERNEL_MAX_FILENAME, KERNEL_MAX_FILESIZE, uint32_parser, &kernel_max) &&
+	    kernel_max != UINT32_MAX) {
 		cpuinfo_log_debug("parsed kernel_max value of %" PRIu32 " from %s", kernel_max, KERNEL_MAX_FILENAME);
 
 		if (kernel_max >= default_max_processors_count) {
-- 
2.43.0


From 8af1be64767107ae5ed3a1f3dc8ef2a327ceab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:32 +0000
Subject: [PATCH 46/69] fix: write the last character of log messages which
 fill the buffer

The terminating null character of the formatted text takes the place of the
newline which is stored afterwards. Space for both was reserved when the
message was formatted, but not when the need for a larger buffer was decided,
so that a line of 1024 bytes lost its last character to the terminator.
---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 2f85128..873ab51 100644
--- a/src/log.c
+++ b/src/log.c
@@ -67,7 +67,7 @@ static void cpuinfo_vlog(
 
 	const int format_chars = vsnprintf(
 		&stack_buffer[prefix_length],
-		CPUINFO_LOG_STACK_BUFFER_SIZE - (prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),
+		CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char),
 		format,
 		args);
 	if (format_chars < 0) {
-- 
2.43.0


From 3a9a96d2a3efc280f1158b1af8552aceb96f1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:33 +0000
Subject: [PATCH 47/69] fix: write all characters of clog messages which fill
 the buffer

A line of 1024 bytes lost the last character of its message, and a prefix of
1024 bytes its last character, to the null character which terminates the
formatted text: the terminator was counted in one place and not in another.
---
 deps/clog/src/clog.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..1b36f6b 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -79,7 +79,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -94,7 +94,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -157,7 +157,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -172,7 +172,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -235,7 +235,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -250,7 +250,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -313,7 +313,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -328,7 +328,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -391,7 +391,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -406,7 +406,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
-- 
2.43.0


From 6cd9e9beeffdd0f7874d61efcda25d8bb9fc81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 48/69] fix: report the right number of cores and caches on
 WebAssembly

With an even number of logical processors on x86 there are half as many
cores and first-level caches as processors, but the counts said there
are as many. The surplus cores were empty, and the surplus caches were
behind the end of their arrays.
---
 src/emscripten/init.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emscripten/init.c b/src/emscripten/init.c
index c239324..d9b1413 100644
--- a/src/emscripten/init.c
+++ b/src/emscripten/init.c
@@ -251,8 +251,8 @@ void cpuinfo_emscripten_init(void) {
 	cpuinfo_clusters = clusters;
 	cpuinfo_packages = &static_package;
 
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = processor_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = processor_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = core_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = core_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	if (is_x86) {
 		cpuinfo_cache_count[cpuinfo_cache_level_3] = 1;
@@ -265,7 +265,7 @@ void cpuinfo_emscripten_init(void) {
 	};
 
 	cpuinfo_processors_count = processor_count;
-	cpuinfo_cores_count = processor_count;
+	cpuinfo_cores_count = core_count;
 	cpuinfo_clusters_count = cluster_count;
 	cpuinfo_packages_count = 1;
 
-- 
2.43.0


From f5177fdf9ede5aee5a59cab634e53a69f69d1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 49/69] fix: count level 1 instruction and data caches
 separately

On macOS, iOS and FreeBSD a machine which reports only one of the two
level 1 caches got the same count for both, next to a NULL array for
the one which does not exist.
---
 src/arm/mach/init.c    | 4 ++--
 src/x86/freebsd/init.c | 4 ++--
 src/x86/mach/init.c    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index c4e6521..b0666b9 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -662,8 +662,8 @@ void cpuinfo_arm_mach_init(void) {
 	cpuinfo_clusters_count = num_clusters;
 	cpuinfo_packages_count = mach_topology.packages;
 	cpuinfo_uarchs_count = num_clusters;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);
diff --git a/src/x86/freebsd/init.c b/src/x86/freebsd/init.c
index 797fa24..0b911fa 100644
--- a/src/x86/freebsd/init.c
+++ b/src/x86/freebsd/init.c
@@ -361,8 +361,8 @@ void cpuinfo_x86_freebsd_init(void) {
 	cpuinfo_cores_count = freebsd_topology.cores;
 	cpuinfo_clusters_count = freebsd_topology.packages;
 	cpuinfo_packages_count = freebsd_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index b8ea604..3e31cd7 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -343,8 +343,8 @@ void cpuinfo_x86_mach_init(void) {
 	cpuinfo_cores_count = mach_topology.cores;
 	cpuinfo_clusters_count = mach_topology.packages;
 	cpuinfo_packages_count = mach_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
-- 
2.43.0


From 7b623eab8114c5583f8874f26f4f7e42b78bbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 50/69] fix: free memory when cache descriptions can not be
 allocated on macOS

A failing allocation of the cache tables returned at once and lost all
tables which were allocated before.
---
 src/x86/mach/init.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index 3e31cd7..bf241d6 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -205,7 +205,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1I caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1i[c] = (struct cpuinfo_cache){
@@ -231,7 +231,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1D caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1d[c] = (struct cpuinfo_cache){
@@ -257,7 +257,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L2 caches",
 				l2_count * sizeof(struct cpuinfo_cache),
 				l2_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l2_count; c++) {
 			l2[c] = (struct cpuinfo_cache){
@@ -283,7 +283,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L3 caches",
 				l3_count * sizeof(struct cpuinfo_cache),
 				l3_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l3_count; c++) {
 			l3[c] = (struct cpuinfo_cache){
@@ -309,7 +309,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L4 caches",
 				l4_count * sizeof(struct cpuinfo_cache),
 				l4_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l4_count; c++) {
 			l4[c] = (struct cpuinfo_cache){
-- 
2.43.0


From cd1e182a64518c8f0c741fed2def880bae11c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 51/69] fix: handle inconsistent numbers of processors, cores
 and packages on macOS

If the number of logical processors could not be read while the number
of cores could, or the numbers do not divide each other, initialization
divided by zero or put pointers behind the end of the tables into the
descriptions of processors. Fall back to one processor per core, and to
one package.
---
 src/mach/topology.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mach/topology.c b/src/mach/topology.c
index 53160ce..b887334 100644
--- a/src/mach/topology.c
+++ b/src/mach/topology.c
@@ -24,10 +24,15 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	size_t sizeof_threads = sizeof(threads);
 	if (sysctlbyname("hw.logicalcpu_max", &threads, &sizeof_threads, NULL, 0) != 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") failed: %s", strerror(errno));
+		threads = cores;
 	} else if (threads <= 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") returned invalid value %d", threads);
 		threads = cores;
 	}
+	if (threads % cores != 0) {
+		cpuinfo_log_error("inconsistent numbers of logical processors (%d) and cores (%d)", threads, cores);
+		cores = threads;
+	}
 
 	int packages = 1;
 #if !TARGET_OS_IPHONE
@@ -38,6 +43,10 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 		cpuinfo_log_error("sysctlbyname(\"hw.packages\") returned invalid value %d", packages);
 		packages = 1;
 	}
+	if (cores % packages != 0) {
+		cpuinfo_log_error("inconsistent numbers of cores (%d) and packages (%d)", cores, packages);
+		packages = 1;
+	}
 #endif
 
 	cpuinfo_log_debug("mach topology: packages = %d, cores = %d, threads = %d", packages, (int)cores, (int)threads);
-- 
2.43.0


From 4b337f00989c20bfadae522e28e0dc9aa1991c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 52/69] fix: describe caches whose sharing does not divide the
 number of processors on macOS

The number of processors which share a cache, as the kernel reports it,
may be greater than the number of processors, or not divide it: 10
processors with level 2 caches for 4 each. The last processors got
pointers behind the end of the array of caches.
---
 src/x86/mach/init.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index bf241d6..b368c84 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -12,6 +12,14 @@ static inline uint32_t max(uint32_t a, uint32_t b) {
 	return a > b ? a : b;
 }
 
+static inline uint32_t min(uint32_t a, uint32_t b) {
+	return a < b ? a : b;
+}
+
+static inline uint32_t divide_round_up(uint32_t a, uint32_t b) {
+	return (a + b - 1) / b;
+}
+
 static inline uint32_t bit_mask(uint32_t bits) {
 	return (UINT32_C(1) << bits) - UINT32_C(1);
 }
@@ -136,7 +144,8 @@ void cpuinfo_x86_mach_init(void) {
 				"Mach kernel did not report number of threads sharing L1 cache; assume %" PRIu32,
 				threads_per_l1);
 		}
-		l1_count = mach_topology.threads / threads_per_l1;
+		threads_per_l1 = min(threads_per_l1, mach_topology.threads);
+		l1_count = divide_round_up(mach_topology.threads, threads_per_l1);
 		cpuinfo_log_debug("detected %" PRIu32 " L1 caches", l1_count);
 	}
 
@@ -157,7 +166,8 @@ void cpuinfo_x86_mach_init(void) {
 				"Mach kernel did not report number of threads sharing L2 cache; assume %" PRIu32,
 				threads_per_l2);
 		}
-		l2_count = mach_topology.threads / threads_per_l2;
+		threads_per_l2 = min(threads_per_l2, mach_topology.threads);
+		l2_count = divide_round_up(mach_topology.threads, threads_per_l2);
 		cpuinfo_log_debug("detected %" PRIu32 " L2 caches", l2_count);
 	}
 
@@ -175,7 +185,8 @@ void cpuinfo_x86_mach_init(void) {
 				"Mach kernel did not report number of threads sharing L3 cache; assume %" PRIu32,
 				threads_per_l3);
 		}
-		l3_count = mach_topology.threads / threads_per_l3;
+		threads_per_l3 = min(threads_per_l3, mach_topology.threads);
+		l3_count = divide_round_up(mach_topology.threads, threads_per_l3);
 		cpuinfo_log_debug("detected %" PRIu32 " L3 caches", l3_count);
 	}
 
@@ -194,7 +205,8 @@ void cpuinfo_x86_mach_init(void) {
 				"Mach kernel did not report number of threads sharing L4 cache; assume %" PRIu32,
 				threads_per_l4);
 		}
-		l4_count = mach_topology.threads / threads_per_l4;
+		threads_per_l4 = min(threads_per_l4, mach_topology.threads);
+		l4_count = divide_round_up(mach_topology.threads, threads_per_l4);
 		cpuinfo_log_debug("detected %" PRIu32 " L4 caches", l4_count);
 	}
 
@@ -216,7 +228,8 @@ void cpuinfo_x86_mach_init(void) {
 				.line_size = x86_processor.cache.l1i.line_size,
 				.flags = x86_processor.cache.l1i.flags,
 				.processor_start = c * threads_per_l1,
-				.processor_count = threads_per_l1,
+				.processor_count =
+					min(threads_per_l1, mach_topology.threads - c * threads_per_l1),
 			};
 		}
 		for (uint32_t t = 0; t < mach_topology.threads; t++) {
@@ -242,7 +255,8 @@ void cpuinfo_x86_mach_init(void) {
 				.line_size = x86_processor.cache.l1d.line_size,
 				.flags = x86_processor.cache.l1d.flags,
 				.processor_start = c * threads_per_l1,
-				.processor_count = threads_per_l1,
+				.processor_count =
+					min(threads_per_l1, mach_topology.threads - c * threads_per_l1),
 			};
 		}
 		for (uint32_t t = 0; t < mach_topology.threads; t++) {
@@ -268,7 +282,8 @@ void cpuinfo_x86_mach_init(void) {
 				.line_size = x86_processor.cache.l2.line_size,
 				.flags = x86_processor.cache.l2.flags,
 				.processor_start = c * threads_per_l2,
-				.processor_count = threads_per_l2,
+				.processor_count =
+					min(threads_per_l2, mach_topology.threads - c * threads_per_l2),
 			};
 		}
 		for (uint32_t t = 0; t < mach_topology.threads; t++) {
@@ -294,7 +309,8 @@ void cpuinfo_x86_mach_init(void) {
 				.line_size = x86_processor.cache.l3.line_size,
 				.flags = x86_processor.cache.l3.flags,
 				.processor_start = c * threads_per_l3,
-				.processor_count = threads_per_l3,
+				.processor_count =
+					min(threads_per_l3, mach_topology.threads - c * threads_per_l3),
 			};
 		}
 		for (uint32_t t = 0; t < mach_topology.threads; t++) {
@@ -320,7 +336,8 @@ void cpuinfo_x86_mach_init(void) {
 				.line_size = x86_processor.cache.l4.line_size,
 				.flags = x86_processor.cache.l4.flags,
 				.processor_start = c * threads_per_l4,
-				.processor_count = threads_per_l4,
+				.processor_count =
+					min(threads_per_l4, mach_topology.threads - c * threads_per_l4),
 			};
 		}
 		for (uint32_t t = 0; t < mach_topology.threads; t++) {
-- 
2.43.0


From d2e95736dd76784870ff18331c8a6b3bf11bfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 53/69] fix: reject numbers of cores which do not fit the
 number of packages on FreeBSD

If the number of cores is not a multiple of the number of packages, the
last cores and processors got pointers to packages and clusters behind
the end of the tables.
---
 src/freebsd/topology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/freebsd/topology.c b/src/freebsd/topology.c
index 675a81f..93c7b58 100644
--- a/src/freebsd/topology.c
+++ b/src/freebsd/topology.c
@@ -78,7 +78,7 @@ struct cpuinfo_freebsd_topology cpuinfo_freebsd_detect_topology(void) {
 	if (topology.cores == 0) {
 		goto fail;
 	}
-	if (topology.cores < topology.packages) {
+	if (topology.cores % topology.packages != 0) {
 		cpuinfo_log_error("invalid numbers of package and core: %d %d", topology.packages, topology.cores);
 		goto fail;
 	}
-- 
2.43.0


From faab3fdacadacbd93fd1090e6f2699639d639cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:03 +0000
Subject: [PATCH 54/69] fix: count logical processors, not cores, in clusters
 and caches on Apple ARM

The processor counts of clusters, microarchitectures and shared caches
were numbers of cores. They do not cover all logical processors if a
core has several.
---
 src/arm/mach/init.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index b0666b9..c55b904 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -475,12 +475,12 @@ void cpuinfo_arm_mach_init(void) {
 			cluster_idx++;
 			uarchs[cluster_idx] = (struct cpuinfo_uarch_info){
 				.uarch = cores[i].uarch,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_count = 1,
 			};
 			clusters[cluster_idx] = (struct cpuinfo_cluster){
 				.processor_start = i * threads_per_core,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_start = i,
 				.core_count = 1,
 				.cluster_id = cluster_idx,
@@ -489,9 +489,9 @@ void cpuinfo_arm_mach_init(void) {
 				.uarch = cores[i].uarch,
 			};
 		} else {
-			uarchs[cluster_idx].processor_count++;
+			uarchs[cluster_idx].processor_count += threads_per_core;
 			uarchs[cluster_idx].core_count++;
-			clusters[cluster_idx].processor_count++;
+			clusters[cluster_idx].processor_count += threads_per_core;
 			clusters[cluster_idx].core_count++;
 		}
 		cores[i].cluster = &clusters[cluster_idx];
@@ -521,7 +521,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l1 = 0, l1_count = 0;
 	if (l1i_cache_size != 0 || l1d_cache_size != 0) {
 		/* Assume L1 caches are private to each core */
-		threads_per_l1 = 1;
+		threads_per_l1 = threads_per_core;
 		l1_count = mach_topology.threads / threads_per_l1;
 		cpuinfo_log_debug("detected %" PRIu32 " L1 caches", l1_count);
 	}
@@ -529,7 +529,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l2 = 0, l2_count = 0;
 	if (l2_cache_size != 0) {
 		/* Assume L2 cache is shared between all cores */
-		threads_per_l2 = mach_topology.cores;
+		threads_per_l2 = mach_topology.threads;
 		l2_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L2 caches", l2_count);
 	}
@@ -537,7 +537,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l3 = 0, l3_count = 0;
 	if (l3_cache_size != 0) {
 		/* Assume L3 cache is shared between all cores */
-		threads_per_l3 = mach_topology.cores;
+		threads_per_l3 = mach_topology.threads;
 		l3_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L3 caches", l3_count);
 	}
-- 
2.43.0


From 527e805348e656bae64928c27090d10f05d92138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:03 +0000
Subject: [PATCH 55/69] fix: do not divide by an unknown cache line size on
 Apple ARM

If the kernel reports the sizes of caches but not their line size, the
number of sets was computed with a division by zero.
---
 src/arm/mach/init.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index c55b904..80c6337 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -508,10 +508,14 @@ void cpuinfo_arm_mach_init(void) {
 	}
 
 	const uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
-	const uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
-	const uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
-	const uint32_t l2_cache_size = get_sys_info(HW_L2CACHESIZE, "HW_L2CACHESIZE");
-	const uint32_t l3_cache_size = get_sys_info(HW_L3CACHESIZE, "HW_L3CACHESIZE");
+	uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
+	uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
+	uint32_t l2_cache_size = get_sys_info(HW_L2CACHESIZE, "HW_L2CACHESIZE");
+	uint32_t l3_cache_size = get_sys_info(HW_L3CACHESIZE, "HW_L3CACHESIZE");
+	if (cacheline_size == 0) {
+		cpuinfo_log_warning("cache line size is not known; caches are not described");
+		l1d_cache_size = l1i_cache_size = l2_cache_size = l3_cache_size = 0;
+	}
 	const uint32_t l1_cache_associativity = 4;
 	const uint32_t l2_cache_associativity = 8;
 	const uint32_t l3_cache_associativity = 16;
-- 
2.43.0


From d932b9b55da1773a562efd178ba01356a765bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:03 +0000
Subject: [PATCH 56/69] fix: give each package its own clusters on Apple ARM

With several packages all of them claimed all clusters, and a cluster
could span packages.
---
 src/arm/mach/init.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index 80c6337..c120119 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -429,7 +429,7 @@ void cpuinfo_arm_mach_init(void) {
 		cpuinfo_isa.sme2 = true;
 	}
 
-	uint32_t num_clusters = 1;
+	uint32_t num_clusters = 1, num_uarchs = 1;
 	for (uint32_t i = 0; i < mach_topology.cores; i++) {
 		cores[i] = (struct cpuinfo_core){
 			.processor_start = i * threads_per_core,
@@ -440,6 +440,9 @@ void cpuinfo_arm_mach_init(void) {
 			.uarch = decode_uarch(cpu_family, i, mach_topology.cores),
 		};
 		if (i != 0 && cores[i].uarch != cores[i - 1].uarch) {
+			num_uarchs++;
+			num_clusters++;
+		} else if (i != 0 && cores[i].package != cores[i - 1].package) {
 			num_clusters++;
 		}
 	}
@@ -461,36 +464,45 @@ void cpuinfo_arm_mach_init(void) {
 			num_clusters);
 		goto cleanup;
 	}
-	uarchs = calloc(num_clusters, sizeof(struct cpuinfo_uarch_info));
+	uarchs = calloc(num_uarchs, sizeof(struct cpuinfo_uarch_info));
 	if (uarchs == NULL) {
 		cpuinfo_log_error(
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " uarchs",
-			num_clusters * sizeof(enum cpuinfo_uarch),
-			num_clusters);
+			num_uarchs * sizeof(struct cpuinfo_uarch_info),
+			num_uarchs);
 		goto cleanup;
 	}
-	uint32_t cluster_idx = UINT32_MAX;
+	uint32_t cluster_idx = UINT32_MAX, uarch_idx = UINT32_MAX;
 	for (uint32_t i = 0; i < mach_topology.cores; i++) {
 		if (i == 0 || cores[i].uarch != cores[i - 1].uarch) {
-			cluster_idx++;
-			uarchs[cluster_idx] = (struct cpuinfo_uarch_info){
+			uarch_idx++;
+			uarchs[uarch_idx] = (struct cpuinfo_uarch_info){
 				.uarch = cores[i].uarch,
 				.processor_count = threads_per_core,
 				.core_count = 1,
 			};
+		} else {
+			uarchs[uarch_idx].processor_count += threads_per_core;
+			uarchs[uarch_idx].core_count++;
+		}
+
+		struct cpuinfo_package* package = &packages[i / cores_per_package];
+		if (i == 0 || cores[i].uarch != cores[i - 1].uarch || cores[i].package != cores[i - 1].package) {
+			cluster_idx++;
+			if (package->cluster_count++ == 0) {
+				package->cluster_start = cluster_idx;
+			}
 			clusters[cluster_idx] = (struct cpuinfo_cluster){
 				.processor_start = i * threads_per_core,
 				.processor_count = threads_per_core,
 				.core_start = i,
 				.core_count = 1,
-				.cluster_id = cluster_idx,
+				.cluster_id = cluster_idx - package->cluster_start,
 				.package = cores[i].package,
 				.vendor = cores[i].vendor,
 				.uarch = cores[i].uarch,
 			};
 		} else {
-			uarchs[cluster_idx].processor_count += threads_per_core;
-			uarchs[cluster_idx].core_count++;
 			clusters[cluster_idx].processor_count += threads_per_core;
 			clusters[cluster_idx].core_count++;
 		}
@@ -502,11 +514,6 @@ void cpuinfo_arm_mach_init(void) {
 		processors[i].cluster = cores[core_id].cluster;
 	}
 
-	for (uint32_t i = 0; i < mach_topology.packages; i++) {
-		packages[i].cluster_start = 0;
-		packages[i].cluster_count = num_clusters;
-	}
-
 	const uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
 	uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
 	uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
@@ -665,7 +672,7 @@ void cpuinfo_arm_mach_init(void) {
 	cpuinfo_cores_count = mach_topology.cores;
 	cpuinfo_clusters_count = num_clusters;
 	cpuinfo_packages_count = mach_topology.packages;
-	cpuinfo_uarchs_count = num_clusters;
+	cpuinfo_uarchs_count = num_uarchs;
 	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
-- 
2.43.0


From 1db8cc0c29d5052869a67769dbacb02c22476ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:03 +0000
Subject: [PATCH 57/69] fix: free the processor information on Windows

The buffer for the answers of the operating system was never freed.
---
 src/x86/windows/init.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index d233280..3f4c69b 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -667,5 +667,8 @@ cleanup:
 	if (l4 != NULL) {
 		HeapFree(heap, 0, l4);
 	}
+	if (processor_infos != NULL) {
+		HeapFree(heap, 0, processor_infos);
+	}
 	return TRUE;
 }
-- 
2.43.0


From 73655326b823896bd969c83c31f00eaa5242f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:03 +0000
Subject: [PATCH 58/69] fix: put processors into the cluster of their package
 on Windows

All processors were put into the first cluster. On machines with several
packages the other clusters had no processors, and processors of other
packages were in the cluster of the first one.
---
 src/x86/windows/init.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index 3f4c69b..c6a611a 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -348,12 +348,12 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		 */
 		struct cpuinfo_core* core = (struct cpuinfo_core*)((uintptr_t)cores + (uintptr_t)processor->core);
 		processor->core = core;
-		struct cpuinfo_cluster* cluster =
-			(struct cpuinfo_cluster*)((uintptr_t)clusters + (uintptr_t)processor->cluster);
-		processor->cluster = cluster;
 		struct cpuinfo_package* package =
 			(struct cpuinfo_package*)((uintptr_t)packages + (uintptr_t)processor->package);
 		processor->package = package;
+		/* On x86 cluster of cores is a physical package */
+		struct cpuinfo_cluster* cluster = clusters + (package - packages);
+		processor->cluster = cluster;
 
 		/* This can be overwritten by lower-index processors on the same
 		 * package */
-- 
2.43.0


From 82b4ab1715e1e53ef750da353272bc36fab2a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 59/69] fix: describe only active processors on Windows

Where processors can be added at run time, the maximum number of
processors is greater than the number of active ones. The missing ones
were described as parts of the first core and package on x86, and led to
a NULL pointer dereference on ARM. Count active processors, and fail if
the packages and cores do not list all of them.
---
 src/arm/windows/init-by-logical-sys-info.c |  6 ++++-
 src/x86/windows/init.c                     | 31 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index ef6b144..1e925c9 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -376,7 +376,7 @@ static uint32_t count_logical_processors(const uint32_t max_group_count, uint32_
 	uint32_t nr_of_processors = 0;
 
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		uint32_t nr_of_processors_per_group = GetMaximumProcessorCount((WORD)i);
+		uint32_t nr_of_processors_per_group = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug(
 			"detected %" PRIu32 " processor(s) in group %" PRIu32 "", nr_of_processors_per_group, i);
 		global_proc_index_per_group[i] = nr_of_processors;
@@ -820,6 +820,10 @@ static bool connect_packages_cores_clusters_by_processors(
 		struct cpuinfo_processor* processor = processors + processor_id;
 
 		struct cpuinfo_core* core = (struct cpuinfo_core*)processor->core;
+		if (core == NULL) {
+			cpuinfo_log_error("processor %" PRIu32 " does not belong to a core", processor_id);
+			return false;
+		}
 
 		/* We stored the offset of pointers when we haven't allocated
 		 * memory for packages and clusters, so now add offsets to base
diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index c6a611a..dea6086 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -137,7 +137,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	uint32_t processors_count = 0;
 	uint32_t* processors_per_group = (uint32_t*)CPUINFO_ALLOCA(max_group_count * sizeof(uint32_t));
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		processors_per_group[i] = GetMaximumProcessorCount((WORD)i);
+		processors_per_group[i] = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug("detected %" PRIu32 " processors in group %" PRIu32, processors_per_group[i], i);
 		processors_count += processors_per_group[i];
 	}
@@ -197,7 +197,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		goto cleanup;
 	}
 
-	uint32_t packages_count = 0;
+	uint32_t packages_count = 0, packages_processors_count = 0;
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX packages_info_end =
 		(PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX)((uintptr_t)processor_infos + packages_info_size);
 	for (PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX package_info = processor_infos; package_info < packages_info_end;
@@ -227,6 +227,14 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
 				const uint32_t processor_id = group_processors_start + group_processor_id;
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_error(
+						"unexpected processor %" PRIu32 " in group %" PRIu32,
+						group_processor_id,
+						group_id);
+					goto cleanup;
+				}
+				packages_processors_count++;
 				processors[processor_id].package = (const struct cpuinfo_package*)NULL + package_id;
 				processors[processor_id].windows_group_id = (uint16_t)group_id;
 				processors[processor_id].windows_processor_id = (uint16_t)group_processor_id;
@@ -245,7 +253,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		goto cleanup;
 	}
 
-	uint32_t cores_count = 0;
+	uint32_t cores_count = 0, cores_processors_count = 0;
 	/* Index (among all cores) of the the first core on the current package
 	 */
 	uint32_t package_core_start = 0;
@@ -281,6 +289,14 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
 				const uint32_t processor_id = group_processors_start + group_processor_id;
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_error(
+						"unexpected processor %" PRIu32 " in group %" PRIu32,
+						group_processor_id,
+						group_id);
+					goto cleanup;
+				}
+				cores_processors_count++;
 
 				/* Check if this is the first core on a new
 				 * package */
@@ -313,6 +329,15 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		}
 	}
 
+	if (packages_processors_count != processors_count || cores_processors_count != processors_count) {
+		cpuinfo_log_error(
+			"%" PRIu32 " processors in packages and %" PRIu32 " in cores, but %" PRIu32 " in groups",
+			packages_processors_count,
+			cores_processors_count,
+			processors_count);
+		goto cleanup;
+	}
+
 	cores = HeapAlloc(heap, HEAP_ZERO_MEMORY, cores_count * sizeof(struct cpuinfo_core));
 	if (cores == NULL) {
 		cpuinfo_log_error(
-- 
2.43.0


From 4b2e481b172b7b60cc0ac1e8445606fe50da6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 60/69] fix: ignore other kinds of caches on Windows on ARM

Unified level 1 caches, trace caches and caches of level 4 led to a NULL
pointer dereference.
---
 src/arm/windows/init-by-logical-sys-info.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 1e925c9..1f6c4dd 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -689,6 +689,10 @@ static bool parse_relation_cache_info(
 			l3_counter++;
 			break;
 	}
+	if (current_cache == NULL) {
+		/* Not a kind of cache which we describe */
+		return true;
+	}
 	current_cache->size = info->Cache.CacheSize;
 	current_cache->line_size = info->Cache.LineSize;
 	current_cache->associativity = info->Cache.Associativity;
-- 
2.43.0


From 1ce797813eb11985470e10dffa92a3d46e31fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 61/69] fix: read the processors of caches on older versions of
 Windows on ARM

Windows versions before 20H2 report a group count of zero, with a single
group mask. The caches were described without processors.
---
 src/arm/windows/init-by-logical-sys-info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 1f6c4dd..d8d07f4 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -705,9 +705,9 @@ static bool parse_relation_cache_info(
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
 
-	for (uint32_t i = 0; i < info->Cache.GroupCount; i++) {
-		/* Zero GroupCount is valid, GroupMask still can store bits set.
-		 */
+	/* Zero GroupCount is valid, GroupMask still can store bits set. */
+	const uint32_t group_count = info->Cache.GroupCount != 0 ? info->Cache.GroupCount : 1;
+	for (uint32_t i = 0; i < group_count; i++) {
 		const uint32_t group_id = info->Cache.GroupMasks[i].Group;
 		/* Bitmask representing processors in this group belonging to
 		 * this package
-- 
2.43.0


From f5800af04c2d9dba73003e7115c32f49cb016d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 62/69] fix: report unknown microarchitectures on Windows on
 ARM

Cores whose microarchitecture is not known were missing from the table
of microarchitectures, which was empty if there are no others.
---
 src/arm/windows/init-by-logical-sys-info.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index d8d07f4..f0332ed 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -272,11 +272,9 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 
 	/* 6. Count and store uarchs of cores, assuming same uarchs are
 	 * neighbors */
-	enum cpuinfo_uarch prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || cores[i - 1].uarch != cores[i].uarch) {
 			nr_of_uarchs++;
-			prev_uarch = cores[i].uarch;
 		}
 	}
 	uarchs = HeapAlloc(heap, HEAP_ZERO_MEMORY, nr_of_uarchs * sizeof(struct cpuinfo_uarch_info));
@@ -287,20 +285,15 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			nr_of_uarchs);
 		goto clean_up;
 	}
-	prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0, uarch_index = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || cores[i - 1].uarch != cores[i].uarch) {
 			if (i != 0) {
 				uarch_index++;
 			}
-			if (uarch_index >= nr_of_uarchs) {
-				cpuinfo_log_error("more uarchs detected than reported");
-			}
-			prev_uarch = cores[i].uarch;
 			uarchs[uarch_index].uarch = cores[i].uarch;
 			uarchs[uarch_index].core_count = 1;
 			uarchs[uarch_index].processor_count = cores[i].processor_count;
-		} else if (prev_uarch != cpuinfo_uarch_unknown) {
+		} else {
 			uarchs[uarch_index].core_count++;
 			uarchs[uarch_index].processor_count += cores[i].processor_count;
 		}
-- 
2.43.0


From bbe2ef722f2e56be04743ad6739dc3a6dc5b4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 63/69] fix: free what is read from the registry on Windows on
 ARM

The chip name and description were never freed. If the memory for the
name could not be allocated, the description was used without name, and
initialization failed.
---
 src/arm/windows/init.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 79e947a..072cd4f 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -32,6 +32,10 @@ BOOL CALLBACK cpuinfo_arm_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 
 	cpuinfo_is_initialized = cpu_info_init_by_logical_sys_info(chip_info, chip_info->uarchs[0].vendor);
 
+	if (chip_info != &woa_chip_unknown) {
+		HeapFree(GetProcessHeap(), 0, chip_info->chip_name_string);
+		HeapFree(GetProcessHeap(), 0, chip_info);
+	}
 	return true;
 }
 
@@ -158,7 +162,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t midr_qword = (uint32_t)read_registry_qword(cpu0_subkey, chip_midr_value);
 	if (midr_qword == 0) {
 		cpuinfo_log_error("Registry read error for MIDR value");
-		return NULL;
+		goto cleanup;
 	}
 	// MIDR is only 32 bits, so we need to cast it to uint32_t
 	uint32_t midr_value = (uint32_t)midr_qword;
@@ -168,7 +172,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t frequency_mhz = read_registry_dword(cpu0_subkey, chip_mhz_value);
 	if (frequency_mhz == 0) {
 		cpuinfo_log_error("Registry read error for frequency value");
-		return NULL;
+		goto cleanup;
 	}
 	// Convert MHz to Hz
 	uint64_t frequency_hz = frequency_mhz * 1000000;
@@ -177,15 +181,23 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	chip_info = HeapAlloc(GetProcessHeap(), HEAP_ZERO_MEMORY, sizeof(struct woa_chip_info));
 	if (chip_info == NULL) {
 		cpuinfo_log_error("Heap allocation error for chip_info");
-		return NULL;
+		goto cleanup;
 	}
 
 	// set chip_info fields
 	chip_info->chip_name_string = wcsndup(text_buffer, CPUINFO_PACKAGE_NAME_MAX - 1);
+	if (chip_info->chip_name_string == NULL) {
+		cpuinfo_log_error("Heap allocation error for chip name");
+		HeapFree(GetProcessHeap(), 0, chip_info);
+		chip_info = NULL;
+		goto cleanup;
+	}
 	chip_info->uarchs[0] = get_core_info_from_midr(midr_value, frequency_hz);
 
 	cpuinfo_log_debug("detected chip model name: %ls", chip_info->chip_name_string);
 
+cleanup:
+	HeapFree(GetProcessHeap(), 0, text_buffer);
 	return chip_info;
 }
 
-- 
2.43.0


From 90e657024e4d64d7154bfc071c23c8bcdab70fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 64/69] fix: shorten long names of processors on Windows on ARM

A name of up to 47 characters which needs more than 47 bytes in UTF-8
made initialization fail.
---
 src/arm/windows/init-by-logical-sys-info.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index f0332ed..570c466 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -843,19 +843,23 @@ static bool connect_packages_cores_clusters_by_processors(
 		processor->cluster = cluster;
 
 		if (chip_info) {
-			size_t converted_chars = 0;
+			/* A UTF-16 code unit becomes at most three bytes */
+			char name[3 * CPUINFO_PACKAGE_NAME_MAX];
 			if (!WideCharToMultiByte(
-				    CP_UTF8,
-				    WC_ERR_INVALID_CHARS,
-				    chip_info->chip_name_string,
-				    -1,
-				    package->name,
-				    CPUINFO_PACKAGE_NAME_MAX,
-				    NULL,
-				    NULL)) {
+				    CP_UTF8, 0, chip_info->chip_name_string, -1, name, sizeof(name), NULL, NULL)) {
 				cpuinfo_log_error("cpu name character conversion error");
 				return false;
 			};
+			size_t name_length = strlen(name);
+			if (name_length > CPUINFO_PACKAGE_NAME_MAX - 1) {
+				name_length = CPUINFO_PACKAGE_NAME_MAX - 1;
+				/* Do not cut a character in two */
+				while ((name[name_length] & 0xC0) == 0x80) {
+					name_length--;
+				}
+			}
+			memcpy(package->name, name, name_length);
+			package->name[name_length] = '\0';
 		}
 
 		/* Set start indexes and counts per packages / clusters / cores
-- 
2.43.0


From 3767300f236949240d4d8de4bdf725253d67fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:14 +0000
Subject: [PATCH 65/69] fix: report failure when uarch descriptions can not be
 allocated on Windows on ARM

The result of the previous step was still success, so the library
claimed to be initialized although nothing was described.
---
 src/arm/windows/init-by-logical-sys-info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 570c466..e58de7d 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -283,6 +283,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " uarchs",
 			nr_of_uarchs * sizeof(struct cpuinfo_uarch_info),
 			nr_of_uarchs);
+		result = false;
 		goto clean_up;
 	}
 	for (uint32_t i = 0, uarch_index = 0; i < nr_of_cores; i++) {
-- 
2.43.0


From e7fda1a5bf26e14acf25eae9d757445204ebce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:14 +0000
Subject: [PATCH 66/69] fix: set IDs of threads, cores and clusters on Windows
 on ARM

All threads of a core and all clusters had the ID 0, and cores were
numbered across packages instead of within their package.
---
 src/arm/windows/init-by-logical-sys-info.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index e58de7d..6f63aac 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -747,7 +747,6 @@ void store_core_info_per_processor(
 	const struct woa_chip_info* chip_info) {
 	if (cores) {
 		processors[processor_global_index].core = cores + core_id;
-		cores[core_id].core_id = core_id;
 
 		if (chip_info->uarchs == NULL) {
 			cpuinfo_log_error("uarch is NULL for core %d", core_id);
@@ -908,6 +907,14 @@ static bool connect_packages_cores_clusters_by_processors(
 		cluster->uarch = cores[cluster->core_start].uarch;
 		cluster->frequency = cores[cluster->core_start].frequency;
 	}
+	/* Set IDs relative to the enclosing core / package */
+	for (uint32_t i = 0; i < nr_of_cores; i++) {
+		cores[i].core_id = i - cores[i].package->core_start;
+		clusters[i].cluster_id = i - clusters[i].package->cluster_start;
+	}
+	for (uint32_t i = 0; i < nr_of_processors; i++) {
+		processors[i].smt_id = i - processors[i].core->processor_start;
+	}
 	return true;
 }
 
-- 
2.43.0


From dc740715feb974e6f0b0cabb178131d7fa603cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:57 +0000
Subject: [PATCH 67/69] fix: handle fully associative and incompletely
 described caches on Windows on ARM

An associativity of CACHE_FULLY_ASSOCIATIVE was taken as 255 ways, and
a line size or associativity of zero ended in a division by zero.
---
 src/arm/windows/init-by-logical-sys-info.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 6f63aac..2ddcde0 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -694,7 +694,15 @@ static bool parse_relation_cache_info(
 	 * so we set partitions to 1 and calculate the expected sets.
 	 */
 	current_cache->partitions = 1;
-	current_cache->sets = current_cache->size / current_cache->line_size / current_cache->associativity;
+	if (current_cache->line_size != 0) {
+		if (info->Cache.Associativity == CACHE_FULLY_ASSOCIATIVE) {
+			current_cache->associativity = current_cache->size / current_cache->line_size;
+		}
+		if (current_cache->associativity != 0) {
+			current_cache->sets =
+				current_cache->size / current_cache->line_size / current_cache->associativity;
+		}
+	}
 	if (info->Cache.Type == CacheUnified) {
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
-- 
2.43.0


From 1a3498369d482e9750ebdb8f7a726f96fca440a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:29 +0000
Subject: [PATCH 68/69] fix: report unknown uarch for unknown MIDR on Windows
 on ARM

Decoding does not set the vendor and uarch of cores it does not know,
so that an arbitrary value from the stack was reported for them.
---
 src/arm/windows/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 072cd4f..fe475eb 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -122,8 +122,8 @@ static wchar_t* wcsndup(const wchar_t* src, size_t n) {
 
 static struct core_info_by_chip_name get_core_info_from_midr(uint32_t midr, uint64_t frequency) {
 	struct core_info_by_chip_name info;
-	enum cpuinfo_vendor vendor;
-	enum cpuinfo_uarch uarch;
+	enum cpuinfo_vendor vendor = cpuinfo_vendor_unknown;
+	enum cpuinfo_uarch uarch = cpuinfo_uarch_unknown;
 
 #if CPUINFO_ARCH_ARM
 	bool has_vfpv4 = false;
-- 
2.43.0


From c317c9ba4e282f6709d592a7a1e63633545238a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:19 +0000
Subject: [PATCH 69/69] fix: fail if a processor is in no package on Windows on
 ARM

Such a processor was counted to the first package under the group and
number of another processor.
---
 src/arm/windows/init-by-logical-sys-info.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 2ddcde0..c0c22c5 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -741,9 +741,10 @@ static void store_package_info_per_processor(
 
 	/* As we're counting the number of packages now, we haven't allocated
 	 * memory for cpuinfo_packages yet, so we only set the package pointer's
-	 * offset now.
+	 * offset now. It is one more than the package ID, so that NULL means no
+	 * package.
 	 */
-	processors[processor_global_index].package = (const struct cpuinfo_package*)NULL + package_id;
+	processors[processor_global_index].package = (const struct cpuinfo_package*)NULL + package_id + 1;
 }
 
 void store_core_info_per_processor(
@@ -835,7 +836,7 @@ static bool connect_packages_cores_clusters_by_processors(
 		 * addresses.
 		 */
 		struct cpuinfo_package* package =
-			(struct cpuinfo_package*)((uintptr_t)packages + (uintptr_t)processor->package);
+			(struct cpuinfo_package*)((uintptr_t)packages + (uintptr_t)processor->package) - 1;
 		if (package < packages || package >= (packages + nr_of_packages)) {
 			cpuinfo_log_error("invalid package indexing");
 			return false;
-- 
2.43.0

