	{X86, "Scalar instructions:", TITLE},
	{I386, "x87 FPU", VI_x86_fpu},
	{I386, "CMOV", VI_x86_cmov},
	{X86, "LAHF/SAHF", VI_x86_lahf_sahf},
	{X86, "LZCNT", VI_x86_lzcnt},
	{X86, "POPCNT", VI_x86_popcnt},
	{X86, "TBM", VI_x86_tbm},
	{X86, "BMI", VI_x86_bmi},
	{X86, "BMI2", VI_x86_bmi2},
	{X86, "ADCX/ADOX", VI_x86_adx},
	{X86, "Memory instructions:", TITLE},
	{X86, "MOVBE", VI_x86_movbe},
	{X86, "PREFETCH", VI_x86_prefetch},
	{X86, "PREFETCHW", VI_x86_prefetchw},
	{X86, "PREFETCHWT1", VI_x86_prefetchwt1},
	{X86, "CLZERO", VI_x86_clzero},
	{X86, "SIMD extensions:", TITLE},
	{X86, "MMX", VI_x86_mmx},
	{X86, "MMX+", VI_x86_mmx_plus},
	{X86, "3dnow!", VI_x86_3dnow},
	{X86, "3dnow!+", VI_x86_3dnow_plus},
	{X86, "3dnow! Geode", VI_x86_3dnow_geode},
	{X86, "DAZ", VI_x86_daz},
	{X86, "SSE", VI_x86_sse},
	{X86, "SSE2", VI_x86_sse2},
	{X86, "SSE3", VI_x86_sse3},
	{X86, "SSSE3", VI_x86_ssse3},
	{X86, "SSE4.1", VI_x86_sse4_1},
	{X86, "SSE4.2", VI_x86_sse4_2},
	{X86, "SSE4a", VI_x86_sse4a},
	{X86, "Misaligned SSE", VI_x86_misaligned_sse},
	{X86, "AVX", VI_x86_avx},
	{X86, "FMA3", VI_x86_fma3},
	{X86, "FMA4", VI_x86_fma4},
	{X86, "XOP", VI_x86_xop},
	{X86, "F16C", VI_x86_f16c},
	{X86, "AVX2", VI_x86_avx2},
	{X86, "AVX512F", VI_x86_avx512f},
	{X86, "AVX512PF", VI_x86_avx512pf},
	{X86, "AVX512ER", VI_x86_avx512er},
	{X86, "AVX512CD", VI_x86_avx512cd},
	{X86, "AVX512DQ", VI_x86_avx512dq},
	{X86, "AVX512BW", VI_x86_avx512bw},
	{X86, "AVX512VL", VI_x86_avx512vl},
	{X86, "AVX512IFMA", VI_x86_avx512ifma},
	{X86, "AVX512VBMI", VI_x86_avx512vbmi},
	{X86, "AVX512VBMI2", VI_x86_avx512vbmi2},
	{X86, "AVX512BITALG", VI_x86_avx512bitalg},
	{X86, "AVX512VPOPCNTDQ", VI_x86_avx512vpopcntdq},
	{X86, "AVX512VNNI", VI_x86_avx512vnni},
	{X86, "AVX512BF16", VI_x86_avx512bf16},
	{X86, "AVX512FP16", VI_x86_avx512fp16},
	{X86, "AVX512VP2INTERSECT", VI_x86_avx512vp2intersect},
	{X86, "AVX512_4VNNIW", VI_x86_avx512_4vnniw},
	{X86, "AVX512_4FMAPS", VI_x86_avx512_4fmaps},
	{X86, "AVX10_1", VI_x86_avx10_1},
	{X86, "AVX10_2", VI_x86_avx10_2},
	{X86, "AMX_BF16", VI_x86_amx_bf16},
	{X86, "AMX_TILE", VI_x86_amx_tile},
	{X86, "AMX_INT8", VI_x86_amx_int8},
	{X86, "AMX_FP16", VI_x86_amx_fp16},
	{X86, "AVXVNNI", VI_x86_avxvnni},
	{X86, "AVX_VNNI_INT8", VI_x86_avx_vnni_int8},
	{X86, "AVX_VNNI_INT16", VI_x86_avx_vnni_int16},
	{X86, "AVX_NE_CONVERT", VI_x86_avx_ne_convert},
	{X86, "Multi-threading extensions:", TITLE},
	{X86, "MONITOR/MWAIT", VI_x86_mwait},
	{X86, "MONITORX/MWAITX", VI_x86_mwaitx},
	{I386, "CMPXCHG8B", VI_x86_cmpxchg8b},
	{X86, "CMPXCHG16B", VI_x86_cmpxchg16b},
	{X86, "HLE", VI_x86_hle},
	{X86, "RTM", VI_x86_rtm},
	{X86, "XTEST", VI_x86_xtest},
	{X86, "RDPID", VI_x86_rdpid},
	{X86, "Cryptography extensions:", TITLE},
	{X86, "AES", VI_x86_aes},
	{X86, "VAES", VI_x86_vaes},
	{X86, "PCLMULQDQ", VI_x86_pclmulqdq},
	{X86, "VPCLMULQDQ", VI_x86_vpclmulqdq},
	{X86, "GFNI", VI_x86_gfni},
	{X86, "RDRAND", VI_x86_rdrand},
	{X86, "RDSEED", VI_x86_rdseed},
	{X86, "SHA", VI_x86_sha},
	{X86, "Profiling instructions:", TITLE},
	{I386, "RDTSC", VI_x86_rdtsc},
	{X86, "RDTSCP", VI_x86_rdtscp},
	{X86, "MPX", VI_x86_mpx},
	{X86, "System instructions:", TITLE},
	{X86, "CLWB", VI_x86_clwb},
	{X86, "FXSAVE/FXSTOR", VI_x86_fxsave},
	{X86, "XSAVE/XSTOR", VI_x86_xsave},
	{ARM32, "Instruction sets:", TITLE},
	{ARM32, "Thumb", VI_arm_thumb},
	{ARM32, "Thumb 2", VI_arm_thumb2},
	{ARM32, "ARMv5E", VI_arm_v5e},
	{ARM32, "ARMv6", VI_arm_v6},
	{ARM32, "ARMv6-K", VI_arm_v6k},
	{ARM32, "ARMv7", VI_arm_v7},
	{ARM32, "ARMv7 MP", VI_arm_v7mp},
	{ARM32, "ARMv8", VI_arm_v8},
	{ARM32, "IDIV", VI_arm_idiv},
	{ARM32, "Floating-Point support:", TITLE},
	{ARM32, "VFPv2", VI_arm_vfpv2},
	{ARM32, "VFPv3", VI_arm_vfpv3},
	{ARM32, "VFPv3+D32", VI_arm_vfpv3_d32},
	{ARM32, "VFPv3+FP16", VI_arm_vfpv3_fp16},
	{ARM32, "VFPv3+FP16+D32", VI_arm_vfpv3_fp16_d32},
	{ARM32, "VFPv4", VI_arm_vfpv4},
	{ARM32, "VFPv4+D32", VI_arm_vfpv4_d32},
	{ARM32, "VJCVT", VI_arm_jscvt},
	{ARM32, "SIMD extensions:", TITLE},
	{ARM32, "WMMX", VI_arm_wmmx},
	{ARM32, "WMMX 2", VI_arm_wmmx2},
	{ARM32, "NEON", VI_arm_neon},
	{ARM32, "NEON-FP16", VI_arm_neon_fp16},
	{ARM32, "NEON-FMA", VI_arm_neon_fma},
	{ARM32, "NEON VQRDMLAH/VQRDMLSH", VI_arm_neon_rdm},
	{ARM32, "NEON FP16 arithmetics", VI_arm_neon_fp16_arith},
	{ARM32, "NEON complex", VI_arm_fcma},
	{ARM32, "NEON VSDOT/VUDOT", VI_arm_neon_dot},
	{ARM32, "NEON VFMLAL/VFMLSL", VI_arm_fhm},
	{ARM32, "Cryptography extensions:", TITLE},
	{ARM32, "AES", VI_arm_aes},
	{ARM32, "SHA1", VI_arm_sha1},
	{ARM32, "SHA2", VI_arm_sha2},
	{ARM32, "PMULL", VI_arm_pmull},
	{ARM32, "CRC32", VI_arm_crc32},
	{ARM64, "Instruction sets:", TITLE},
	{ARM64, "ARM v8.1 atomics", VI_arm_atomics},
	{ARM64, "ARM v8.1 SQRDMLxH", VI_arm_neon_rdm},
	{ARM64, "ARM v8.2 FP16 arithmetics", VI_arm_fp16_arith},
	{ARM64, "ARM v8.2 FHM", VI_arm_fhm},
	{ARM64, "ARM v8.2 BF16", VI_arm_bf16},
	{ARM64, "ARM v8.2 Int8 dot product", VI_arm_neon_dot},
	{ARM64, "ARM v8.2 Int8 matrix multiplication", VI_arm_i8mm},
	{ARM64, "ARM v8.3 JS conversion", VI_arm_jscvt},
	{ARM64, "ARM v8.3 complex", VI_arm_fcma},
	{ARM64, "SIMD extensions:", TITLE},
	{ARM64, "ARM SVE", VI_arm_sve},
	{ARM64, "ARM SVE 2", VI_arm_sve2},
	{ARM64, "ARM SME", VI_arm_sme},
	{ARM64, "ARM SME 2", VI_arm_sme2},
	{ARM64, "ARM SVE Capabilities:", TITLE},
	{ARM64, "SVE max length", LENGTH},
	{ARM64, "Cryptography extensions:", TITLE},
	{ARM64, "AES", VI_arm_aes},
	{ARM64, "SHA1", VI_arm_sha1},
	{ARM64, "SHA2", VI_arm_sha2},
	{ARM64, "PMULL", VI_arm_pmull},
	{ARM64, "CRC32", VI_arm_crc32},
	{RISCV, "Instruction sets:", TITLE},
	{RISCV, "Base Integer", VI_riscv_i},
	{RISCV, "Integer Multiply/Divide", VI_riscv_m},
	{RISCV, "Atomics", VI_riscv_a},
	{RISCV, "Single-Precision Floating-Point", VI_riscv_f},
	{RISCV, "Double-Precision Floating-Point", VI_riscv_d},
	{RISCV, "Compressed", VI_riscv_c},
	{RISCV, "Vector", VI_riscv_v},
