X(x86_rdtsc)
X(x86_rdtscp)
X(x86_rdpid)
X(x86_clzero)
X(x86_mwait)
X(x86_mwaitx)
X(x86_fxsave)
X(x86_xsave)
X(x86_fpu)
X(x86_mmx)
X(x86_mmx_plus)
X(x86_3dnow)
X(x86_3dnow_plus)
X(x86_3dnow_geode)
X(x86_prefetch)
X(x86_prefetchw)
X(x86_prefetchwt1)
X(x86_daz)
X(x86_sse)
X(x86_sse2)
X(x86_sse3)
X(x86_ssse3)
X(x86_sse4_1)
X(x86_sse4_2)
X(x86_sse4a)
X(x86_misaligned_sse)
X(x86_avx)
X(x86_avxvnni)
X(x86_fma3)
X(x86_fma4)
X(x86_xop)
X(x86_f16c)
X(x86_avx2)
X(x86_avx512f)
X(x86_avx512pf)
X(x86_avx512er)
X(x86_avx512cd)
X(x86_avx512dq)
X(x86_avx512bw)
X(x86_avx512vl)
X(x86_avx512ifma)
X(x86_avx512vbmi)
X(x86_avx512vbmi2)
X(x86_avx512bitalg)
X(x86_avx512vpopcntdq)
X(x86_avx512vnni)
X(x86_avx512bf16)
X(x86_avx512fp16)
X(x86_avx512vp2intersect)
X(x86_avx512_4vnniw)
X(x86_avx512_4fmaps)
X(x86_amx_bf16)
X(x86_amx_tile)
X(x86_amx_int8)
X(x86_amx_fp16)
X(x86_avx_vnni_int8)
X(x86_avx_vnni_int16)
X(x86_avx_ne_convert)
X(x86_avx10_1)
X(x86_avx10_2)
X(x86_hle)
X(x86_rtm)
X(x86_xtest)
X(x86_mpx)
X(x86_cmov)
X(x86_cmpxchg8b)
X(x86_cmpxchg16b)
X(x86_clwb)
X(x86_movbe)
X(x86_lahf_sahf)
X(x86_lzcnt)
X(x86_popcnt)
X(x86_tbm)
X(x86_bmi)
X(x86_bmi2)
X(x86_adx)
X(x86_aes)
X(x86_vaes)
X(x86_pclmulqdq)
X(x86_vpclmulqdq)
X(x86_gfni)
X(x86_rdrand)
X(x86_rdseed)
X(x86_sha)
X(arm_thumb)
X(arm_thumb2)
X(arm_v5e)
X(arm_v6)
X(arm_v6k)
X(arm_v7)
X(arm_v7mp)
X(arm_v8)
X(arm_idiv)
X(arm_vfpv2)
X(arm_vfpv3)
X(arm_vfpv3_d32)
X(arm_vfpv3_fp16)
X(arm_vfpv3_fp16_d32)
X(arm_vfpv4)
X(arm_vfpv4_d32)
X(arm_fp16_arith)
X(arm_bf16)
X(arm_wmmx)
X(arm_wmmx2)
X(arm_neon)
X(arm_neon_fp16)
X(arm_neon_fma)
X(arm_neon_v8)
X(arm_atomics)
X(arm_neon_rdm)
X(arm_neon_fp16_arith)
X(arm_fhm)
X(arm_neon_dot)
X(arm_neon_bf16)
X(arm_jscvt)
X(arm_fcma)
X(arm_i8mm)
X(arm_aes)
X(arm_sha1)
X(arm_sha2)
X(arm_pmull)
X(arm_crc32)
X(arm_sve)
X(arm_sve_bf16)
X(arm_sve2)
X(arm_sme)
X(arm_sme2)
X(arm_sme2p1)
X(arm_sme_i16i32)
X(arm_sme_bi32i32)
X(arm_sme_b16b16)
X(arm_sme_f16f16)
X(riscv_i)
X(riscv_e)
X(riscv_m)
X(riscv_a)
X(riscv_f)
X(riscv_d)
X(riscv_g)
X(riscv_c)
X(riscv_v)
