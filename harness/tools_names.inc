V(unknown, "unknown")
V(intel, "Intel")
V(amd, "AMD")
V(huawei, "Huawei")
V(hygon, "Hygon")
V(arm, "ARM")
V(qualcomm, "Qualcomm")
V(apple, "Apple")
V(samsung, "Samsung")
V(nvidia, "Nvidia")
V(mips, "MIPS")
V(ibm, "IBM")
V(ingenic, "Ingenic")
V(via, "VIA")
V(cavium, "Cavium")
V(broadcom, "Broadcom")
V(apm, "Applied Micro")
U(unknown, "unknown")
U(p5, "P5")
U(quark, "Quark")
U(p6, "P6")
U(dothan, "Dothan")
U(yonah, "Yonah")
U(conroe, "Conroe")
U(penryn, "Penryn")
U(nehalem, "Nehalem")
U(sandy_bridge, "Sandy Bridge")
U(ivy_bridge, "Ivy Bridge")
U(haswell, "Haswell")
U(broadwell, "Broadwell")
U(sky_lake, "Sky Lake")
U(palm_cove, "Palm Cove")
U(sunny_cove, "Sunny Cove")
U(golden_cove, "Golden Cove")
U(willamette, "Willamette")
U(prescott, "Prescott")
U(bonnell, "Bonnell")
U(saltwell, "Saltwell")
U(silvermont, "Silvermont")
U(airmont, "Airmont")
U(goldmont, "Goldmont")
U(goldmont_plus, "Goldmont Plus")
U(knights_ferry, "Knights Ferry")
U(knights_corner, "Knights Corner")
U(knights_landing, "Knights Landing")
U(knights_hill, "Knights Hill")
U(knights_mill, "Knights Mill")
U(k5, "K5")
U(k6, "K6")
U(k7, "K7")
U(k8, "K8")
U(k10, "K10")
U(bulldozer, "Bulldozer")
U(piledriver, "Piledriver")
U(steamroller, "Steamroller")
U(excavator, "Excavator")
U(zen, "Zen")
U(zen2, "Zen 2")
U(zen3, "Zen 3")
U(zen4, "Zen 4")
U(zen5, "Zen 5")
U(geode, "Geode")
U(bobcat, "Bobcat")
U(jaguar, "Jaguar")
U(puma, "Puma")
U(xscale, "XScale")
U(arm7, "ARM7")
U(arm9, "ARM9")
U(arm11, "ARM11")
U(cortex_a5, "Cortex-A5")
U(cortex_a7, "Cortex-A7")
U(cortex_a8, "Cortex-A8")
U(cortex_a9, "Cortex-A9")
U(cortex_a12, "Cortex-A12")
U(cortex_a15, "Cortex-A15")
U(cortex_a17, "Cortex-A17")
U(cortex_a32, "Cortex-A32")
U(cortex_a35, "Cortex-A35")
U(cortex_a53, "Cortex-A53")
U(cortex_a55r0, "Cortex-A55r0")
U(cortex_a55, "Cortex-A55")
U(cortex_a57, "Cortex-A57")
U(cortex_a65, "Cortex-A65")
U(cortex_a72, "Cortex-A72")
U(cortex_a73, "Cortex-A73")
U(cortex_a75, "Cortex-A75")
U(cortex_a76, "Cortex-A76")
U(cortex_a77, "Cortex-A77")
U(cortex_a78, "Cortex-A78")
U(cortex_a510, "Cortex-A510")
U(cortex_a710, "Cortex-A710")
U(cortex_a715, "Cortex-A715")
U(cortex_x1, "Cortex-X1")
U(cortex_x2, "Cortex-X2")
U(cortex_x3, "Cortex-X3")
U(neoverse_n1, "Neoverse N1")
U(neoverse_e1, "Neoverse E1")
U(neoverse_v1, "Neoverse V1")
U(neoverse_n2, "Neoverse N2")
U(neoverse_v2, "Neoverse V2")
U(scorpion, "Scorpion")
U(krait, "Krait")
U(kryo, "Kryo")
U(falkor, "Falkor")
U(saphira, "Saphira")
U(oryon, "Oryon")
U(denver, "Denver")
U(denver2, "Denver 2")
U(carmel, "Carmel")
U(exynos_m1, "Exynos M1")
U(exynos_m2, "Exynos M2")
U(exynos_m3, "Exynos M3")
U(exynos_m4, "Exynos M4")
U(exynos_m5, "Exynos M5")
U(swift, "Swift")
U(cyclone, "Cyclone")
U(typhoon, "Typhoon")
U(twister, "Twister")
U(hurricane, "Hurricane")
U(monsoon, "Monsoon")
U(mistral, "Mistral")
U(vortex, "Vortex")
U(tempest, "Tempest")
U(lightning, "Lightning")
U(thunder, "Thunder")
U(firestorm, "Firestorm")
U(icestorm, "Icestorm")
U(avalanche, "Avalanche")
U(blizzard, "Blizzard")
U(thunderx, "ThunderX")
U(thunderx2, "ThunderX2")
U(pj4, "PJ4")
U(brahma_b15, "Brahma B15")
U(brahma_b53, "Brahma B53")
U(xgene, "X-Gene")
U(dhyana, "Dhyana")
U(taishan_v110, "TaiShan v110")
