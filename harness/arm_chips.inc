// Device texts which name a chipset without carrying its model number: {text, vendor, series, model, suffix, 32-bit only}.
static const Text hardware_texts[] = {
	{"k3v2oem1", "HiSilicon", "K3V", 2, "", 1},
	{"hi6620oem", "HiSilicon", "Kirin ", 910, "T", 1},
	{"hi6250", "HiSilicon", "Kirin ", 650, "", 0},
	{"hi6210sft", "HiSilicon", "Kirin ", 620, "", 0},
	{"hi3751", "HiSilicon", "Hi", 3751, "", 0},
	{"hi3630", "HiSilicon", "Kirin ", 920, "", 1},
	{"hi3635", "HiSilicon", "Kirin ", 930, "", 0},
	{"gs702a", "Actions", "ATM", 7029, "", 1},
	{"gs702c", "Actions", "ATM", 7029, "B", 1},
	{"gs703d", "Actions", "ATM", 7039, "S", 1},
	{"gs705a", "Actions", "ATM", 7059, "A", 1},
	{"Amlogic Meson8", "Amlogic", "S", 812, "", 1},
	{"Amlogic Meson8B", "Amlogic", "S", 805, "", 1},
	{"mapphone_CDMA", "Texas Instruments", "OMAP", 4430, "", 1},
	{"Superior", "Texas Instruments", "OMAP", 4470, "", 1},
	{"Tuna", "Texas Instruments", "OMAP", 4460, "", 1},
	{"Manta", "Samsung", "Exynos ", 5250, "", 1},
	{"Odin", "LG", "Nuclun ", 7111, "", 1},
	{"Madison", "MStar", "6A", 338, "", 1},
};
static const Text tegra_texts[] = {
	{"cardhu", "Nvidia", "Tegra T", 30, "", 1},
	{"kai", "Nvidia", "Tegra T", 30, "L", 1},
	{"p3", "Nvidia", "Tegra T", 20, "", 1},
	{"n1", "Nvidia", "Tegra AP", 20, "H", 1},
	{"SHW-M380S", "Nvidia", "Tegra T", 20, "", 1},
	{"m470", "Nvidia", "Tegra T", 30, "L", 1},
	{"endeavoru", "Nvidia", "Tegra AP", 33, "", 1},
	{"evitareul", "Nvidia", "Tegra T", 33, "", 1},
	{"enrc2b", "Nvidia", "Tegra T", 33, "", 1},
	{"mozart", "Nvidia", "Tegra T", 114, "", 1},
	{"tegratab", "Nvidia", "Tegra T", 114, "", 1},
	{"tn8", "Nvidia", "Tegra T", 124, "", 1},
	{"roth", "Nvidia", "Tegra T", 114, "", 1},
	{"pisces", "Nvidia", "Tegra T", 114, "", 1},
	{"mocha", "Nvidia", "Tegra T", 124, "", 1},
	{"stingray", "Nvidia", "Tegra AP", 20, "H", 1},
	{"Ceres", "Nvidia", "Tegra SL", 460, "N", 1},
	{"MT799", "Nvidia", "Tegra T", 30, "", 1},
	{"t8400n", "Nvidia", "Tegra T", 114, "", 1},
	{"chagall", "Nvidia", "Tegra T", 30, "", 1},
	{"ventana", "Nvidia", "Tegra T", 20, "", 1},
	{"bobsleigh", "Nvidia", "Tegra T", 33, "", 1},
	{"tegra_fjdev101", "Nvidia", "Tegra AP", 33, "", 1},
	{"tegra_fjdev103", "Nvidia", "Tegra T", 33, "", 1},
	{"nbx03", "Nvidia", "Tegra T", 20, "", 1},
	{"txs03", "Nvidia", "Tegra T", 30, "L", 1},
	{"x3", "Nvidia", "Tegra AP", 33, "", 1},
	{"vu10", "Nvidia", "Tegra AP", 33, "", 1},
	{"BIRCH", "Nvidia", "Tegra T", 30, "L", 1},
	{"macallan", "Nvidia", "Tegra T", 114, "", 1},
	{"maya", "Nvidia", "Tegra T", 114, "", 1},
	{"antares", "Nvidia", "Tegra T", 20, "", 1},
	{"tostab12AL", "Nvidia", "Tegra T", 30, "L", 1},
	{"tostab12BL", "Nvidia", "Tegra T", 30, "L", 1},
	{"sphinx", "Nvidia", "Tegra T", 30, "", 1},
	{"tostab11BS", "Nvidia", "Tegra T", 30, "", 1},
	{"tostab12BA", "Nvidia", "Tegra T", 114, "", 1},
	{"vangogh", "Nvidia", "Tegra T", 20, "", 1},
	{"a110", "Nvidia", "Tegra T", 30, "L", 1},
	{"picasso_e", "Nvidia", "Tegra AP", 20, "H", 1},
	{"picasso_e2", "Nvidia", "Tegra T", 30, "L", 1},
	{"picasso", "Nvidia", "Tegra AP", 20, "H", 1},
	{"picasso_m", "Nvidia", "Tegra T", 30, "", 1},
	{"picasso_mf", "Nvidia", "Tegra T", 30, "", 1},
	{"avalon", "Nvidia", "Tegra T", 30, "L", 1},
	{"NS_14T004", "Nvidia", "Tegra T", 30, "L", 1},
	{"WIKIPAD", "Nvidia", "Tegra T", 30, "", 1},
	{"kb", "Nvidia", "Tegra T", 114, "", 1},
	{"foster_e", "Nvidia", "Tegra T", 210, "", 0},
	{"foster_e_hdd", "Nvidia", "Tegra T", 210, "", 0},
	{"darcy", "Nvidia", "Tegra T", 210, "", 0},
};
static const Text board_texts[] = {
	{"hi6250", "HiSilicon", "Kirin ", 650, "", 0},
	{"hi6210sft", "HiSilicon", "Kirin ", 620, "", 0},
	{"hi3630", "HiSilicon", "Kirin ", 920, "", 1},
	{"hi3635", "HiSilicon", "Kirin ", 930, "", 0},
	{"hi3650", "HiSilicon", "Kirin ", 950, "", 0},
	{"hi3660", "HiSilicon", "Kirin ", 960, "", 0},
	{"mp523x", "Renesas", "MP", 5232, "", 1},
	{"BEETHOVEN", "HiSilicon", "Kirin ", 950, "", 0},
	{"hws7701u", "Rockchip", "RK", 3168, "", 1},
	{"g2mv", "Nvidia", "Tegra SL", 460, "N", 1},
	{"K00F", "Rockchip", "RK", 3188, "", 1},
	{"T7H", "Rockchip", "RK", 3066, "", 1},
	{"tuna", "Texas Instruments", "OMAP", 4460, "", 1},
	{"grouper", "Nvidia", "Tegra T", 30, "L", 1},
	{"flounder", "Nvidia", "Tegra T", 132, "", 0},
	{"dragon", "Nvidia", "Tegra T", 210, "", 0},
	{"sailfish", "Qualcomm", "MSM", 8996, "PRO", 0},
	{"marlin", "Qualcomm", "MSM", 8996, "PRO", 0},
};
static const Text platform_texts[] = {
	{"hi6620oem", "HiSilicon", "Kirin ", 910, "T", 1},
	{"hi6250", "HiSilicon", "Kirin ", 650, "", 0},
	{"hi6210sft", "HiSilicon", "Kirin ", 620, "", 0},
	{"hi3630", "HiSilicon", "Kirin ", 920, "", 1},
	{"hi3635", "HiSilicon", "Kirin ", 930, "", 0},
	{"hi3650", "HiSilicon", "Kirin ", 950, "", 0},
	{"hi3660", "HiSilicon", "Kirin ", 960, "", 0},
	{"k3v2oem1", "HiSilicon", "K3V", 2, "", 1},
	{"k3v200", "HiSilicon", "K3V", 2, "", 1},
	{"montblanc", "NovaThor", "U", 8500, "", 1},
	{"song", "Pinecone", "Surge S", 1, "", 0},
	{"rk322x", "Rockchip", "RK", 3229, "", 1},
	{"tegra132", "Nvidia", "Tegra T", 132, "", 0},
	{"tegra210_dragon", "Nvidia", "Tegra T", 210, "", 0},
	{"tegra4", "Nvidia", "Tegra T", 114, "", 1},
	{"s5pc110", "Samsung", "Exynos ", 3110, "", 1},
};
static const Text amlogic_texts[] = {
	{"meson3", "Amlogic", "AML", 8726, "-M", 1},
	{"meson6", "Amlogic", "AML", 8726, "-MX", 1},
	{"meson8", "Amlogic", "S", 805, "", 1},
	{"gxbaby", "Amlogic", "S", 905, "", 0},
	{"gxl", "Amlogic", "S", 905, "X", 0},
	{"gxm", "Amlogic", "S", 912, "", 0},
};
static const Text huawei_texts[] = {
	{"ALP", "HiSilicon", "Kirin ", 970, "", 0},
	{"BAC", "HiSilicon", "Kirin ", 659, "", 0},
	{"BLA", "HiSilicon", "Kirin ", 970, "", 0},
	{"BKL", "HiSilicon", "Kirin ", 970, "", 0},
	{"CLT", "HiSilicon", "Kirin ", 970, "", 0},
	{"COL", "HiSilicon", "Kirin ", 970, "", 0},
	{"COR", "HiSilicon", "Kirin ", 970, "", 0},
	{"DUK", "HiSilicon", "Kirin ", 960, "", 0},
	{"EML", "HiSilicon", "Kirin ", 970, "", 0},
	{"EVA", "HiSilicon", "Kirin ", 955, "", 0},
	{"FRD", "HiSilicon", "Kirin ", 950, "", 0},
	{"INE", "HiSilicon", "Kirin ", 710, "", 0},
	{"KNT", "HiSilicon", "Kirin ", 950, "", 0},
	{"LON", "HiSilicon", "Kirin ", 960, "", 0},
	{"LYA", "HiSilicon", "Kirin ", 980, "", 0},
	{"MCN", "HiSilicon", "Kirin ", 980, "", 0},
	{"MHA", "HiSilicon", "Kirin ", 960, "", 0},
	{"NEO", "HiSilicon", "Kirin ", 970, "", 0},
	{"NXT", "HiSilicon", "Kirin ", 950, "", 0},
	{"PAN", "HiSilicon", "Kirin ", 980, "", 0},
	{"PAR", "HiSilicon", "Kirin ", 970, "", 0},
	{"RVL", "HiSilicon", "Kirin ", 970, "", 0},
	{"STF", "HiSilicon", "Kirin ", 960, "", 0},
	{"SUE", "HiSilicon", "Kirin ", 980, "", 0},
	{"VIE", "HiSilicon", "Kirin ", 955, "", 0},
	{"VKY", "HiSilicon", "Kirin ", 960, "", 0},
	{"VTR", "HiSilicon", "Kirin ", 960, "", 0},
};
