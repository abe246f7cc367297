// Stateless explicit exploration: a scenario is a function which asks choose(n) for every nondeterministic decision; the
// engine runs it once for every vector of answers (depth-first), sharded over worker processes.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Violation {
	std::string key, msg;
};
struct Skip {};
struct Done {};

// Decision with n alternatives. Outside of library code it may throw Skip (another shard owns this part of the tree).
uint32_t choose(uint32_t n, const char* label = "");
// Decision with an unknown number of alternatives; last_alternative(position) says that the present answer is the last one
static const uint32_t OPEN = 0xFFFFFFFF;
size_t position();
void last_alternative(size_t position);
inline bool flag(const char* label = "") {
	return choose(2, label) != 0;
}
template <class T, size_t N>
const T& pick(const T (&a)[N], const char* label = "") {
	return a[choose((uint32_t)N, label)];
}
template <class T>
T pick(std::initializer_list<T> a, const char* label = "") {
	return a.begin()[choose((uint32_t)a.size(), label)];
}
template <class T>
const T& pick(const std::vector<T>& a, const char* label = "") {
	return a[choose((uint32_t)a.size(), label)];
}
// Decides which shard owns the execution; everything expensive comes after this
void commit();
// Runs of the library which only find out what there is to choose from; they belong to no execution
struct Probe {
	Probe();
	~Probe();
};
// The scenario is not part of the explored space (e.g. ill-formed combination of choices)
[[noreturn]] void reject();
// Reports a violation. key identifies the specific failing thing for the known-findings file.
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...)            \
	do {                                    \
		if (!(cond)) mc::fail(key, __VA_ARGS__); \
	} while (0)
void state(uint64_t digest); // a distinct observed state
void outcome(uint64_t digest); // what the execution led to; other configurations must have the same outcome
[[noreturn]] void done(); // the execution is complete
void count_transitions(uint64_t n);
void count_validated(uint64_t n = 1); // executions whose outcome was compared with the reference model
void count_nontrivial(uint64_t n = 1);
bool thorough();
bool replaying();
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // only kept when wanted
bool want_description();
extern bool in_target;

typedef void (*scenario_fn)();
struct Family {
	const char* property;
	const char* name;
	const char* bounds; // text for the evidence
	scenario_fn fn;
	int tier; // 0 both, 1 thorough only
	Family* next;
};
extern Family* families;
struct Reg {
	Reg(Family* f);
};
#define MC_FAMILY(prop, name, bounds, tier)                                       \
	static void fam_##prop##_##name();                                           \
	static mc::Family famrec_##prop##_##name = {#prop, #name, bounds, fam_##prop##_##name, tier, nullptr}; \
	static mc::Reg famreg_##prop##_##name(&famrec_##prop##_##name);               \
	static void fam_##prop##_##name()

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}
int main(int argc, char** argv);

} // namespace mc
