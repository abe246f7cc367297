// P01: concurrent initialization. The library is compiled with the compiler's thread instrumentation; the callbacks below
// make every access to shared memory a scheduling point of a controlled scheduler and feed a happens-before race detector.
// Threads are contexts of one kernel thread, so that an execution is determined by the choices alone.
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include "machines.h"

using venv::env;

extern "C" uint64_t vu_run(int kind, vdesc* d);

namespace sched {

static const int MAXT = 4;
static const size_t STACK = 1 << 19;
struct Clock {
	uint32_t c[MAXT] = {0, 0, 0, 0};
	void join(const Clock& o) {
		for (int i = 0; i < MAXT; i++)
			if (o.c[i] > c[i]) c[i] = o.c[i];
	}
};
enum State { READY, BLOCKED, FINISHED };
struct Thread {
	ucontext_t ctx;
	char* stack = nullptr;
	State state;
	bool started;
	const void* waits;
	int kind;
	uint64_t at; // number of points so far
	uint64_t result;
	vdesc d;
	Clock now, release_fence, acquire_pending;
};
static Thread T[MAXT];
static ucontext_t main_ctx;
static int nthreads, cur = -1; // -1: the scheduler
static int preemptions;
static bool free_run; // no scheduling, only counting
static uint64_t steps, slice_steps, slice_points, gap;
static uint64_t first_slice_points;
static std::string race;
static std::map<const void*, Clock> sync_clock;
struct Mutex {
	int owner = -1, depth = 0;
};
static std::map<const void*, Mutex> mutexes;
static std::string trace;

// last accesses, per byte
struct Shadow {
	uint64_t key, stamp;
	uint32_t w[MAXT][8], r[MAXT][8], aw[MAXT][8], ar[MAXT][8];
};
static const size_t SLOTS = 1 << 15;
static Shadow* shadow;
static uint64_t stamp;

static Shadow& slot(uint64_t key) {
	size_t i = (key * 0x9E3779B97F4A7C15ull) >> 49;
	for (size_t n = 0;; n++) {
		Shadow& s = shadow[i];
		if (s.stamp == stamp && s.key == key) return s;
		if (s.stamp != stamp) {
			memset(&s, 0, sizeof s);
			s.stamp = stamp;
			s.key = key;
			return s;
		}
		i = (i + 1) % SLOTS;
		if (n > SLOTS - 2) {
			fprintf(stderr, "shadow memory is full\n");
			_exit(3);
		}
	}
}
static bool enabled_other() {
	for (int i = 0; i < nthreads; i++)
		if (i != cur && T[i].state == READY) return true;
	return false;
}
enum Reason { PREEMPT, BLOCK, FINISH, YIELD };
static Reason reason;
static void leave(Reason r) {
	reason = r;
	int me = cur;
	swapcontext(&T[me].ctx, &main_ctx);
}
static void point() {
	if (cur < 0) return;
	steps++;
	slice_steps++;
	T[cur].at++;
	if (slice_steps > 300000) {
		// busy waiting
		leave(YIELD);
		return;
	}
	if (!enabled_other()) return;
	if (slice_points++ == gap && !free_run && preemptions > 0) {
		leave(PREEMPT);
	}
}
static bool own_stack(uintptr_t a) {
	return a - (uintptr_t)T[cur].stack < STACK;
}
extern "C" char __executable_start[], __data_start[];
static bool shared(uintptr_t a) {
	if (own_stack(a)) return false;
	if (a - (uintptr_t)&__executable_start < (uintptr_t)&__data_start - (uintptr_t)&__executable_start) return false; // constants
	if (a - (uintptr_t)&T[0] < sizeof T) return false; // what the program of the thread found out
	return true;
}
static void note_race(int other, bool write, bool other_write, uintptr_t a) {
	if (!race.empty()) return;
	race = venv::fmt("data race: %s of thread %d is not ordered with a %s of thread %d", write ? "write" : "read", cur, other_write ? "write" : "read", other);
	(void)a;
}
static void record(uintptr_t a, size_t n, bool write, bool atomic) {
	Thread& t = T[cur];
	for (size_t k = 0; k < n; k++) {
		uintptr_t b = a + k;
		Shadow& s = slot(b >> 3);
		int j = b & 7;
		for (int u = 0; u < nthreads; u++) {
			if (u == cur) continue;
			if (s.w[u][j] > t.now.c[u]) note_race(u, write, true, b);
			if (write && s.r[u][j] > t.now.c[u]) note_race(u, write, false, b);
			if (!atomic) {
				if (s.aw[u][j] > t.now.c[u]) note_race(u, write, true, b);
				if (write && s.ar[u][j] > t.now.c[u]) note_race(u, write, false, b);
			}
		}
		uint32_t now = t.now.c[cur];
		if (atomic)
			(write ? s.aw : s.ar)[cur][j] = now;
		else
			(write ? s.w : s.r)[cur][j] = now;
	}
}
static void access(const void* p, size_t n, bool write) {
	if (cur < 0 || n == 0) return;
	uintptr_t a = (uintptr_t)p;
	if (!shared(a)) return;
	point();
	record(a, n, write, false);
}
static void acquire(const void* p) {
	auto it = sync_clock.find(p);
	if (it != sync_clock.end()) T[cur].now.join(it->second);
}
static void release(const void* p) {
	sync_clock[p].join(T[cur].now);
	T[cur].now.c[cur]++;
}
static void wake(const void* p) {
	for (int i = 0; i < nthreads; i++)
		if (T[i].state == BLOCKED && T[i].waits == p) T[i].state = READY;
}
static void wait_for(const void* p) {
	T[cur].state = BLOCKED;
	T[cur].waits = p;
	leave(BLOCK);
}
static int once(int* o, void (*fn)(void)) {
	if (cur < 0) {
		if (*o != 2) {
			*o = 1;
			fn();
			*o = 2;
		}
		return 0;
	}
	point();
	while (*o == 1) wait_for(o);
	if (*o == 0) {
		*o = 1;
		fn();
		point();
		*o = 2;
		release(o);
		wake(o);
	} else {
		acquire(o);
	}
	return 0;
}
// op: 0 lock, 1 try, 2 unlock
static int mutex(void* m, int op) {
	if (cur < 0) return 0;
	point();
	Mutex& x = mutexes[m];
	if (op == 2) {
		x.owner = -1;
		release(m);
		wake(m);
		return 0;
	}
	if (op == 1 && x.owner != -1) return 16;
	while (mutexes[m].owner != -1) wait_for(m);
	mutexes[m].owner = cur;
	acquire(m);
	return 0;
}
static void range(const void* p, size_t n, bool write) {
	access(p, n, write);
}
static void fresh_memory(const void* p, size_t n) {
	if (cur < 0) return;
	for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; g++) {
		// contents of the first and last granule belong to this block, too: blocks are aligned
		Shadow& s = slot(g);
		memset(s.w, 0, sizeof s.w);
		memset(s.r, 0, sizeof s.r);
	}
}
static void yield() {
	if (cur >= 0 && enabled_other()) leave(YIELD);
}
static void aborts() {
	if (cur < 0) return;
	if (race.empty()) race = venv::fmt("thread %d calls abort", cur);
	T[cur].state = FINISHED;
	for (;;) leave(FINISH);
}
static venv::ThreadHooks hooks = {once, mutex, range, fresh_memory, yield, aborts};

static void body(int i) {
	T[i].result = vu_run(T[i].kind, &T[i].d);
	T[i].state = FINISHED;
	leave(FINISH);
}
// Runs the threads. bound: number of preemptions; first: position of the first one (the number of points if there is none).
// What happens is determined by the choices which are made here.
static void run(const std::vector<int>& kinds, int bound, uint64_t first, uint64_t id, bool only_count = false) {
	if (!shadow) {
		shadow = (Shadow*)mmap(nullptr, SLOTS * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		for (auto& t : T) t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	}
	stamp++;
	nthreads = (int)kinds.size();
	sync_clock.clear();
	mutexes.clear();
	race.clear();
	trace.clear();
	steps = 0;
	preemptions = bound;
	free_run = only_count;
	for (int i = 0; i < nthreads; i++) {
		Thread& t = T[i];
		t.state = READY;
		t.started = false;
		t.kind = kinds[i];
		t.result = 99;
		t.at = 0;
		t.now = t.release_fence = t.acquire_pending = Clock();
		t.now.c[i] = 1;
		getcontext(&t.ctx);
		t.ctx.uc_stack.ss_sp = t.stack;
		t.ctx.uc_stack.ss_size = STACK;
		t.ctx.uc_link = &main_ctx;
		makecontext(&t.ctx, (void (*)())body, 1, i);
	}
	venv::threads = &hooks;
	mc::in_target = true;
	bool first_slice = true, forced = false;
	int prev = -1;
	for (;;) {
		int cand[MAXT], n = 0;
		bool unstarted[16] = {};
		for (int i = 0; i < nthreads; i++) {
			if (T[i].state != READY || (i == prev && forced)) continue;
			if (!T[i].started) {
				// threads with the same program are interchangeable until they start
				if (unstarted[T[i].kind]) continue;
				unstarted[T[i].kind] = true;
			}
			cand[n++] = i;
		}
		if (n == 0 && forced && T[prev].state == READY) cand[n++] = prev;
		if (n == 0) break;
		uint64_t st = id;
		for (int i = 0; i < nthreads; i++) st = mc::mix(st, T[i].at * 4 + T[i].state);
		if (!only_count) mc::state(st);
		int next = cand[only_count ? 0 : mc::choose(n, "thread")];
		size_t at = mc::position();
		bool open = false;
		if (first_slice) {
			gap = first;
		} else if (preemptions > 0 && !only_count) {
			gap = mc::choose(mc::OPEN, "run");
			open = true;
		}
		first_slice = false;
		slice_steps = slice_points = 0;
		T[next].started = true;
		cur = next;
		swapcontext(&main_ctx, &T[next].ctx);
		cur = -1;
		if (steps > 20000000) {
			race = "the threads do not come to an end";
			break;
		}
		if (prev == -1) first_slice_points = slice_points;
		if (reason == PREEMPT)
			preemptions--;
		else if (open)
			mc::last_alternative(at);
		forced = reason == PREEMPT || reason == YIELD;
		prev = next;
	}
	mc::in_target = false;
	venv::threads = nullptr;
	mc::count_transitions(steps);
}

} // namespace sched
using namespace sched;

// ------------------------------------------------------------------------------------------- callbacks of the compiler

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n)                                                                \
	void __tsan_read##n(void* p) { access(p, n, false); }                        \
	void __tsan_write##n(void* p) { access(p, n, true); }                        \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); }              \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true); }              \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); }               \
	void __tsan_volatile_write##n(void* p) { access(p, n, true); }               \
	void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); }     \
	void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }

static void before_atomic(const volatile void* p, size_t n, bool write, int order) {
	if (cur < 0) return;
	point();
	if (!own_stack((uintptr_t)p)) record((uintptr_t)p, n, write, true);
	(void)order;
}
static void after_load(const volatile void* p, int order) {
	if (cur < 0) return;
	auto it = sync_clock.find((const void*)p);
	if (it == sync_clock.end()) return;
	if (order == 1 || order == 2 || order == 4 || order == 5)
		T[cur].now.join(it->second);
	else
		T[cur].acquire_pending.join(it->second);
}
static void before_store(const volatile void* p, int order, bool rmw) {
	if (cur < 0) return;
	Clock& s = sync_clock[(const void*)p];
	if (!rmw) s = Clock();
	if (order >= 3) {
		s.join(T[cur].now);
		T[cur].now.c[cur]++;
	} else
		s.join(T[cur].release_fence);
}
void __tsan_atomic_thread_fence(int order) {
	if (cur < 0) return;
	point();
	if (order != 3 && order != 0) T[cur].now.join(T[cur].acquire_pending);
	if (order >= 3) {
		T[cur].release_fence = T[cur].now;
		T[cur].now.c[cur]++;
	}
}
void __tsan_atomic_signal_fence(int) {}
#define RMW(bits, type, name, expr)                                        \
	type __tsan_atomic##bits##_##name(volatile type* p, type v, int order) { \
		before_atomic(p, sizeof(type), true, order);                       \
		after_load(p, order);                                              \
		before_store(p, order, true);                                      \
		type o = *p;                                                       \
		*p = (type)(expr);                                                 \
		return o;                                                          \
	}
#define ATOMIC(bits, type)                                                                                  \
	type __tsan_atomic##bits##_load(const volatile type* p, int order) {                                    \
		before_atomic(p, sizeof(type), false, order);                                                       \
		after_load(p, order);                                                                               \
		return *p;                                                                                          \
	}                                                                                                       \
	void __tsan_atomic##bits##_store(volatile type* p, type v, int order) {                                 \
		before_atomic(p, sizeof(type), true, order);                                                        \
		before_store(p, order, false);                                                                      \
		*p = v;                                                                                             \
	}                                                                                                       \
	RMW(bits, type, exchange, v)                                                                            \
	RMW(bits, type, fetch_add, o + v)                                                                       \
	RMW(bits, type, fetch_sub, o - v)                                                                       \
	RMW(bits, type, fetch_and, o& v)                                                                        \
	RMW(bits, type, fetch_or, o | v)                                                                        \
	RMW(bits, type, fetch_xor, o ^ v)                                                                       \
	RMW(bits, type, fetch_nand, ~(o & v))                                                                   \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int order, int failure) { \
		before_atomic(p, sizeof(type), true, order);                                                        \
		if (*p == *e) {                                                                                     \
			after_load(p, order);                                                                           \
			before_store(p, order, true);                                                                   \
			*p = v;                                                                                         \
			return 1;                                                                                       \
		}                                                                                                   \
		after_load(p, failure);                                                                             \
		*e = *p;                                                                                            \
		return 0;                                                                                           \
	}                                                                                                       \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int order, int failure) { \
		return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, order, failure);                      \
	}                                                                                                       \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int order, int failure) { \
		__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, order, failure);                            \
		return e;                                                                                           \
	}
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// library functions which access memory on behalf of the library
void* vthr_memcpy(void* d, const void* s, size_t n) {
	range(s, n, false);
	range(d, n, true);
	return memmove(d, s, n);
}
void* vthr_memmove(void* d, const void* s, size_t n) {
	return vthr_memcpy(d, s, n);
}
void* vthr_memset(void* d, int c, size_t n) {
	range(d, n, true);
	return memset(d, c, n);
}
int vthr_memcmp(const void* a, const void* b, size_t n) {
	range(a, n, false);
	range(b, n, false);
	return memcmp(a, b, n);
}
size_t vthr_strlen(const char* s) {
	size_t n = strlen(s);
	range(s, n + 1, false);
	return n;
}
size_t vthr_strnlen(const char* s, size_t m) {
	size_t n = strnlen(s, m);
	range(s, n < m ? n + 1 : n, false);
	return n;
}
char* vthr_strncpy(char* d, const char* s, size_t n) {
	range(s, strnlen(s, n), false);
	range(d, n, true);
	return strncpy(d, s, n);
}
int vthr_snprintf(char* d, size_t n, const char* f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(d, n, f, ap);
	va_end(ap);
	if (r >= 0) range(d, std::min<size_t>(n, (size_t)r + 1), true);
	return r;
}
}

// -------------------------------------------------------------------------------------------------------------- P01

struct Serial {
	bool ok;
	uint64_t answer[8];
	vdesc d;
	uint64_t opens, cpuids, points[3][3];
};
static void set_up(int k, bool failing) {
	venv::fresh();
	machines::emit(k);
	if (failing) {
		if (vd_arch <= 1)
			env.cpuid.clear(), env.fail_alloc = {0};
		else
			env.files.erase("/proc/cpuinfo"), env.fail_alloc = {0};
	}
	env.getcpu_ret = 0;
	env.getcpu_cpu = 0;
}
static const Serial& serial(int k, bool failing) {
	static std::map<int, Serial*> memo;
	auto& s = memo[k * 2 + failing];
	if (!s) {
		mc::Probe probe;
		s = new Serial();
		set_up(k, failing);
		auto o = venv::initialize();
		s->ok = o.ok;
		s->opens = env.n_open;
		s->cpuids = env.n_cpuid;
		MC_CHECK(o.ok == !failing, "baseline", "machine %d: initialization %s", k, o.ok ? "succeeds" : "fails");
		if (o.ok) MC_CHECK(venv::dump(&s->d), "baseline", "a query aborted");
		for (int kind : {0, 1, 2, 5, 6}) {
			set_up(k, failing);
			s->answer[kind] = vu_run(kind, &T[0].d);
		}
		s->answer[3] = s->answer[4] = s->answer[0];
	}
	return *s;
}
static uint64_t points(int k, bool failing, const std::vector<int>& kinds, bool ready) {
	static std::map<std::string, uint64_t> memo;
	std::string key = venv::fmt("%d.%d.%d", k, failing, ready);
	for (int x : kinds) key += venv::fmt(".%d", x);
	auto it = memo.find(key);
	if (it != memo.end()) return it->second;
	mc::Probe probe;
	set_up(k, failing);
	if (ready) venv::initialize();
	run(kinds, 0, 0, 0, true);
	return memo[key] = first_slice_points;
}
static void explore(int k, bool failing, const std::vector<int>& kinds, int bound, bool ready = false) {
	const Serial& s = serial(k, failing);
	uint64_t n = points(k, failing, kinds, ready);
	uint64_t first = mc::choose((uint32_t)n + 1, "first preemption");
	mc::commit();
	set_up(k, failing);
	if (ready) MC_CHECK(venv::initialize().ok, "baseline", "initialization fails");
	uint64_t opens = env.n_open, cpuids = env.n_cpuid;
	uint64_t id = k * 4 + failing * 2 + ready;
	for (int x : kinds) id = id * 8 + x;
	run(kinds, bound, first, id);
	mc::count_nontrivial();
	mc::count_validated();
	MC_CHECK(race.empty(), "race", "%s", race.c_str());
	for (int i = 0; i < nthreads; i++) {
		MC_CHECK(T[i].state == FINISHED, "deadlock", "thread %d waits forever", i);
		MC_CHECK(T[i].result == s.answer[T[i].kind], "answer", "thread %d got another answer (%s) than without concurrency", i, T[i].result == 0 ? "initialization fails" : T[i].result == 3 ? "two initialize calls disagree" : "description differs");
		if ((T[i].kind == 1 || T[i].kind == 4) && s.ok) {
			std::string df = venv::diff(s.d, T[i].d);
			MC_CHECK(df.empty(), "answer", "thread %d sees another description: %s", i, df.c_str());
		}
	}
	if (!ready) {
		MC_CHECK(env.n_open <= s.opens && env.n_cpuid <= s.cpuids, "twice", "detection runs more than once: %llu files opened instead of %llu", (unsigned long long)env.n_open, (unsigned long long)s.opens);
	} else {
		MC_CHECK(env.n_open == opens && env.n_cpuid == cpuids, "twice", "queries open files");
	}
	if (s.ok) {
		MC_CHECK(venv::dump(&venv::D), "abort", "a query aborted");
		std::string df = venv::diff(s.d, venv::D);
		MC_CHECK(df.empty(), "final", "the final description differs: %s", df.c_str());
	}
}
static int small_machines() {
	return std::min(machines::basic(), 3);
}
MC_FAMILY(P01, two, "two threads which initialize and query, three machines (all in the thorough tier), at most 2 preemptions at any access to shared memory", 0) {
	explore(mc::choose(mc::thorough() ? machines::basic() : small_machines(), "machine"), false, {0, 0}, 2);
}
MC_FAMILY(P01, two_deep, "two threads which initialize and query, three machines, at most 3 preemptions", 1) {
	explore(mc::choose(small_machines(), "machine"), false, {0, 0}, 3);
}
MC_FAMILY(P01, three, "three threads which initialize and query, every machine, at most 1 preemption", 0) {
	explore(mc::choose(machines::basic(), "machine"), false, {0, 0, 0}, 1);
}
MC_FAMILY(P01, three_initialize, "three threads which initialize, one machine (all in the thorough tier), at most 2 preemptions", 0) {
	explore(mc::choose(mc::thorough() ? machines::basic() : 1, "machine"), false, {6, 6, 6}, 2);
}
MC_FAMILY(P01, three_deep, "three threads which initialize (one queries), three machines, at most 2 preemptions", 1) {
	explore(mc::choose(small_machines(), "machine"), false, {6, 6, 0}, 2);
}
MC_FAMILY(P01, repeated, "threads which initialize twice and one which releases the library, three machines, at most 2 preemptions", 0) {
	explore(mc::choose(small_machines(), "machine"), false, {2, 5}, 2);
}
MC_FAMILY(P01, everything, "two threads, one of them asks for everything, every machine, at most 1 preemption", 0) {
	explore(mc::choose(machines::basic(), "machine"), false, mc::flag("order") ? std::vector<int>{1, 0} : std::vector<int>{0, 1}, 1);
}
MC_FAMILY(P01, failing, "two or three threads, failing detection, every machine, at most 2 preemptions", 0) {
	int k = mc::choose(machines::basic(), "machine");
	explore(k, true, mc::flag("three") ? std::vector<int>{2, 6, 6} : std::vector<int>{2, 2}, 2);
}
MC_FAMILY(P01, queries, "two or three threads which only query, every machine, at most 2 preemptions (three threads: 1)", 0) {
	int k = mc::choose(machines::basic(), "machine");
	bool three = mc::flag("three");
	explore(k, false, three ? std::vector<int>{3, 3, 3} : std::vector<int>{3, 3}, three ? 1 : 2, true);
}
MC_FAMILY(P01, all_queries, "two threads which ask for everything, every machine, at most 1 preemption", 0) {
	explore(mc::choose(machines::basic(), "machine"), false, {4, 4}, 1, true);
}
