// P33: the simulation interface itself, operation by operation. (Whole machines are compared by describing them with and without it.)
#include "mc.h"
#include "venv.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/types.h>
using venv::env;
using venv::fmt;

extern "C" {
struct mock_cpuid { uint32_t leaf, sub, a, b, c, d; };
struct mock_file { const char* path; size_t size; const char* content; size_t offset; };
void cpuinfo_mock_set_cpuid(mock_cpuid*, size_t) __attribute__((weak));
void cpuinfo_mock_get_cpuid(uint32_t, uint32_t*) __attribute__((weak));
void cpuinfo_mock_get_cpuidex(uint32_t, uint32_t, uint32_t*) __attribute__((weak));
void cpuinfo_mock_filesystem(mock_file*);
int cpuinfo_mock_open(const char*, int);
int cpuinfo_mock_close(int);
ssize_t cpuinfo_mock_read(int, void*, size_t);
}

template <class F> static void call(F f) {
	venv::Outcome o = venv::guarded([](void* p) { (*(F*)p)(); }, &f);
	MC_CHECK(!o.aborted, "abort", "an operation on the simulation aborted");
}

// ---------------------------------------------------------------- files

struct Model {
	std::string path, content;
	long pos = -1; // -1: not open
	int fd = -1; // as last given out
};
enum Kind { OPEN, WRITE, READ, CLOSE, INSTALL };
struct Op {
	Kind kind;
	uint32_t which; // name, file whose descriptor is used (2: a descriptor nobody has), or file system
	uint32_t capacity;
};
static const Op OPS[] = {{OPEN, 0, 0}, {OPEN, 1, 0}, {OPEN, 2, 0}, {WRITE, 0, 0}, {READ, 0, 0}, {READ, 0, 1}, {READ, 0, 2}, {READ, 0, 5}, {READ, 0, 64}, {READ, 1, 1}, {READ, 1, 64}, {READ, 2, 1}, {CLOSE, 0, 0}, {CLOSE, 1, 0}, {CLOSE, 2, 0}, {INSTALL, 0, 0}, {INSTALL, 1, 0}, {INSTALL, 2, 0}};

static void operations(uint32_t depth) {
	static const char* const names[] = {"/sys/a", "/sys/ab", "/proc/x"};
	static const uint32_t LEN[] = {0, 3, 5};
	uint32_t len = mc::pick(LEN, "length of the first file");
	std::vector<Op> ops(1 + mc::choose(depth, "operations"));
	for (auto& o : ops) o = mc::pick(OPS, "operation");
	mc::commit();
	venv::fresh();
	static mock_file table[2][4];
	table[0][0] = {names[0], len, "abcdefg", 7};
	table[0][1] = {names[1], 2, "0123456", 7};
	table[0][2] = {nullptr, 0, nullptr, 0};
	table[1][0] = {names[1], 4, "wxyz", 7};
	table[1][1] = {nullptr, 0, nullptr, 0};
	std::vector<Model> m;
	auto install = [&](int t) {
		m.clear();
		// the third set is the first one, to which a file has been added in place
		table[0][2] = t == 2 ? mock_file{names[2], 1, "P", 7} : mock_file{nullptr, 0, nullptr, 0};
		table[0][3] = {nullptr, 0, nullptr, 0};
		if (t == 2) t = 0;
		for (mock_file* f = table[t]; f->path; f++) m.push_back({f->path, std::string(f->content, f->size)});
		call([&] { cpuinfo_mock_filesystem(table[t]); });
	};
	install(0);
	uint64_t h = len;
	for (auto& o : ops) {
		int r = 0;
		Model* f = nullptr;
		if (o.kind == OPEN || o.kind == WRITE) {
			for (auto& x : m)
				if (x.path == names[o.which]) f = &x;
			call([&] { r = cpuinfo_mock_open(names[o.which], o.kind == OPEN ? O_RDONLY : O_RDWR); });
			if (o.kind == WRITE || !f || f->pos >= 0)
				MC_CHECK(r == -1, "open", "opening %s%s gives %d", names[o.which], o.kind == WRITE ? " for writing" : f ? ", which is open," : ", which does not exist,", r);
			else {
				MC_CHECK(r >= 0, "open", "opening %s gives %d", names[o.which], r);
				for (auto& x : m) MC_CHECK(x.pos < 0 || x.fd != r, "open", "two files have the descriptor %d", r);
				f->pos = 0;
				f->fd = r;
			}
		} else if (o.kind == INSTALL)
			install((int)o.which);
		else {
			int d = o.which < m.size() ? m[o.which].fd : o.which == 2 ? 77 : -1;
			for (auto& x : m)
				if (x.pos >= 0 && x.fd == d) f = &x;
			if (o.kind == CLOSE) {
				call([&] { r = cpuinfo_mock_close(d); });
				MC_CHECK(r == (f ? 0 : -1), "close", "closing descriptor %d, which is%s open, gives %d", d, f ? "" : " not", r);
				if (f) f->pos = -1;
			} else {
				static char buffer[80];
				memset(buffer, '#', sizeof buffer);
				ssize_t k = 0;
				call([&] { k = cpuinfo_mock_read(d, buffer, o.capacity); });
				size_t want = f ? std::min<size_t>(o.capacity, f->content.size() - (size_t)f->pos) : 0;
				MC_CHECK(k == (f ? (ssize_t)want : -1), "read", "reading descriptor %d, which is%s open, with capacity %u gives %zd", d, f ? "" : " not", o.capacity, k);
				if (f) MC_CHECK(memcmp(buffer, f->content.data() + f->pos, want) == 0, "read", "other bytes than those of the file at %ld", f->pos);
				for (size_t j = want; j < sizeof buffer; j++) MC_CHECK(buffer[j] == '#', "read", "byte %zu behind the %zu which were read has been written", j, want);
				if (f) f->pos += (long)want;
			}
		}
		for (auto& x : m) h = mc::mix(h, (uint64_t)(x.pos + 1));
		h = mc::mix(h, m.size());
	}
	MC_CHECK(env.n_open + env.n_read + env.n_close == 0, "real", "the real file system was consulted although files are simulated");
	mc::state(h);
	mc::count_validated();
}
MC_FAMILY(P33, operations, "every sequence of up to 4 of 18 operations on two or three simulated files: open of each and of an absent one, open for writing, reads with several capacities and close of each descriptor and of one which nobody has, installation of another file system and of one to which a file has been added or from which it has been removed; three lengths of the file", 0) {
	operations(4);
}
MC_FAMILY(P33, operations5, "as operations, up to 5", 1) {
	operations(5);
}

MC_FAMILY(P33, unsimulated, "without simulated files, every sequence of up to 5 operations reaches the real file system", 0) {
	std::vector<uint32_t> ops(1 + mc::choose(5, "operations"));
	bool open = false;
	for (auto& o : ops) {
		o = mc::choose(4, "operation"); // open, open an absent file, read, close
		if (o == 0 ? open : o > 1 && !open) mc::reject();
		if (o == 0) open = true;
		if (o == 3) open = false;
	}
	mc::commit();
	venv::fresh();
	env.file("/f", "abcdef");
	int fd = -1;
	size_t pos = 0;
	uint64_t opens = 0, reads = 0, closes = 0;
	for (auto o : ops) {
		if (o < 2) {
			int r = 0;
			call([&] { r = cpuinfo_mock_open(o ? "/absent" : "/f", O_RDONLY); });
			opens++;
			MC_CHECK((r >= 0) == (o == 0), "open", "descriptor %d", r);
			if (!o) fd = r, pos = 0;
		} else if (o == 2) {
			static char b[4];
			ssize_t r = 0;
			call([&] { r = cpuinfo_mock_read(fd, b, 4); });
			reads++;
			size_t want = std::min<size_t>(4, 6 - pos);
			MC_CHECK(r == (ssize_t)want && memcmp(b, "abcdef" + pos, want) == 0, "read", "%zd bytes at %zu", r, pos);
			pos += want;
		} else {
			int r = -1;
			call([&] { r = cpuinfo_mock_close(fd); });
			closes++;
			MC_CHECK(r == 0, "close", "closing gives %d", r);
		}
		MC_CHECK(env.n_open == opens && env.n_read == reads && env.n_close == closes, "real", "%u opens, %u reads and %u closes reached the system, not %u, %u and %u", (unsigned)env.n_open, (unsigned)env.n_read, (unsigned)env.n_close, (unsigned)opens, (unsigned)reads, (unsigned)closes);
	}
	MC_CHECK(env.errors.empty(), "real", "%s", env.errors.empty() ? "" : env.errors[0].c_str());
	mc::count_validated();
}

// ---------------------------------------------------------------- registers

#if VARCH_x86_64 || VARCH_i386
static void registers(uint32_t entries, uint32_t depth) {
	static const uint32_t L[] = {0, 4, 0xB, 0x80000002}, S[] = {0, 1, 2};
	static std::vector<mock_cpuid> list;
	uint32_t ne = mc::choose(entries + 1, "entries");
	list.clear();
	for (uint32_t i = 0; i < ne; i++) {
		uint32_t l = mc::pick(L, "leaf"), s = mc::pick(S, "sub-leaf");
		uint32_t v = 0x01010101u * (i + 1);
		for (auto& e : list)
			if (e.leaf == l && e.sub == s) mc::reject();
		list.push_back({l, s, v, v ^ 0x10, v ^ 0x20, v ^ 0x40});
	}
	std::vector<std::pair<uint32_t, uint32_t>> q(1 + mc::choose(depth, "queries"));
	for (auto& x : q) x.first = mc::pick(L, "leaf"), x.second = mc::choose(4, "sub-leaf"); // 3: none
	mc::commit();
	venv::fresh();
	call([&] { cpuinfo_mock_set_cpuid(ne ? list.data() : nullptr, ne); });
	uint32_t fours = 0; // queries of leaf 4 without sub-leaf walk through its sub-leaves
	for (size_t i = 0; i < q.size(); i++) {
		uint32_t l = q[i].first, s = q[i].second;
		uint32_t r[4] = {1, 2, 3, 4};
		const mock_cpuid* want = nullptr;
		uint32_t skip = s == 3 && l == 4 ? fours : 0;
		for (auto& e : list)
			if (!want && e.leaf == l && (s == 3 || e.sub == s) && skip-- == 0) want = &e;
		if (s == 3)
			call([&] { cpuinfo_mock_get_cpuid(l, r); });
		else
			call([&] { cpuinfo_mock_get_cpuidex(l, s, r); });
		fours = s == 3 && l == 4 ? fours + (want ? 1 : 0) : 0;
		static const mock_cpuid zero = {};
		if (!want) want = &zero;
		MC_CHECK(r[0] == want->a && r[1] == want->b && r[2] == want->c && r[3] == want->d, "registers", "query %zu of leaf %x, sub-leaf %d gives %08x %08x %08x %08x, the simulated machine has %08x %08x %08x %08x", i, l, s == 3 ? -1 : (int)s, r[0], r[1], r[2], r[3], want->a, want->b, want->c, want->d);
	}
	mc::state(mc::mix(ne, q.size()));
	mc::count_validated();
}
MC_FAMILY(P33, registers, "every list of up to 3 of 12 leaves and sub-leaves in every order; every sequence of up to 2 queries with and without sub-leaf", 0) {
	registers(3, 2);
}
MC_FAMILY(P33, register_walks, "every list of up to 3 of 12 leaves and sub-leaves in every order; every sequence of up to 3 queries", 1) {
	registers(3, 3);
}
MC_FAMILY(P33, leaf_four, "lists of 0-4 sub-leaves of leaf 4 between other leaves; every sequence of up to 6 queries of leaf 4 and of another leaf", 0) {
	uint32_t k = mc::choose(5, "sub-leaves");
	std::vector<uint32_t> q(1 + mc::choose(6, "queries"));
	for (auto& x : q) x = mc::choose(3, "query");
	static std::vector<mock_cpuid> list;
	list = {{1, 0, 1, 1, 1, 1}};
	for (uint32_t i = 0; i < k; i++) {
		list.push_back({4, i, 0x100 + i, i, i, i});
		list.push_back({0x10 + i, 0, 7, 7, 7, 7});
	}
	mc::commit();
	venv::fresh();
	call([&] { cpuinfo_mock_set_cpuid(list.data(), list.size()); });
	uint32_t at = 0;
	for (uint32_t other : q) {
		uint32_t r[4] = {};
		if (other == 0) {
			call([&] { cpuinfo_mock_get_cpuid(4, r); });
			MC_CHECK(r[0] == (at < k ? 0x100 + at : 0), "registers", "query %u of leaf 4 in a row gives %x", at, r[0]);
			if (at < k) at++;
		} else {
			if (other == 1)
				call([&] { cpuinfo_mock_get_cpuid(1, r); });
			else
				call([&] { cpuinfo_mock_get_cpuidex(4, 1, r); });
			MC_CHECK(r[0] == (other == 1 ? 1u : k > 1 ? 0x101u : 0u), "registers", "query between those of leaf 4 gives %x", r[0]);
			at = 0;
		}
	}
	mc::state(mc::mix(k, at));
	mc::count_validated();
}
#endif
