#include "mc.h"
#include "venv.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <algorithm>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {

Family* families = nullptr;
Reg::Reg(Family* f) {
	// keep the order of registration
	Family** p = &families;
	while (*p) p = &(*p)->next;
	*p = f;
}

bool in_target = false;

static const int MAXCH = 4096;
struct Shared {
	volatile uint64_t execs, runs, transitions, validated, nontrivial, rejected;
	volatile uint64_t progress;
	volatile int family;
	volatile int done;
	volatile uint32_t nch;
	volatile uint32_t ch[MAXCH];
	volatile int nviol;
	struct {
		int family;
		char key[128];
		char msg[4096];
		uint32_t nch;
		uint32_t ch[MAXCH];
	} viol;
	struct {
		char key[128];
		char msg[512];
		uint64_t count;
	} known[64];
	int nknown;
	struct {
		int family;
		char text[600];
	} sample[24];
	int nsample;
	uint64_t fam_execs[64], fam_runs[64], fam_outcome[64];
};
static Shared* sh; // of this worker
static int g_shard = 0, g_nshards = 1, g_family = 0;
static bool g_thorough = false, g_replay = false;
static double g_deadline = 0;
static bool g_timeout = false;
static std::vector<std::pair<uint32_t, uint32_t>> stk; // value, n
static std::vector<const char*> labels;
static size_t pos;
static bool decided, owned, pending_skip;
static uint64_t prod, prefix_hash;
static std::string g_desc;
static std::unordered_set<uint64_t> g_states;
static std::set<std::string> g_known;
static std::vector<uint32_t> g_replay_ch;
static int g_fam_samples;

static int g_probing = 0;
Probe::Probe() {
	g_probing++;
}
Probe::~Probe() {
	g_probing--;
}

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static void decide() {
	if (decided) return;
	decided = true;
	owned = g_replay || (prefix_hash >> 7) % g_nshards == (uint64_t)g_shard;
	if (!owned) {
		if (in_target) {
			pending_skip = true;
		} else {
			throw Skip();
		}
	}
}

uint32_t choose(uint32_t n, const char* label) {
	if (n == 0) {
		fprintf(stderr, "choose(0) at %s\n", label);
		_exit(3);
	}
	if (n == 1) return 0;
	uint32_t v;
	if (g_replay) {
		v = pos < g_replay_ch.size() ? g_replay_ch[pos] : 0;
		if (v >= n) {
			fprintf(stderr, "replay: choice %zu out of range (%u of %u) at %s\n", pos, v, n, label);
			_exit(3);
		}
		stk.push_back({v, n});
	} else if (pos < stk.size()) {
		v = stk[pos].first;
		if (stk[pos].second != n && n != OPEN) {
			fprintf(stderr, "nondeterministic scenario: choice %zu had %u alternatives, now %u at %s\n", pos, stk[pos].second, n, label);
			_exit(3);
		}
	} else {
		v = 0;
		stk.push_back({0, n});
	}
	if (labels.size() <= pos) labels.resize(pos + 1);
	labels[pos] = label;
	if (sh && pos < MAXCH) {
		sh->ch[pos] = v;
		sh->nch = (uint32_t)pos + 1;
	}
	pos++;
	if (!decided) {
		prefix_hash = mix(prefix_hash, v);
		prod *= n;
		if (prod >= (uint64_t)g_nshards * 64) decide();
	}
	return v;
}

size_t position() {
	return pos;
}
void last_alternative(size_t p) {
	if (p < stk.size()) stk[p].second = stk[p].first + 1;
}

void commit() {
	if (g_probing) return;
	decide();
	if (pending_skip && !in_target) throw Skip();
}

void reject() {
	if (sh) sh->rejected++;
	throw Skip();
}

void fail(const char* key, const char* fmt, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Violation{key, buf};
}

void state(uint64_t d) {
	if (g_states.size() < 12000000) g_states.insert(d);
}
static FILE* g_outcomes;
void outcome(uint64_t d) {
	uint64_t h = 99;
	for (size_t i = 0; i < pos; i++) h = mix(h, stk[i].first);
	if (sh) sh->fam_outcome[g_family] += mix(h, d);
	if (g_outcomes) {
		for (size_t i = 0; i < pos; i++) fprintf(g_outcomes, "%s%u", i ? "," : "", stk[i].first);
		fprintf(g_outcomes, " %016llx\n", (unsigned long long)d);
	}
	if (g_replay) printf("outcome %016llx\n", (unsigned long long)d);
}
void done() {
	throw Done();
}
void count_transitions(uint64_t n) {
	if (sh && !g_probing) sh->transitions += n;
}
void count_validated(uint64_t n) {
	if (sh) sh->validated += n;
}
void count_nontrivial(uint64_t n) {
	if (sh) sh->nontrivial += n;
}
bool thorough() {
	return g_thorough;
}
bool replaying() {
	return g_replay;
}
bool want_description() {
	return g_replay || g_fam_samples < 3;
}
void describe(const char* fmt, ...) {
	if (!want_description()) return;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	g_desc += buf;
}

static void start_execution() {
	g_probing = 0;
	pos = 0;
	decided = owned = pending_skip = false;
	prod = 1;
	prefix_hash = 0x1234567;
	g_desc.clear();
	in_target = false;
	if (sh) sh->nch = 0;
}

static std::string choice_text() {
	std::string s;
	for (size_t i = 0; i < pos; i++) {
		char b[96];
		if (labels[i] && *labels[i])
			snprintf(b, sizeof b, "%s%s=%u/%u", i ? " " : "", labels[i], stk[i].first, stk[i].second);
		else
			snprintf(b, sizeof b, "%s%u/%u", i ? " " : "", stk[i].first, stk[i].second);
		s += b;
		if (s.size() > 400) {
			s += " ...";
			break;
		}
	}
	return s;
}

static void add_sample(int fam) {
	if (!sh || sh->nsample >= 24) return;
	std::string t = choice_text();
	if (!g_desc.empty()) t = g_desc.substr(0, 300) + " [" + t + "]";
	snprintf(sh->sample[sh->nsample].text, sizeof sh->sample[0].text, "%s", t.c_str());
	sh->sample[sh->nsample].family = fam;
	sh->nsample++;
}

static void note_known(const Violation& v) {
	for (int i = 0; i < sh->nknown; i++)
		if (v.key == sh->known[i].key) {
			sh->known[i].count++;
			return;
		}
	if (sh->nknown < 64) {
		snprintf(sh->known[sh->nknown].key, 128, "%s", v.key.c_str());
		snprintf(sh->known[sh->nknown].msg, 512, "%s", v.msg.c_str());
		sh->known[sh->nknown].count = 1;
		sh->nknown++;
	}
}

static bool explore(Family* f, int idx) {
	stk.clear();
	g_fam_samples = 0;
	uint64_t n = 0;
	for (;;) {
		start_execution();
		bool ran = false;
		try {
			f->fn();
			if (!decided) decide();
			ran = !pending_skip;
		} catch (Skip&) {
		} catch (Done&) {
			ran = true;
		} catch (Violation& v) {
			in_target = false;
			ran = true;
			if (g_known.count(v.key)) {
				note_known(v);
			} else {
				sh->viol.family = idx;
				snprintf(sh->viol.key, sizeof sh->viol.key, "%s", v.key.c_str());
				snprintf(sh->viol.msg, sizeof sh->viol.msg, "%s", v.msg.c_str());
				sh->viol.nch = (uint32_t)std::min<size_t>(pos, MAXCH);
				for (uint32_t i = 0; i < sh->viol.nch; i++) sh->viol.ch[i] = stk[i].first;
				sh->nviol = 1;
				return false;
			}
		}
		if (ran) {
			sh->execs++;
			sh->fam_execs[idx]++;
			if (g_fam_samples < 3) {
				// first one, then sparsely
				if (g_fam_samples == 0 || (n & (n - 1)) == 0) {
					if (n == 0 || n == 64 || n == 4096) {
						add_sample(idx);
						g_fam_samples++;
					}
				}
			}
			n++;
		}
		sh->progress++;
		stk.resize(std::min(stk.size(), pos));
		while (!stk.empty() && stk.back().first + 1 >= stk.back().second) stk.pop_back();
		if (stk.empty()) return true;
		stk.back().first++;
		if ((sh->progress & 255) == 0 && now() > g_deadline) {
			g_timeout = true;
			return false;
		}
	}
}

static std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += c;
	}
	return o;
}

int main(int argc, char** argv) {
	std::string alias, reduced, outcomes, prop, out = "/dev/stdout", scratch = "/tmp", only, choices;
	int workers = 8;
	double limit = 700;
	bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--check") prop = val();
		else if (a == "--family") only = val();
		else if (a == "--tier") g_thorough = val() == "thorough";
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--out") out = val();
		else if (a == "--scratch") scratch = val();
		else if (a == "--limit") limit = atof(val().c_str());
		else if (a == "--known") g_known.insert(val());
		else if (a == "--choices") {
			choices = val();
			g_replay = true;
		} else if (a == "--list") list = true;
		else if (a == "--alias") alias = "," + val() + ",";
		else if (a == "--reduced") reduced = "," + val() + ",";
		else if (a == "--twin") venv::twin = val();
		else if (a == "--outcomes") outcomes = val();
	}
	std::vector<Family*> fams;
	// families of other properties can be explored for this one too: alias is a list of P05 (all) and P05.name; those which
	// start with + only in the thorough tier
	auto aliased = [&](Family* f) {
		for (std::string n : {std::string(f->property), std::string(f->property) + "." + f->name}) {
			if (alias.find("," + n + ",") != std::string::npos) return true;
			if ((g_thorough || g_replay) && alias.find(",+" + n + ",") != std::string::npos) return true;
		}
		return false;
	};
	// in the quick tier a configuration can be limited to some of the families (reduced)
	auto full = [&](Family* f) { return prop == f->property ? std::string(f->name) : std::string(f->property) + "." + f->name; };
	for (Family* f = families; f; f = f->next)
		if ((prop == f->property ? venv::twin.empty() : aliased(f)) && (only.empty() || only == full(f)) && (g_thorough || g_replay || (f->tier == 0 && (reduced.empty() || reduced.find("," + full(f) + ",") != std::string::npos)))) fams.push_back(f);
	if (list) {
		for (Family* f = families; f; f = f->next) printf("%s %s\n", f->property, f->name);
		return 0;
	}
	if (fams.empty()) {
		fprintf(stderr, "no scenario family for %s\n", prop.c_str());
		return 3;
	}
	if (fams.size() > 64) return 3;
	venv::setup();
	g_deadline = now() + limit;
	if (g_replay) {
		const char* p = choices.c_str();
		while (*p) {
			g_replay_ch.push_back(strtoul(p, (char**)&p, 10));
			while (*p == ',') p++;
		}
		start_execution();
		int rc = 0;
		try {
			fams[0]->fn();
			printf("no violation\n");
		} catch (Done&) {
			printf("no violation\n");
		} catch (Skip&) {
			printf("skipped\n");
		} catch (Violation& v) {
			printf("VIOLATED key=%s\n%s\n", v.key.c_str(), v.msg.c_str());
			rc = 1;
		}
		printf("choices: %s\n%s\n", choice_text().c_str(), g_desc.c_str());
		venv::print_environment();
		return rc;
	}
	double t0 = now();
	Shared* all = (Shared*)mmap(0, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pid(workers);
	fflush(stdout);
	for (int w = 0; w < workers; w++) {
		pid[w] = fork();
		if (pid[w] == 0) {
			sh = &all[w];
			g_shard = w;
			g_nshards = workers;
			char lf[512];
			snprintf(lf, sizeof lf, "%s/worker%d.log", scratch.c_str(), w);
			int fd = open(lf, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 1);
			dup2(fd, 2);
			if (!outcomes.empty()) {
				snprintf(lf, sizeof lf, "%s.%d", outcomes.c_str(), w);
				g_outcomes = fopen(lf, "w");
			}
			for (size_t k = 0; k < fams.size(); k++) {
				sh->family = (int)k;
				g_family = (int)k;
				if (!explore(fams[k], (int)k)) break;
			}
			snprintf(lf, sizeof lf, "%s/states%d.bin", scratch.c_str(), w);
			FILE* f = fopen(lf, "wb");
			for (uint64_t s : g_states) fwrite(&s, 8, 1, f);
			fclose(f);
			if (g_outcomes) fclose(g_outcomes);
			sh->done = g_timeout ? 2 : 1;
			_exit(0);
		}
	}
	// watch the workers
	int crash_worker = -1, error_worker = -1;
	bool hang = false;
	std::vector<uint64_t> last(workers, 0);
	std::vector<double> lastcpu(workers, 0);
	std::vector<bool> alive(workers, true);
	int left = workers;
	while (left > 0) {
		for (int w = 0; w < workers; w++) {
			if (!alive[w]) continue;
			int st;
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			if (r == pid[w]) {
				alive[w] = false;
				left--;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && all[w].done) {
					if (all[w].nviol) goto stop;
				} else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
					error_worker = w;
					goto stop;
				} else {
					crash_worker = w;
					goto stop;
				}
				continue;
			}
			clockid_t c;
			struct timespec ts;
			if (clock_getcpuclockid(pid[w], &c) == 0 && clock_gettime(c, &ts) == 0) {
				double cpu = ts.tv_sec + ts.tv_nsec * 1e-9;
				if (all[w].progress != last[w]) {
					last[w] = all[w].progress;
					lastcpu[w] = cpu;
				} else if (cpu - lastcpu[w] > 15) {
					hang = true;
					crash_worker = w;
					goto stop;
				}
			}
		}
		usleep(20000);
	}
stop:
	for (int w = 0; w < workers; w++)
		if (alive[w]) {
			kill(pid[w], SIGKILL);
			waitpid(pid[w], 0, 0);
		}
	FILE* o = fopen(out.c_str(), "w");
	uint64_t execs = 0, runs = 0, trans = 0, valid = 0, nontriv = 0, rej = 0;
	bool timeout = false;
	std::vector<uint64_t> fe(64, 0), fo(64, 0);
	std::vector<uint64_t> states;
	std::map<std::string, std::pair<uint64_t, std::string>> known;
	int vw = -1;
	for (int w = 0; w < workers; w++) {
		execs += all[w].execs;
		runs += all[w].runs;
		trans += all[w].transitions;
		valid += all[w].validated;
		nontriv += all[w].nontrivial;
		rej += all[w].rejected;
		if (all[w].done == 2) timeout = true;
		for (int k = 0; k < 64; k++) fe[k] += all[w].fam_execs[k], fo[k] += all[w].fam_outcome[k];
		for (int k = 0; k < all[w].nknown; k++) {
			auto& e = known[all[w].known[k].key];
			e.first += all[w].known[k].count;
			e.second = all[w].known[k].msg;
		}
		if (all[w].nviol && (vw < 0 || all[w].viol.family < all[vw].viol.family)) vw = w;
		char lf[512];
		snprintf(lf, sizeof lf, "%s/states%d.bin", scratch.c_str(), w);
		if (FILE* f = fopen(lf, "rb")) {
			uint64_t s;
			while (fread(&s, 8, 1, f) == 1) states.push_back(s);
			fclose(f);
			unlink(lf);
		}
	}
	std::sort(states.begin(), states.end());
	states.erase(std::unique(states.begin(), states.end()), states.end());
	fprintf(o, "{\"executions\":%llu,\"transitions\":%llu,\"validated\":%llu,\"nontrivial\":%llu,\"rejected\":%llu,\"states\":%llu,\"timeout\":%s,\"wall\":%.2f,\n",
		(unsigned long long)execs, (unsigned long long)trans, (unsigned long long)valid, (unsigned long long)nontriv,
		(unsigned long long)rej, (unsigned long long)states.size(), timeout ? "true" : "false", now() - t0);
	fprintf(o, "\"families\":[");
	for (size_t k = 0; k < fams.size(); k++)
		fprintf(o, "%s{\"name\":\"%s\",\"executions\":%llu,\"outcome\":\"%016llx\",\"bounds\":\"%s\"}", k ? "," : "", full(fams[k]).c_str(), (unsigned long long)fe[k], (unsigned long long)fo[k], jesc(fams[k]->bounds).c_str());
	fprintf(o, "],\n\"known\":[");
	bool first = true;
	for (auto& e : known) {
		fprintf(o, "%s{\"key\":\"%s\",\"count\":%llu,\"msg\":\"%s\"}", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second.first, jesc(e.second.second).c_str());
		first = false;
	}
	fprintf(o, "],\n\"samples\":[");
	first = true;
	int per = 0;
	for (int w = 0; w < workers && per < 24; w++)
		for (int k = 0; k < all[w].nsample && per < 24; k++)
			if ((w + k) % 3 == 0 || workers < 3) {
				fprintf(o, "%s\"%s: %s\"", first ? "" : ",", full(fams[all[w].sample[k].family]).c_str(), jesc(all[w].sample[k].text).c_str());
				first = false;
				per++;
			}
	fprintf(o, "],\n\"violation\":");
	int rc = 0;
	if (error_worker >= 0) {
		fprintf(o, "null,\"error\":{\"worker\":%d}}\n", error_worker);
		rc = 3;
	} else if (vw >= 0 && crash_worker < 0) {
		auto& v = all[vw].viol;
		fprintf(o, "{\"family\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"choices\":\"", full(fams[v.family]).c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str());
		for (uint32_t i = 0; i < v.nch; i++) fprintf(o, "%s%u", i ? "," : "", v.ch[i]);
		fprintf(o, "\"}}\n");
		rc = 1;
	} else if (crash_worker >= 0) {
		Shared& s = all[crash_worker];
		fprintf(o, "{\"family\":\"%s\",\"key\":\"%s\",\"worker\":%d,\"msg\":\"%s\",\"choices\":\"", full(fams[s.family]).c_str(), hang ? "hang" : "crash", crash_worker, hang ? "execution does not terminate" : "process died (memory error or signal)");
		for (uint32_t i = 0; i < s.nch; i++) fprintf(o, "%s%u", i ? "," : "", s.ch[i]);
		fprintf(o, "\"}}\n");
		rc = 1;
	} else {
		fprintf(o, "null}\n");
	}
	fclose(o);
	return rc;
}

} // namespace mc

int main(int argc, char** argv) {
	return mc::main(argc, argv);
}
