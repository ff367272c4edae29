// Batch runner, replay and minimiser. One forked child per simulated run.
#include "sim_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sched.h>

using namespace simi;

static Dec* rec_area;
static const size_t REC_CAP = 4000000;
static uint64_t max_events = 60000000, max_sim_ns = 1200ull * 1000000000ull;
static unsigned run_wall = 60;
static std::string scenario;

static double wall()
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9;
}
static void run(uint64_t seed, bool replay, const std::vector<Dec>* dec, bool record, bool trace)
{
	memset((void*) res, 0, offsetof(Result, states));
	pid_t p = fork();
	if (p < 0) {perror("fork"); exit(3);}
	if (!p)
	{
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = run_wall; setitimer(ITIMER_REAL, &it, 0);
		RunCfg c; memset((void*) &c, 0, sizeof c);
		c.seed = seed; c.replay = replay; c.record = record; c.trace = trace;
		if (dec) {c.dec = dec->data(); c.ndec = dec->size();}
		c.rec = rec_area; c.rec_cap = REC_CAP;
		c.max_events = max_events; c.max_sim_ns = max_sim_ns; c.scenario = scenario.c_str();
		start_run(c);
		_exit(98);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR);
	if (res->status == RES_NONE)
	{
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGABRT))
		{
			res->status = RES_VIOLATION; snprintf(res->cls, sizeof res->cls, "crash"); snprintf(res->msg, sizeof res->msg, "process killed by signal %d", WTERMSIG(st));
			res->hash = 4711 + WTERMSIG(st);
		}
		else {res->status = RES_ERROR; snprintf(res->cls, sizeof res->cls, "error"); snprintf(res->msg, sizeof res->msg, "child ended with status %x", st);}
	}
}
static std::string esc(const char* s)
{
	std::string o;
	for (; *s; ++s) {char b[8]; if (*s == '"' || *s == '\\') {o += '\\'; o += *s;} else if ((unsigned char) *s < 32) {snprintf(b, sizeof b, "\\u%04x", *s); o += b;} else o += *s;}
	return o;
}
static std::vector<Dec> recorded() {return std::vector<Dec>(rec_area, rec_area + res->ndec);}

struct Mini {bool ok; std::string why; std::vector<Dec> dec; uint64_t hash; int tests; size_t from; std::string msg, trace, cls;};
static bool try_dec(const std::vector<Dec>& d, const std::string& cls, std::vector<Dec>* used)
{
	run(0, true, &d, true, false);
	if (res->status == RES_VIOLATION && cls == res->cls) {*used = recorded(); return true;}
	return false;
}
static Mini minimise(uint64_t seed, const std::string& cls, uint64_t hash, double budget)
{
	Mini m; m.ok = false; m.tests = 0; m.from = 0; m.hash = 0;
	run(seed, false, 0, true, false);
	if (res->status != RES_VIOLATION || cls != res->cls || res->hash != hash)
	{m.why = std::string("seed does not repeat: first ") + cls + ", then " + (res->status == RES_VIOLATION ? res->cls : res->status == RES_OK ? "ok" : res->msg); return m;}
	std::vector<Dec> d = recorded(), used;
	m.from = d.size();
	bool r = try_dec(d, cls, &used);
	if (!r || res->hash != hash) {m.why = std::string("replay of the recorded decisions differs: ") + (res->status == RES_VIOLATION ? res->cls : res->status == RES_OK ? "ok" : res->msg); return m;}
	d = used;
	double end = wall() + budget;
	// ddmin over decisions; each success keeps only the decisions actually consulted
	size_t chunk = d.size() / 2; if (!chunk) chunk = 1;
	while (!d.empty() && wall() < end && m.tests < 1500)
	{
		bool progress = false;
		for (size_t at = 0; at < d.size() && wall() < end && m.tests < 1500;)
		{
			std::vector<Dec> c(d.begin(), d.begin() + at);
			size_t stop = at + chunk < d.size() ? at + chunk : d.size();
			c.insert(c.end(), d.begin() + stop, d.end());
			++m.tests;
			if (try_dec(c, cls, &used) && used.size() < d.size()) {d = used; progress = true;}
			else at = stop;
		}
		if (chunk == 1 && !progress) break;
		if (chunk > 1) chunk = chunk / 2;
	}
	// shrink values
	for (size_t i = 0; i < d.size() && wall() < end && m.tests < 2000; ++i)
		if (d[i].stream >= 0 && d[i].val > 1)
		{
			int64_t old = d[i].val;
			const int64_t cand[] = {1, old / 2};
			for (int64_t v : cand)
			{
				if (v <= 0 || v >= old || i >= d.size()) continue;
				std::vector<Dec> c = d; c[i].val = v;
				++m.tests;
				if (try_dec(c, cls, &used) && used.size() <= d.size()) {d = used; break;}
			}
		}
	std::vector<Dec> u2;
	if (!try_dec(d, cls, &u2)) {m.why = "minimised decisions do not reproduce"; return m;}
	m.hash = res->hash; m.msg = res->msg; m.trace = res->trace; m.cls = res->cls;
	if (!try_dec(d, cls, &u2) || res->hash != m.hash) {m.why = "minimised run is not repeatable"; return m;}
	m.dec = d; m.ok = true;
	return m;
}
static bool write_replay(const char* path, uint64_t seed, const Mini& m)
{
	FILE* f = fopen(path, "w");
	if (!f) return false;
	fprintf(f, "# simulated violation; replay: run_check.py --replay <this file>\nharness %s\nscenario %s\nseed %llu\nclass %s\nhash %llu\nmessage %s\nstack %s\n# decision lines: stream thread index value (stream -1: preemption of thread at its n-th event)\n",
		sim_harness_name(), scenario.empty() ? "-" : scenario.c_str(), (unsigned long long) seed, m.cls.c_str(), (unsigned long long) m.hash, m.msg.c_str(), m.trace.c_str());
	for (const Dec& d : m.dec) fprintf(f, "d %d %d %lld %lld\n", d.stream, d.a, (long long) d.b, (long long) d.val);
	fclose(f);
	return true;
}
static int replay(const char* path, bool trace)
{
	FILE* f = fopen(path, "r");
	if (!f) {perror(path); return 3;}
	char line[8192]; std::vector<Dec> d; std::string cls; unsigned long long hash = 0;
	while (fgets(line, sizeof line, f))
	{
		char b[256]; Dec x; long long p, q;
		if (sscanf(line, "class %200s", b) == 1) cls = b;
		else if (sscanf(line, "scenario %200s", b) == 1) scenario = strcmp(b, "-") ? b : "";
		else if (sscanf(line, "hash %llu", &hash) == 1) {}
		else if (sscanf(line, "d %d %d %lld %lld", &x.stream, &x.a, &p, &q) == 4) {x.b = p; x.val = q; d.push_back(x);}
	}
	fclose(f);
	run(0, true, &d, false, trace);
	printf("status %d class %s hash %llu (expected %s %llu)\n%s\n%s\n", res->status, res->cls, (unsigned long long) res->hash, cls.c_str(), hash, res->msg, res->trace);
	if (res->status == RES_VIOLATION && cls == res->cls && hash == res->hash) {printf("REPRODUCED\n"); return 1;}
	printf("NOT-REPRODUCED\n");
	return 3;
}

int main(int argc, char** argv)
{
	// no address space randomisation: addresses can influence hashing inside the code under test
	if (!getenv("SIM_NOASLR_DONE"))
	{
		int p = personality(0xffffffff);
		if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) {setenv("SIM_NOASLR_DONE", "1", 1); execv("/proc/self/exe", argv);}
	}
	in_sim = 1;
	const char *mode = 0, *out = "-", *rp = 0, *replay_out = "/tmp/sim_replay.txt"; uint64_t base = 1, start = 0, count = 1, stride = 1; double wl = 1e9; bool trace = false; double minb = 40; int cpu = -1;
	std::set<std::string> known; 
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		const char* v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--batch") mode = "batch";
		else if (a == "--one") {mode = "one"; base = strtoull(v, 0, 0); ++i;}
		else if (a == "--raw") {mode = "raw"; base = strtoull(v, 0, 0); ++i;}
		else if (a == "--replay") {mode = "replay"; rp = v; ++i;}
		else if (a == "--scenarios") {puts(sim_harness_scenarios); return 0;}
		else if (a == "--trace") trace = true;
		else if (a == "--base") {base = strtoull(v, 0, 0); ++i;}
		else if (a == "--start") {start = strtoull(v, 0, 0); ++i;}
		else if (a == "--stride") {stride = strtoull(v, 0, 0); ++i;}
		else if (a == "--count") {count = strtoull(v, 0, 0); ++i;}
		else if (a == "--wall") {wl = atof(v); ++i;}
		else if (a == "--out") {out = v; ++i;}
		else if (a == "--replay-out") {replay_out = v; ++i;}
		else if (a == "--scenario") {scenario = v; ++i;}
		else if (a == "--known") {known.insert(v); ++i;}
		else if (a == "--max-events") {max_events = strtoull(v, 0, 0); ++i;}
		else if (a == "--max-sim") {max_sim_ns = (uint64_t) (atof(v) * 1e9); ++i;}
		else if (a == "--run-wall") {run_wall = atoi(v); ++i;}
		else if (a == "--min-budget") {minb = atof(v); ++i;}
		else if (a == "--cpu") {cpu = atoi(v); ++i;}
		else {fprintf(stderr, "unknown option %s\n", a.c_str()); return 3;}
	}
	{
		cpu_set_t all, one; CPU_ZERO(&all);
		if (!sched_getaffinity(0, sizeof all, &all))
		{
			int n = CPU_COUNT(&all), k = 0;
			if (n > 0)
			{
				int want = (cpu < 0 ? getpid() : cpu) % n;
				for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k++ == want) {CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break;}
			}
		}
	}
	res = (Result*) mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	rec_area = (Dec*) mmap(0, REC_CAP * sizeof(Dec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	core_init();
	if (!mode) {fprintf(stderr, "usage: --batch|--one SEED|--replay FILE\n"); return 3;}
	if (!strcmp(mode, "replay")) return replay(rp, trace);
	if (!strcmp(mode, "one") || !strcmp(mode, "raw"))
	{
		uint64_t s = mode[0] == 'o' ? mix(base, start) : base;
		run(s, false, 0, true, trace);
		printf("status %d class %s hash %llu ilv %llu events %llu switches %llu preempts %llu stalls %llu sim %.6f threads %d heap %llu dec %llu\n%s\n%s\n", res->status, res->cls, (unsigned long long) res->hash, (unsigned long long) res->ilv,
			(unsigned long long) res->events, (unsigned long long) res->switches, (unsigned long long) res->preempts, (unsigned long long) res->stalls, res->sim_ns / 1e9, res->threads, (unsigned long long) res->heap_bytes, (unsigned long long) res->ndec, res->msg, res->trace);
		for (int i = 0; i < res->nprobe; ++i) printf("  %-40s %llu\n", res->probes[i].name, (unsigned long long) res->probes[i].n);
		return res->status == RES_OK ? 0 : res->status == RES_VIOLATION ? 1 : 3;
	}
	// batch
	double t0 = wall();
	uint64_t runs = 0, ok = 0, incon = 0, events = 0, switches = 0, preempts = 0, stalls = 0, simns = 0, maxev = 0, xorhash = 0, syncs = 0, maxheap = 0; int maxthr = 0;
	uint64_t nstream[SS_MAX] = {0};
	std::map<std::string, std::pair<uint64_t, uint64_t> > probes; // runs, hits
	std::map<std::string, std::pair<uint64_t, std::string> > knownhits;
	std::vector<uint64_t> ilvs; std::set<uint32_t> states;
	std::string vio, err, sample; int nerr = 0;
	for (uint64_t i = 0; i < count; ++i)
	{
		if (wall() - t0 > wl) break;
		uint64_t s = mix(base, start + i * stride);
		run(s, false, 0, false, false);
		++runs; events += res->events; switches += res->switches; preempts += res->preempts; stalls += res->stalls; simns += res->sim_ns; syncs += res->syncs;
		if (res->events > maxev) maxev = res->events;
		if (res->heap_bytes > maxheap) maxheap = res->heap_bytes;
		if (res->threads > maxthr) maxthr = res->threads;
		xorhash ^= mix(res->hash, start + i * stride);
		bool nontrivial = res->preempts || res->stalls;
		for (int k = 0; k < res->nprobe && !nontrivial; ++k) nontrivial = !strncmp(res->probes[k].name, "fault.", 6);
		if (nontrivial) ilvs.push_back(res->ilv);
		if (sample.empty() && nontrivial)
		{
			char b[400]; snprintf(b, sizeof b, "{\"seed_index\": %llu, \"seed\": %llu, \"trace_hash\": %llu, \"events\": %llu, \"thread_switches\": %llu, \"preemptions\": %llu, \"stalls\": %llu, \"simulated_s\": %.6f, \"decisions\": %llu, \"reached\": {",
				(unsigned long long) (start + i * stride), (unsigned long long) s, (unsigned long long) res->hash, (unsigned long long) res->events, (unsigned long long) res->switches, (unsigned long long) res->preempts, (unsigned long long) res->stalls, res->sim_ns / 1e9, (unsigned long long) res->ndec);
			sample = b;
			for (int k = 0; k < res->nprobe; ++k) {snprintf(b, sizeof b, "%s\"%s\": %llu", k ? ", " : "", res->probes[k].name, (unsigned long long) res->probes[k].n); sample += b;}
			sample += "}}";
		}
		for (int k = 0; k < SS_MAX; ++k) nstream[k] += res->nstream[k];
		for (int k = 0; k < res->nprobe; ++k) {auto& p = probes[res->probes[k].name]; ++p.first; p.second += res->probes[k].n;}
		for (uint32_t k = 0; k < res->nstates; ++k) states.insert(res->states[k]);
		if (res->status == RES_OK) {++ok; continue;}
		if (res->status == RES_INCONCLUSIVE) {++incon; continue;}
		if (res->status == RES_VIOLATION)
		{
			std::string cls = res->cls;
			const std::string* kn = 0;
			for (const std::string& e : known) // CLASS or CLASS|text that must occur in the message
			{
				size_t bar = e.find('|');
				if (e.substr(0, bar) == cls && (bar == std::string::npos || strstr(res->msg, e.c_str() + bar + 1))) {kn = &e; break;}
			}
			if (kn) {auto& k = knownhits[*kn]; if (!k.first++) k.second = res->msg; continue;}
			std::string msg = res->msg; uint64_t h = res->hash;
			fprintf(stderr, "violation %s at seed index %llu: %s; minimising\n", cls.c_str(), (unsigned long long) (start + i * stride), msg.c_str());
			Mini m = minimise(s, cls, h, minb);
			char b[512];
			if (!m.ok) {err += "violation " + cls + " (" + msg + ") failed the gate: " + m.why + "; "; if (++nerr > 5) break; continue;}
			write_replay(replay_out, s, m);
			snprintf(b, sizeof b, "\"seed_index\": %llu, \"seed\": %llu, \"decisions_before\": %zu, \"decisions_after\": %zu, \"minimiser_runs\": %d, ", (unsigned long long) (start + i * stride), (unsigned long long) s, m.from, m.dec.size(), m.tests);
			vio = std::string("{") + b + "\"class\": \"" + esc(m.cls.c_str()) + "\", \"message\": \"" + esc(m.msg.c_str()) + "\", \"replay\": \"" + esc(replay_out) + "\"}";
			break;
		}
		err += std::string(res->msg) + " (seed index " + std::to_string(start + i * stride) + ") " + res->trace + "; ";
		if (++nerr > 5) break;
	}
	double t1 = wall();
	FILE* f = !strcmp(out, "-") ? stdout : fopen(out, "w");
	if (!f) {perror(out); return 3;}
	fprintf(f, "{\"harness\": \"%s\", \"scenario\": \"%s\", \"runs\": %llu, \"ok\": %llu, \"inconclusive\": %llu, \"events\": %llu, \"syncs\": %llu, \"switches\": %llu, \"preempts\": %llu, \"stalls\": %llu, \"sim_s\": %.6f, \"wall_s\": %.3f, \"max_events\": %llu, \"max_heap\": %llu, \"max_threads\": %d, \"hash\": %llu,\n",
		sim_harness_name(), scenario.c_str(), (unsigned long long) runs, (unsigned long long) ok, (unsigned long long) incon, (unsigned long long) events, (unsigned long long) syncs, (unsigned long long) switches, (unsigned long long) preempts, (unsigned long long) stalls, simns / 1e9, t1 - t0,
		(unsigned long long) maxev, (unsigned long long) maxheap, maxthr, (unsigned long long) xorhash);
	fprintf(f, "\"probes\": {"); bool first = true;
	for (auto& p : probes) {fprintf(f, "%s\"%s\": [%llu, %llu]", first ? "" : ", ", esc(p.first.c_str()).c_str(), (unsigned long long) p.second.first, (unsigned long long) p.second.second); first = false;}
	fprintf(f, "},\n\"streams\": ["); for (int k = 0; k < SS_MAX; ++k) fprintf(f, "%s%llu", k ? ", " : "", (unsigned long long) nstream[k]);
	fprintf(f, "],\n\"known\": {"); first = true;
	for (auto& p : knownhits) {fprintf(f, "%s\"%s\": [%llu, \"%s\"]", first ? "" : ", ", esc(p.first.c_str()).c_str(), (unsigned long long) p.second.first, esc(p.second.second.c_str()).c_str()); first = false;}
	fprintf(f, "},\n\"states\": ["); first = true; for (uint32_t x : states) {fprintf(f, "%s%u", first ? "" : ",", x); first = false;}
	fprintf(f, "],\n\"ilv\": ["); first = true; for (uint64_t x : ilvs) {fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long) x); first = false;}
 	fprintf(f, "],\n\"sample\": %s", sample.empty() ? "null" : sample.c_str());
	fprintf(f, ",\n\"errors\": %d, \"error\": \"%s\",\n\"violation\": %s}\n", nerr, esc(err.c_str()).c_str(), vio.empty() ? "null" : vio.c_str());
	if (f != stdout) fclose(f);
	return !vio.empty() ? 1 : !err.empty() ? 3 : 0;
}
