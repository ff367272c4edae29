// Deterministic scheduler, clock, decision streams, simulated heap and pthread interposition.
// Compiled WITHOUT instrumentation. Only one simulated thread runs at any moment (the token holder).
#include "sim_int.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <limits.h>
#include <malloc.h>
#include <new>
#include <vector>
#include <algorithm>
#include <map>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace simi {

Result* res;
RunCfg cfg;
bool active;
int in_sim;
uint64_t now_ns;
int64_t wall_off_ns;
static const uint64_t MONO_BASE = 1000000000000ull;      // 1000 s of uptime
static const uint64_t WALL_BASE = 1700000000000000000ull;
static uint64_t tick_ns = 300;

static inline uint64_t splitmix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) {return splitmix(a ^ splitmix(b + 0x1234567));}

// ---------------------------------------------------------------- heap
static char* const HEAP = (char*) 0x100000000000ull;
static const size_t HEAP_SIZE = 1ull << 30;
static uint8_t* const SHADOW = (uint8_t*) 0x140000000000ull;
static char* const PHEAP = (char*) 0x160000000000ull;     // the runtime's own allocations
static const size_t PHEAP_SIZE = 1ull << 30;
static char* const STACKS = (char*) 0x180000000000ull;
static const size_t STACK_SIZE = 512 * 1024;
static bool heap_ready;
static size_t heap_pos, pheap_pos;
static volatile int pheap_lock;
static const size_t REUSE_AFTER = 96u << 20;

struct Hdr {uint64_t size; uint32_t magic; uint32_t gen;};  // 16 bytes before the block
static const uint32_t MAGIC = 0x5afe5afe, FREED = 0xdeadf4ee;
static const int NCLS = 64;
struct FreeQ {char *head, *tail; size_t n;};
static FreeQ freeq[NCLS];
static char* pfree[NCLS];

static inline size_t class_size(int c)
{
	if (c <= 32) return (size_t) c * 16;
	size_t s = (size_t) 512 << ((c - 33) / 2 + 1);
	if ((c - 33) % 2 == 0) s = s * 3 / 4;
	return s;
}
static inline int size_class(size_t n) // n multiple of 16
{
	if (n <= 512) return (int) (n / 16);
	int c = 33;
	while (c < NCLS - 1 && class_size(c) < n) ++c;
	return c;
}
static void heap_init()
{
	if (heap_ready) return;
	heap_ready = true;
	auto map = [](void* at, size_t n) {
		void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != at) {static const char m[] = "sim: cannot map heap\n"; (void) !write(2, m, sizeof m - 1); _exit(97);}
	};
	map(HEAP, HEAP_SIZE);
	map(SHADOW, HEAP_SIZE / 8);
	map(PHEAP, PHEAP_SIZE);
}
static inline bool in_heap(const void* p) {return (size_t) ((const char*) p - HEAP) < HEAP_SIZE;}
static inline bool in_pheap(const void* p) {return (size_t) ((const char*) p - PHEAP) < PHEAP_SIZE;}

static void set_shadow(char* p, size_t n, bool live, uint8_t dead = 0xff)
{
	size_t o = (p - HEAP) / 8, full = n / 8, k = 0;
	if (live)
	{
		for (; k < full; ++k) SHADOW[o + k] = 0;
		if (n & 7) SHADOW[o + full] = (uint8_t) (n & 7);
	}
	else
		for (; k < (n + 7) / 8; ++k) SHADOW[o + k] = dead;
}
static void* palloc(size_t n)
{
	n = (n + 15) & ~(size_t) 15; if (!n) n = 16;
	int c = size_class(n); size_t cs = class_size(c);
	while (__atomic_exchange_n(&pheap_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
	char* r;
	if (pfree[c]) {r = pfree[c]; pfree[c] = *(char**) r;}
	else
	{
		if (pheap_pos + cs + 16 > PHEAP_SIZE) {static const char m[] = "sim: private heap exhausted\n"; (void) !write(2, m, sizeof m - 1); _exit(97);}
		r = PHEAP + pheap_pos + 16; pheap_pos += cs + 16;
	}
	((Hdr*) (r - 16))->size = n; ((Hdr*) (r - 16))->gen = c;
	__atomic_store_n(&pheap_lock, 0, __ATOMIC_RELEASE);
	return r;
}
static void pfree_(void* p)
{
	while (__atomic_exchange_n(&pheap_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
	int c = ((Hdr*) ((char*) p - 16))->gen;
	*(char**) p = pfree[c]; pfree[c] = (char*) p;
	__atomic_store_n(&pheap_lock, 0, __ATOMIC_RELEASE);
}
static void* halloc(size_t n, size_t align = 16)
{
	if (n > 30u << 20) {errno = ENOMEM; return 0;}
	size_t cap = (n + 15) & ~(size_t) 15; if (!cap) cap = 16;
	int c = size_class(cap); cap = class_size(c);
	char* r = 0;
	if (align <= 16 && heap_pos > REUSE_AFTER && freeq[c].head && freeq[c].n > 16)
	{
		r = freeq[c].head; freeq[c].head = *(char**) r; --freeq[c].n;
		if (!freeq[c].head) freeq[c].tail = 0;
	}
	else
	{
		size_t pos = heap_pos + 16;
		if (align > 16) pos = (pos + align - 1) & ~(align - 1);
		if (pos + cap + 16 > HEAP_SIZE)
		{
			if (active) {++in_sim; sim_error("simulated heap exhausted");}
			errno = ENOMEM; return 0;
		}
		r = HEAP + pos;
		heap_pos = pos + cap;
		set_shadow(r - 16, 16, false);
	}
	Hdr* h = (Hdr*) (r - 16);
	h->size = n; h->magic = MAGIC; h->gen = c;
	set_shadow(r, cap, false);
	set_shadow(r, n, true);
	if (n >= 8 && cap <= 4096) {for (size_t i = 0; i + 8 <= n; i += 8) *(uint64_t*) (r + i) = 0xbebebebebebebebeull;} // deterministic garbage
	return r;
}
static const char* addr_kind(const void* p)
{
	uint8_t s = SHADOW[((const char*) p - HEAP) / 8];
	return s == 0xfd ? "use after free" : (s == 0xff || s) ? "heap overflow" : "heap";
}
static void hfree(void* p)
{
	Hdr* h = (Hdr*) ((char*) p - 16);
	if (h->magic != MAGIC)
	{
		if (active && !in_sim) {++in_sim; violation("memory", "%s of %p", h->magic == FREED ? "double free" : "invalid free", p);}
		return;
	}
	h->magic = FREED;
	size_t cap = class_size(h->gen);
	set_shadow((char*) p, cap, false, 0xfd);
	*(char**) p = 0;
	FreeQ& q = freeq[h->gen];
	if (q.tail) *(char**) q.tail = (char*) p; else q.head = (char*) p;
	q.tail = (char*) p; ++q.n;
}
static void __attribute__((noinline, noreturn)) bad_access(const void* p, size_t n, bool write)
{
	++in_sim;
	const char* q = (const char*) p;
	for (size_t i = 0; i < n; ++i) {uint8_t s = SHADOW[(q + i - HEAP) / 8]; if (s && (((uintptr_t) (q + i) & 7) >= s || s >= 0x80)) {q += i; break;}}
	violation("memory", "%s: %s of %zu bytes at %p", addr_kind(q), write ? "write" : "read", n, p);
}
static inline bool bad_small(const void* p, size_t n) // n<=16
{
	size_t o = ((const char*) p - HEAP);
	uint8_t s = SHADOW[(o + n - 1) >> 3];
	if (LIKELY(!s)) {s = SHADOW[o >> 3]; if (LIKELY(!s)) return false; return s >= 0x80 || (o & 7) >= s;}
	return s >= 0x80 || ((o + n - 1) & 7) >= s;
}
void check_range(const void* p, size_t n, bool write)
{
	if (!n || !in_heap(p) || !active) return;
	const char* b = (const char*) p; const char* e = b + n - 1;
	if (!in_heap(e)) bad_access(p, n, write);
	if (bad_small(b, 1) || bad_small(e, 1)) bad_access(p, n, write);
	for (size_t k = ((b - HEAP) >> 3) + 1, z = (e - HEAP) >> 3; k < z; ++k)
		if (UNLIKELY(SHADOW[k])) bad_access(p, n, write);
}

// ---------------------------------------------------------------- threads
enum TState {T_FREE = 0, T_RUN, T_BLOCK, T_DONE};
static const int CSMAX = 512;
struct Thread {
	int id; TState st;
	pthread_t real;
	volatile int token;
	const void* obj; const char* what;
	uint64_t wgen; int wres;
	uint64_t stall_until; // ns; 0: not stalled
	uint64_t events;
	void* (*fn)(void*); void* arg; void* ret;
	bool detached, joined;
	uint64_t wait_seq;
	uint64_t prio;
	void* cs[CSMAX]; int csd;
	uint64_t tctr[SS_MAX];
	uint64_t preempt_i; // next recorded preemption (replay)
	int last_errno;
	int insim, nopre; // nesting, saved while the thread is switched out
};
static Thread* T; // [MAXT], private heap
static int nT, cur;
static uint64_t seqno;
static int nopre;
static bool noise_off;

static int64_t g_left = INT64_MAX, g_init = INT64_MAX; // events until the next scheduled preemption
static void** g_cs; static int g_csd; // call stack of the current thread

static uint64_t total_events;
static inline uint64_t cur_events() {return T[cur].events + (uint64_t) (g_init - g_left);}

// decision tables
static uint64_t gctr[SS_MAX];
struct PKey {int32_t s, a; int64_t b; bool operator==(const PKey& o) const {return s == o.s && a == o.a && b == o.b;}};
struct PHash {size_t operator()(const PKey& k) const {return mix(mix(k.s, k.a), k.b);}};
static std::unordered_map<PKey, int64_t, PHash>* rep;
static std::vector<std::pair<uint64_t, int64_t> >* rep_pre[MAXT];

static void record(int s, int a, int64_t b, int64_t v)
{
	if (s >= 0) ++res->nstream[s];
	if (!cfg.record) return;
	if (res->ndec >= cfg.rec_cap) sim_error("too many decisions");
	Dec& d = cfg.rec[res->ndec++];
	d.stream = s; d.a = a; d.b = b; d.val = v;
}
void hash_ev(uint64_t a, uint64_t b) {res->hash = (res->hash ^ (a * 0x9e3779b97f4a7c15ull + b)) * 0xff51afd7ed558ccdull; res->hash ^= res->hash >> 29;}

bool replaying() {return cfg.replay;}
static int64_t decide(int s, int a, uint64_t b, unsigned n, bool isChance, unsigned ppm)
{
	int64_t v;
	if (cfg.replay)
	{
		auto it = rep->find(PKey{s, a, (int64_t) b});
		v = it == rep->end() ? 0 : isChance ? (it->second && ppm ? 1 : 0) : it->second % n;
	}
	else
	{
		uint64_t h = mix(mix(cfg.seed, (uint64_t) s * 1000 + a), b);
		v = isChance ? ((h >> 20) % 1000000 < ppm ? 1 : 0) : (int64_t) ((h >> 20) % n);
	}
	if (v) {record(s, a, b, v); hash_ev(0x1000 + s, v);}
	return v;
}
unsigned choose(int s, unsigned n) {uint64_t c = gctr[s]++; return n <= 1 ? 0 : (unsigned) decide(s, 0, c, n, false, 0);}
int chance(int s, unsigned ppm) {uint64_t c = gctr[s]++; return ppm ? (int) decide(s, 0, c, 2, true, ppm) : 0;}

// search strategy of this run
struct Strategy {double mean; unsigned sync_ppm; bool rnd_forced; unsigned stall_ppm; bool stall_long;};
static Strategy strat;
static uint64_t prng_ctr;
static uint64_t prnd() {return mix(cfg.seed ^ 0xabcdef, prng_ctr++);}
static int64_t sample_gap()
{
	if (strat.mean <= 0 || noise_off) return INT64_MAX / 2;
	double u = ((prnd() >> 11) + 1) * (1.0 / 9007199254740994.0);
	double g = -__builtin_log(u) * strat.mean;
	return g < 1 ? 1 : g > 1e12 ? (int64_t) 1e12 : (int64_t) g;
}

static uint64_t last_idle_events;

static void arm() // set g_left for the current thread
{
	Thread& t = T[cur];
	int64_t left;
	if (cfg.replay)
	{
		auto* v = rep_pre[cur];
		left = INT64_MAX / 2;
		if (v)
		{
			while (t.preempt_i < v->size() && (*v)[t.preempt_i].first <= t.events) ++t.preempt_i;
			if (t.preempt_i < v->size()) left = (int64_t) ((*v)[t.preempt_i].first - t.events);
		}
	}
	else left = sample_gap();
	int64_t cap = 1000000; // periodic housekeeping (limits, fairness)
	// housekeeping happens at multiples of cap of per-thread events so that it is a function of the schedule only
	int64_t hk = cap - (int64_t) (t.events % cap);
	if (hk < left) left = hk;
	g_left = g_init = left;
}
static void flush_events()
{
	uint64_t d = (uint64_t) (g_init - g_left);
	T[cur].events += d; total_events += d;
	g_init = g_left;
}

// events
struct Ev {uint64_t at, seq; EvFn fn; void* p; uint64_t a;};
struct EvCmp {bool operator()(const Ev& x, const Ev& y) const {return x.at != y.at ? x.at > y.at : x.seq > y.seq;}};
static std::vector<Ev>* evq;
static uint64_t evseq;
void add_event(uint64_t at, EvFn fn, void* p, uint64_t a)
{
	if (at < now_ns) at = now_ns;
	evq->push_back(Ev{at, ++evseq, fn, p, a});
	std::push_heap(evq->begin(), evq->end(), EvCmp());
}
static bool run_due()
{
	bool any = false;
	while (!evq->empty() && evq->front().at <= now_ns)
	{
		std::pop_heap(evq->begin(), evq->end(), EvCmp());
		Ev e = evq->back(); evq->pop_back();
		e.fn(e.p, e.a);
		any = true;
	}
	return any;
}
static void tick(uint64_t n)
{
	now_ns += n;
	if (!evq->empty() && evq->front().at <= now_ns) run_due();
}

static void fut_wait(volatile int* w) {while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);}
static void fut_wake(volatile int* w) {__atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);}

int cur_tid() {return cur;}

static void dump_threads(char* out, size_t n)
{
	size_t o = 0;
	for (int i = 0; i < nT && o + 120 < n; ++i)
		if (T[i].st != T_DONE)
			o += snprintf(out + o, n - o, " T%d:%s%s%s", i, T[i].st == T_RUN ? "runnable" : "blocked on ", T[i].st == T_BLOCK ? T[i].what : "", i == cur ? "*" : "");
}
static void fill_trace()
{
	size_t o = 0;
	Result& r = *res;
	r.trace[0] = 0;
	int d = g_csd; void** cs = g_cs;
	if (!cs) return;
	if (d > CSMAX) d = CSMAX;
	for (int i = d - 1; i >= 0 && o + 24 < sizeof r.trace; --i) o += snprintf(r.trace + o, sizeof r.trace - o, "%p ", cs[i]);
}
static void finish(int status) __attribute__((noreturn));
static void finish(int status)
{
	flush_events();
	Result& r = *res;
	r.events = total_events; r.sim_ns = now_ns - MONO_BASE; r.threads = nT; r.heap_bytes = heap_pos;
	hash_ev(0x77, status); hash_ev(total_events, now_ns);
	r.status = status;
	_exit(0);
}
void violation(const char* cls, const char* fmt, ...)
{
	active = false;
	va_list ap; va_start(ap, fmt);
	snprintf(res->cls, sizeof res->cls, "%s", cls);
	int n = vsnprintf(res->msg, sizeof res->msg, fmt, ap);
	va_end(ap);
	if (n < 0 || n > 1500) n = 1500;
	snprintf(res->msg + n, sizeof res->msg - n, " [T%d t=%.6fs]", cur, (now_ns - MONO_BASE) / 1e9);
	fill_trace();
	if (cfg.trace) fprintf(stderr, "VIOLATION %s: %s\n", res->cls, res->msg);
	finish(RES_VIOLATION);
}
void sim_error(const char* fmt, ...)
{
	active = false;
	va_list ap; va_start(ap, fmt);
	vsnprintf(res->msg, sizeof res->msg, fmt, ap);
	va_end(ap);
	snprintf(res->cls, sizeof res->cls, "error");
	fill_trace();
	finish(RES_ERROR);
}
void tracef(const char* fmt, ...)
{
	if (!cfg.trace) return;
	char b[1024]; int o = snprintf(b, sizeof b, "%10.6f #%llu T%d ", (now_ns - MONO_BASE) / 1e9, (unsigned long long) seqno, cur);
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(b + o, sizeof b - o - 2, fmt, ap); va_end(ap);
	o += n; if (o > (int) sizeof b - 2) o = sizeof b - 2;
	b[o++] = '\n';
	(void) !syscall(SYS_write, 2, b, o);
}
void probe(const char* name, uint64_t n)
{
	Result& r = *res;
	for (int i = 0; i < r.nprobe; ++i) if (!strcmp(r.probes[i].name, name)) {r.probes[i].n += n; return;}
	if (r.nprobe < NPROBE) {snprintf(r.probes[r.nprobe].name, sizeof r.probes[0].name, "%s", name); r.probes[r.nprobe++].n = n;}
}

static void check_limits()
{
	if (total_events > cfg.max_events)
	{
		char b[1200] = ""; dump_threads(b, sizeof b);
		violation("livelock", "no completion after %llu events;%s", (unsigned long long) total_events, b);
	}
	if (now_ns - MONO_BASE > cfg.max_sim_ns)
	{
		char b[1200] = ""; dump_threads(b, sizeof b);
		violation("hang", "no completion after %.0f simulated seconds;%s", (now_ns - MONO_BASE) / 1e9, b);
	}
}
// candidates in cyclic order starting after the current thread
static int candidates(int* out, bool include_cur)
{
	int n = 0;
	for (int k = 1; k <= nT; ++k)
	{
		int i = (cur + k) % nT;
		if (i == cur && !include_cur) continue;
		if (T[i].st == T_RUN && !(T[i].stall_until > now_ns)) out[n++] = i;
	}
	return n;
}
static void switch_to(int n, bool wait)
{
	if (n == cur) {arm(); return;}
	++res->switches;
	Thread& me = T[cur];
	me.csd = g_csd; me.last_errno = errno; me.insim = in_sim; me.nopre = nopre;
	cur = n;
	g_cs = T[n].cs; g_csd = T[n].csd;
	hash_ev(0x55, n);
	res->ilv = (res->ilv ^ (n + 1)) * 0x100000001b3ull; 
	arm();
	fut_wake(&T[n].token);
	if (!wait) return;
	fut_wait(&me.token);
	me.token = 0;
	in_sim = me.insim; nopre = me.nopre;
	errno = me.last_errno;
}
// the current thread cannot continue (blocked or done): choose who runs
static int pick_forced()
{
	int c[MAXT];
	for (;;)
	{
		if (!evq->empty() && evq->front().at <= now_ns) run_due();
		int n = candidates(c, true);
		if (n) return c[n == 1 ? 0 : choose(SS_FORCED, cfg.replay || strat.rnd_forced ? n : 1)];
		uint64_t at = UINT64_MAX;
		if (!evq->empty()) at = evq->front().at;
		for (int i = 0; i < nT; ++i) if (T[i].st == T_RUN && T[i].stall_until > now_ns && T[i].stall_until < at) at = T[i].stall_until;
		if (at == UINT64_MAX)
		{
			char b[1500] = ""; dump_threads(b, sizeof b);
			violation("deadlock", "no thread can ever run again:%s", b);
		}
		if (at > now_ns) now_ns = at;
		last_idle_events = total_events;
		check_limits();
	}
}
static void to_timeout(void* p, uint64_t gen)
{
	Thread* t = (Thread*) p;
	if (t->st == T_BLOCK && t->wgen == gen) {t->st = T_RUN; t->wres = W_TIMEOUT; t->obj = 0;}
}
int block(const void* obj, uint64_t deadline, const char* what)
{
	flush_events();
	Thread& t = T[cur];
	t.obj = obj; t.what = what; t.st = T_BLOCK; ++t.wgen; t.wres = W_NONE; t.wait_seq = ++seqno;
	if (deadline) add_event(deadline, to_timeout, &t, t.wgen);
	check_limits();
	switch_to(pick_forced(), true);
	return t.wres;
}
void wake_all(const void* obj)
{
	for (int i = 0; i < nT; ++i)
		if (T[i].st == T_BLOCK && T[i].obj == obj) {T[i].st = T_RUN; T[i].wres = W_WOKEN; T[i].obj = 0;}
}
static bool wake_one(const void* obj)
{
	int c[MAXT], n = 0;
	for (int i = 0; i < nT; ++i) if (T[i].st == T_BLOCK && T[i].obj == obj) c[n++] = i;
	if (!n) return false;
	std::sort(c, c + n, [](int a, int b) {return T[a].wait_seq < T[b].wait_seq;});
	Thread& t = T[c[n == 1 ? 0 : choose(SS_COND, n)]];
	t.st = T_RUN; t.wres = W_WOKEN; t.obj = 0;
	return true;
}
static uint64_t stall_code_ns(int code) // 0: none
{
	static const uint64_t d[] = {0, 20000, 200000, 2000000, 12000000, 60000000, 300000000, 1200000000};
	return d[code & 7];
}
static uint64_t total_stall;
static void do_preempt(int64_t val) // val = target index | stall code << 8
{
	int c[MAXT];
	Thread& me = T[cur];
	int code = (int) (val >> 8) & 7;
	if (code)
	{
		me.stall_until = now_ns + stall_code_ns(code);
		total_stall += stall_code_ns(code);
		++res->stalls;
	}
	int n = candidates(c, false);
	if (!n)
	{
		if (code) {me.st = T_RUN; switch_to(pick_forced(), true);}
		else arm();
		return;
	}
	++res->preempts;
	switch_to(c[(val & 0xff) % n], true);
}
// g_left hit zero, or a random switch at a synchronisation point
static void __attribute__((noinline)) preempt_here(bool sync_random)
{
	++in_sim;
	int e = errno;
	flush_events();
	Thread& me = T[cur];
	if (me.events % 1000000 == 0)
	{
		check_limits();
		if (total_events - last_idle_events > 3000000) tick(1000000); // a busy system consumes time
		// forced fairness: a spinning thread must not starve others
		int c[MAXT];
		int n = candidates(c, false);
		if (n && total_events - last_idle_events > 2000000) {switch_to(c[0], true); --in_sim; errno = e; return;}
	}
	int64_t val = -1;
	if (cfg.replay)
	{
		auto* v = rep_pre[cur];
		if (v && me.preempt_i < v->size() && (*v)[me.preempt_i].first == me.events) val = (*v)[me.preempt_i++].second;
		if (val >= 0) record(-1, cur, me.events, val); // keep in the recording even in replay
	}
	else if ((sync_random || strat.mean > 0) && !noise_off)
	{
		// hk wake-ups are not preemptions: only when the sampled gap really ended or sync_random
		int c[MAXT]; int n = candidates(c, false);
		uint64_t r = prnd();
		int code = 0;
		if ((r >> 8) % 1000000 < strat.stall_ppm) code = 1 + (int) ((r >> 40) % (strat.stall_long ? 7 : 4));
		if (n || code)
		{
			val = (n ? (int64_t) (r % n) : 0) | (int64_t) code << 8;
			record(-1, cur, me.events, val);
		}
	}
	if (val >= 0 && nopre == 0) do_preempt(val); else arm();
	--in_sim;
	errno = e;
}
static inline void event1()
{
	if (UNLIKELY(--g_left == 0)) {if (active && !in_sim) preempt_here(false); else {g_left = 1000000; g_init = g_left;}}
}
void sync_point(const char* what, uint64_t arg) // called with in_sim>0
{
	++seqno; ++res->syncs;
	hash_ev(arg + 0x9000, cur);
	tick(tick_ns);
	(void) what;
	if (nopre) return;
	if (UNLIKELY(--g_left <= 0)) {preempt_here(false); return;}
	if (!cfg.replay && !noise_off && strat.sync_ppm)
	{
		if (prnd() % 1000000 < strat.sync_ppm) preempt_here(true);
	}
}

// ---------------------------------------------------------------- run
static pthread_key_t endkey;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void thread_end(void* p)
{
	Thread* t = (Thread*) ((uintptr_t) p & ~(uintptr_t) 7);
	unsigned k = (unsigned) ((uintptr_t) p & 7);
	if (k < 3) {pthread_setspecific(endkey, (void*) ((uintptr_t) t | (k + 1))); return;} // let all other destructors run first
	++in_sim;
	flush_events();
	t->st = T_DONE;
	hash_ev(0x66, t->id);
	tracef("thread %d ends", t->id);
	wake_all(t);
	switch_to(pick_forced(), false);
	// from here on this real thread does nothing visible
}
static char altstacks[8192];
static void* tramp(void* p)
{
	Thread* t = (Thread*) p;
	fut_wait(&t->token);
	t->token = 0;
	in_sim = 1; nopre = 0;
	pthread_setspecific(endkey, (void*) ((uintptr_t) t | 1));
	in_sim = 0;
	t->ret = t->fn(t->arg);
	return t->ret;
}
static void* stack_for(int i)
{
	char* at = STACKS + (size_t) i * (1 << 20);
	void* p = mmap(at, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != at) sim_error("cannot map stack %d", i);
	return p;
}
static int new_thread(void* (*fn)(void*), void* arg)
{
	if (nT >= MAXT) sim_error("too many threads");
	int i = nT;
	Thread& t = T[i];
	memset((void*) &t, 0, sizeof t);
	t.id = i; t.fn = fn; t.arg = arg; t.st = T_RUN;
	pthread_attr_t a; pthread_attr_init(&a);
	pthread_attr_setstack(&a, stack_for(i), STACK_SIZE);
	pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
	sigset_t all, old; sigemptyset(&all); 
	int r = real_create(&t.real, &a, tramp, &t);
	(void) old;
	if (r) sim_error("pthread_create failed: %d", r);
	pthread_attr_destroy(&a);
	++nT;
	return i;
}
static void* run_main(void*)
{
	sim_harness_run();
	++in_sim;
	active = false;
	finish(RES_OK);
}
static void crash_handler(int sig, siginfo_t* si, void*)
{
	if (!res || res->status) _exit(1);
	in_sim = 1;
	bool was = active;
	active = false;
	if (!was) {snprintf(res->cls, sizeof res->cls, "error"); snprintf(res->msg, sizeof res->msg, "signal %d outside the run or in the runtime, addr %p", sig, si->si_addr); fill_trace(); res->status = RES_ERROR; _exit(0);}
	if (sig == SIGALRM || sig == SIGTERM)
	{
		char b[1200] = ""; dump_threads(b, sizeof b);
		snprintf(res->cls, sizeof res->cls, "error"); snprintf(res->msg, sizeof res->msg, "wall-clock limit of one run;%s events %llu sim %.3f", b, (unsigned long long) total_events + (g_init - g_left), (now_ns - MONO_BASE) / 1e9);
		fill_trace(); res->status = RES_ERROR; _exit(0);
	}
	violation("crash", "signal %d (%s) at address %p", sig, strsignal(sig), sig == SIGSEGV || sig == SIGBUS ? si->si_addr : 0);
}
void core_init()
{
	heap_init();
	real_create = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) dlsym(RTLD_NEXT, "pthread_create");
	pthread_key_create(&endkey, thread_end);
}
void start_run(const RunCfg& c)
{
	in_sim = 1;
	cfg = c;
	static char alt[65536] __attribute__((aligned(16)));
	(void) altstacks;
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO;
	int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTERM, SIGPIPE};
	for (int s : sigs) sigaction(s, &sa, 0);
	now_ns = MONO_BASE; wall_off_ns = 0;
	T = (Thread*) calloc(MAXT, sizeof(Thread));
	evq = new std::vector<Ev>(); evq->reserve(1024);
	rep = new std::unordered_map<PKey, int64_t, PHash>();
	if (cfg.replay)
		for (size_t i = 0; i < cfg.ndec; ++i)
		{
			const Dec& d = cfg.dec[i];
			if (d.stream >= 0) (*rep)[PKey{d.stream, d.a, d.b}] = d.val;
			else
			{
				if (d.a < 0 || d.a >= MAXT) continue;
				if (!rep_pre[d.a]) rep_pre[d.a] = new std::vector<std::pair<uint64_t, int64_t> >();
				rep_pre[d.a]->push_back({(uint64_t) d.b, d.val});
			}
		}
	for (int i = 0; i < MAXT; ++i) if (rep_pre[i]) std::sort(rep_pre[i]->begin(), rep_pre[i]->end());
	uint64_t r = mix(cfg.seed, 0x57a7);
	static const double means[] = {0, 0, 15, 60, 200, 700, 3000, 20000};
	strat.mean = means[r % 8];
	static const unsigned sp[] = {0, 5000, 30000, 100000, 300000};
	strat.sync_ppm = sp[(r >> 8) % 5];
	strat.rnd_forced = (r >> 16) % 4 != 0;
	static const unsigned st[] = {0, 0, 2000, 20000, 150000};
	strat.stall_ppm = st[(r >> 24) % 5];
	strat.stall_long = (r >> 32) % 4 == 0;
	if (strat.mean > 0 && strat.mean < 100 && strat.stall_ppm > 20000) strat.stall_ppm = 20000;
	res->hash = 1; res->ilv = 0xcbf29ce484222325ull;
	net_init();
	nT = 0;
	int id = new_thread(run_main, 0);
	cur = id;
	g_cs = T[0].cs; g_csd = 0;
	arm();
	active = true;
	fut_wake(&T[0].token);
	for (;;) pause();
}
static int tid_of(pthread_t p)
{
	for (int i = 0; i < nT; ++i) if (pthread_equal(T[i].real, p)) return i;
	return -1;
}
static uint64_t ts_ns(const struct timespec* ts) {return ts->tv_sec < 0 ? 0 : (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec;}
static uint64_t wall_ns() {return WALL_BASE + (now_ns - MONO_BASE) + wall_off_ns;}
static uint64_t deadline_from(const struct timespec* ts, int clk)
{
	uint64_t t = ts_ns(ts);
	if (clk == CLOCK_REALTIME) {int64_t d = (int64_t) (t - wall_ns()); t = d <= 0 ? now_ns : now_ns + d;}
	if (t == 0) t = 1;
	if (t < now_ns) t = now_ns;
	return t;
}
// mutex: state kept in the glibc structure (owner = tid+1, count, kind)
static int mutex_lock_(pthread_mutex_t* m, uint64_t deadline, bool tryit)
{
	check_range(m, sizeof *m, true);
	int me = cur + 1;
	int kind = m->__data.__kind & 3;
	if (m->__data.__owner == me)
	{
		if (kind == PTHREAD_MUTEX_RECURSIVE) {++m->__data.__count; return 0;}
		if (tryit) return EBUSY;
		if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		if (!deadline) violation("deadlock", "thread locks a mutex it already holds");
	}
	while (m->__data.__owner)
	{
		if (tryit) return EBUSY;
		if (W_TIMEOUT == block(m, deadline, "mutex")) return ETIMEDOUT;
		check_range(m, sizeof *m, true);
	}
	m->__data.__owner = me; m->__data.__count = 1;
	return 0;
}
static int mutex_unlock_(pthread_mutex_t* m)
{
	check_range(m, sizeof *m, true);
	if (m->__data.__owner != cur + 1)
	{
		if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK || (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) return EPERM;
		violation("mutex", "unlock of a mutex not held by the thread (owner T%d)", m->__data.__owner - 1);
	}
	if (--m->__data.__count == 0 || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE)
	{
		m->__data.__count = 0; m->__data.__owner = 0;
		wake_all(m);
	}
	return 0;
}
static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
	check_range(c, sizeof *c, true);
	sync_point("condwait", 0x11);
	if (chance(SS_SPURIOUS, noise_off ? 0 : 3000)) {probe("fault.spurious_wakeup"); mutex_unlock_(m); sync_point("spurious", 0x12); mutex_lock_(m, 0, false); return 0;}
	uint32_t cnt = m->__data.__count;
	m->__data.__count = 0; m->__data.__owner = 0; // full release
	wake_all(m);
	int r = block(c, deadline, "condition");
	while (m->__data.__owner) block(m, 0, "mutex (after condition)");
	m->__data.__owner = cur + 1; m->__data.__count = cnt;
	return r == W_TIMEOUT ? ETIMEDOUT : 0;
}
} // namespace

using namespace simi;

// ---------------------------------------------------------------- public API
EXPORT unsigned sim_choose(int s, unsigned n) {InSim i; return choose(s, n);}
EXPORT int sim_chance(int s, unsigned ppm) {InSim i; return chance(s, ppm);}
EXPORT unsigned sim_chooseT(int s, unsigned n) {InSim i; uint64_t c = T[cur].tctr[s]++; return n <= 1 ? 0 : (unsigned) decide(s, cur + 1, c, n, false, 0);}
EXPORT int sim_chanceT(int s, unsigned ppm) {InSim i; uint64_t c = T[cur].tctr[s]++; return ppm ? (int) decide(s, cur + 1, c, 2, true, ppm) : 0;}
EXPORT uint64_t sim_now_ns(void) {return now_ns - MONO_BASE;}
EXPORT uint64_t sim_stall_ns(void) {return total_stall;}
EXPORT uint64_t sim_seq(void) {return ++seqno;}
EXPORT int sim_tid(void) {return cur;}
EXPORT int sim_thread_live(void) {int n = 0; for (int i = 0; i < nT; ++i) if (T[i].st != T_DONE) ++n; return n;}
EXPORT void sim_fail(const char* cls, const char* fmt, ...)
{
	++in_sim;
	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	violation(cls, "%s", b);
}
EXPORT void sim_log(const char* fmt, ...)
{
	if (!cfg.trace) return;
	InSim i;
	char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	tracef("%s", b);
}
EXPORT int sim_tracing(void) {return cfg.trace;}
// run instrumented harness code from inside the runtime: no events are counted, no preemption happens
namespace simi {
void callout_begin(int64_t* save) {save[0] = g_left; save[1] = g_init; g_left = g_init = INT64_MAX;}
void callout_end(const int64_t* save) {g_left = save[0]; g_init = save[1];}
}
EXPORT void sim_probe(const char* n) {InSim i; probe(n);}
EXPORT void sim_probe_n(const char* n, unsigned k) {InSim i; probe(n, k);}
EXPORT void sim_state(uint64_t h)
{
	InSim i;
	uint32_t x = (uint32_t) (mix(h, 99) >> 32);
	Result& r = *res;
	for (uint32_t k = 0; k < 8; ++k) {if (r.nstates > k && r.states[r.nstates - 1 - k] == x) return;}
	if (r.nstates < 4096) r.states[r.nstates++] = x;
}
EXPORT void sim_stop_schedule_noise(void) {InSim i; noise_off = true; for (int k = 0; k < nT; ++k) T[k].stall_until = 0; flush_events(); if (!cfg.replay) arm();}
EXPORT void sim_nopreempt(int d) {nopre += d;}
EXPORT const char* sim_scenario(void) {return cfg.scenario ? cfg.scenario : "";}
EXPORT int sim_replaying(void) {return cfg.replay;}
EXPORT void sim_clock_jump_ms(int64_t ms) {wall_off_ns += ms * 1000000; if (active) {InSim i; hash_ev(0x88, ms);}}

// ---------------------------------------------------------------- instrumentation entry points
static inline void acc(const void* p, size_t n, bool w)
{
	if (in_heap(p) && UNLIKELY(bad_small(p, n)) && active && !in_sim) bad_access(p, n, w);
	event1();
}
#define RW(N) \
	EXPORT void __tsan_read##N(void* p) {acc(p, N, false);} \
	EXPORT void __tsan_write##N(void* p) {acc(p, N, true);} \
	EXPORT void __tsan_unaligned_read##N(void* p) {acc(p, N, false);} \
	EXPORT void __tsan_unaligned_write##N(void* p) {acc(p, N, true);} \
	EXPORT void __tsan_volatile_read##N(void* p) {acc(p, N, false);} \
	EXPORT void __tsan_volatile_write##N(void* p) {acc(p, N, true);} \
	EXPORT void __tsan_unaligned_volatile_read##N(void* p) {acc(p, N, false);} \
	EXPORT void __tsan_unaligned_volatile_write##N(void* p) {acc(p, N, true);} \
	EXPORT void __tsan_read_write##N(void* p) {acc(p, N, true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, long n) {if (n > 0) check_range(p, n, false); event1();}
EXPORT void __tsan_write_range(void* p, long n) {if (n > 0) check_range(p, n, true); event1();}
EXPORT void __tsan_vptr_update(void** p, void*) {acc(p, 8, true);}
EXPORT void __tsan_vptr_read(void** p) {acc(p, 8, false);}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* pc) {if (g_cs) {if (LIKELY(g_csd < CSMAX)) g_cs[g_csd] = pc; ++g_csd;}}
EXPORT void __tsan_func_exit(void) {if (g_cs && g_csd > 0) --g_csd;}
EXPORT void __tsan_atomic_thread_fence(int) {event1(); __atomic_thread_fence(__ATOMIC_SEQ_CST);}
EXPORT void __tsan_atomic_signal_fence(int) {}
#define ATO(N, T) \
	EXPORT T __tsan_atomic##N##_load(const volatile T* p, int) {acc((const void*) p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST);} \
	EXPORT void __tsan_atomic##N##_store(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_exchange(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) {acc((const void*) p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);} \
	EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {acc((const void*) p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
	EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {acc((const void*) p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
	EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) {acc((const void*) p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e;}
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)

// ---------------------------------------------------------------- allocation
EXPORT void* malloc(size_t n) {if (UNLIKELY(!heap_ready)) heap_init(); return in_sim ? palloc(n) : halloc(n);}
EXPORT void free(void* p)
{
	if (!p) return;
	if (in_heap(p)) hfree(p);
	else if (in_pheap(p)) pfree_(p);
}
EXPORT void* calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {errno = ENOMEM; return 0;}
	void* p = malloc(n);
	if (p) {char* q = (char*) p; for (size_t i = 0; i < n; ++i) {q[i] = 0; __asm__ volatile("" ::: "memory"); if (((uintptr_t) (q + i + 1) & 7) == 0) {++i; for (; i + 8 <= n; i += 8) *(uint64_t*) (q + i) = 0; --i;}}}
	return p;
}
static size_t usable(void* p) {return ((Hdr*) ((char*) p - 16))->size;}
EXPORT size_t malloc_usable_size(void* p) {return p ? usable(p) : 0;}
EXPORT void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	if (!n) {free(p); return 0;}
	size_t o = usable(p);
	void* q = malloc(n);
	if (q) {char* d = (char*) q; const char* s = (const char*) p; size_t k = o < n ? o : n; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(k) :: "memory"); free(p);}
	return q;
}
EXPORT int posix_memalign(void** out, size_t al, size_t n)
{
	if (UNLIKELY(!heap_ready)) heap_init();
	void* p;
	if (in_sim) {if (al > 16) {char* q = (char*) palloc(n + al + 32); p = (void*) (((uintptr_t) q + 32 + al - 1) & ~(al - 1)); *((Hdr*) ((char*) p - 16)) = *((Hdr*) (q - 16)); ((Hdr*) ((char*) p - 16))->gen = 63;} else p = palloc(n);}
	else p = halloc(n, al);
	if (!p) return ENOMEM;
	*out = p; return 0;
}
EXPORT void* aligned_alloc(size_t al, size_t n) {void* p = 0; return posix_memalign(&p, al, n) ? 0 : p;}
EXPORT void* memalign(size_t al, size_t n) {void* p = 0; return posix_memalign(&p, al, n) ? 0 : p;}
EXPORT void* valloc(size_t n) {return memalign(4096, n);}
EXPORT void* pvalloc(size_t n) {return memalign(4096, (n + 4095) & ~4095ul);}

EXPORT void* memcpy(void* d, const void* s, size_t n)
{
	if (UNLIKELY(n && active && !in_sim)) {if (in_heap(s)) check_range(s, n, false); if (in_heap(d)) check_range(d, n, true);}
	void* r = d;
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
	return r;
}
EXPORT void* memmove(void* d, const void* s, size_t n)
{
	if (UNLIKELY(n && active && !in_sim)) {if (in_heap(s)) check_range(s, n, false); if (in_heap(d)) check_range(d, n, true);}
	void* r = d;
	if ((uintptr_t) d - (uintptr_t) s >= n)
		__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
	else
	{
		char* dd = (char*) d + n - 1; const char* sss = (const char*) s + n - 1;
		__asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(sss), "+c"(n) :: "memory");
	}
	return r;
}

// ---------------------------------------------------------------- time
EXPORT int clock_gettime(clockid_t c, struct timespec* ts)
{
	if (!active) return (int) syscall(SYS_clock_gettime, c, ts);
	if (!in_sim) {InSim i; tick(60);}
	uint64_t t;
	switch (c)
	{
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = wall_ns(); break;
	case CLOCK_THREAD_CPUTIME_ID: case CLOCK_PROCESS_CPUTIME_ID: t = now_ns - MONO_BASE; break;
	default: t = now_ns; break;
	}
	ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t* t)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
static void sim_sleep_until(uint64_t at)
{
	InSim i;
	sync_point("sleep", 0x21);
	if (at <= now_ns) return;
	block(0, at, "sleep");
}
EXPORT int nanosleep(const struct timespec* r, struct timespec* rem)
{
	if (!active) return (int) syscall(SYS_nanosleep, r, rem);
	sim_sleep_until(now_ns + ts_ns(r)); return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec*)
{
	if (!active) return (int) syscall(SYS_clock_nanosleep, c, fl, r, 0);
	sim_sleep_until(fl & TIMER_ABSTIME ? deadline_from(r, c) : now_ns + ts_ns(r)); return 0;
}
EXPORT int usleep(useconds_t u) {if (active) sim_sleep_until(now_ns + (uint64_t) u * 1000); return 0;}
EXPORT unsigned sleep(unsigned s) {if (active) sim_sleep_until(now_ns + (uint64_t) s * 1000000000); return 0;}
EXPORT int sched_yield(void)
{
	if (!active) return (int) syscall(SYS_sched_yield);
	if (in_sim) return 0;
	InSim i; sync_point("yield", 0x22);
	int c[MAXT]; int n = candidates(c, false);
	if (n) {flush_events(); switch_to(c[0], true);} else tick(20000);
	return 0;
}
EXPORT int get_nprocs(void) {return 4;}
EXPORT int get_nprocs_conf(void) {return 4;}

// ---------------------------------------------------------------- pthread
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (!active)
	{
		if (!real_create) core_init();
		return real_create(out, attr, fn, arg);
	}
	InSim i;
	sync_point("create", 0x31);
	flush_events();
	int id = new_thread(fn, arg);
	if (attr) {int ds = 0; pthread_attr_getdetachstate(attr, &ds); T[id].detached = ds == PTHREAD_CREATE_DETACHED;}
	*out = T[id].real;
	hash_ev(0x31, id);
	tracef("creates thread %d", id);
	arm();
	sync_point("created", 0x32);
	return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
	if (!active) return 0;
	InSim i;
	sync_point("join", 0x33);
	int id = tid_of(p);
	if (id < 0) return ESRCH;
	if (id == cur) return EDEADLK;
	while (T[id].st != T_DONE) block(&T[id], 0, "join");
	if (ret) *ret = T[id].ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t) {return 0;}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	static_assert(sizeof(pthread_mutex_t) == 40, "");
	for (int k = 0; k < 5; ++k) ((volatile uint64_t*) m)[k] = 0;
	if (a) {int kind = 0; pthread_mutexattr_gettype(a, &kind); m->__data.__kind = kind;}
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (active && !in_sim) {check_range(m, sizeof *m, true); if (m->__data.__owner) return EBUSY;}
	return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("lock", 0x41);
	return mutex_lock_(m, 0, false);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("trylock", 0x42);
	return mutex_lock_(m, 0, true);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("timedlock", 0x43);
	return mutex_lock_(m, deadline_from(ts, CLOCK_REALTIME), false);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("timedlock", 0x43);
	return mutex_lock_(m, deadline_from(ts, c), false);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active || in_sim) return 0;
	InSim i;
	int r = mutex_unlock_(m);
	sync_point("unlock", 0x44);
	return r;
}
EXPORT int pthread_condattr_init(pthread_condattr_t* a) {*(int*) a = 0; return 0;}
EXPORT int pthread_condattr_destroy(pthread_condattr_t*) {return 0;}
EXPORT int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) {*(int*) a = c; return 0;}
EXPORT int pthread_condattr_getclock(const pthread_condattr_t* a, clockid_t* c) {*c = *(const int*) a; return 0;}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	for (int k = 0; k < 6; ++k) ((volatile uint64_t*) c)[k] = 0;
	if (a) *(int*) c = *(const int*) a;
	return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {if (active && !in_sim) check_range(c, sizeof *c, true); return 0;}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!active || in_sim) return 0;
	InSim i; return cond_wait_(c, m, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (!active || in_sim) return 0;
	InSim i; return cond_wait_(c, m, deadline_from(ts, *(int*) c));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
	if (!active || in_sim) return 0;
	InSim i; return cond_wait_(c, m, deadline_from(ts, clk));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
	if (!active || in_sim) return 0;
	InSim i; check_range(c, sizeof *c, true); wake_one(c); sync_point("signal", 0x45); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!active || in_sim) return 0;
	InSim i; check_range(c, sizeof *c, true); wake_all(c); sync_point("broadcast", 0x46); return 0;
}
struct RW_ {int readers; int writer;};
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {RW_* r = (RW_*) l; r->readers = 0; r->writer = 0; return 0;}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) {return 0;}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("rdlock", 0x47); RW_* r = (RW_*) l;
	while (r->writer) block(l, 0, "rwlock");
	++r->readers; return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
	if (!active || in_sim) return 0;
	InSim i; sync_point("wrlock", 0x48); RW_* r = (RW_*) l;
	while (r->writer || r->readers) block(l, 0, "rwlock");
	r->writer = cur + 1; return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if (!active || in_sim) return 0;
	InSim i; RW_* r = (RW_*) l;
	if (r->writer) r->writer = 0; else if (r->readers > 0) --r->readers;
	wake_all(l); sync_point("rwunlock", 0x49); return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {if (!active || in_sim) return 0; RW_* r = (RW_*) l; if (r->writer) return EBUSY; ++r->readers; return 0;}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {if (!active || in_sim) return 0; RW_* r = (RW_*) l; if (r->writer || r->readers) return EBUSY; r->writer = cur + 1; return 0;}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void))
{
	volatile int* s = (volatile int*) o;
	if (*s == 2) return 0;
	if (active && !in_sim)
	{
		{InSim i; sync_point("once", 0x4a); while (*s == 1) block(o, 0, "once");}
		if (*s == 2) return 0;
	}
	*s = 1;
	fn();
	*s = 2;
	if (active) {InSim i; wake_all(o);}
	return 0;
}
EXPORT int __cxa_guard_acquire(int64_t* g)
{
	volatile char* b = (volatile char*) g;
	if (b[0]) return 0;
	if (active && !in_sim)
	{
		InSim i;
		sync_point("guard", 0x4b);
		while (b[1] && !b[0]) block(g, 0, "static initialisation");
		if (b[0]) return 0;
	}
	b[1] = 1;
	return 1;
}
EXPORT void __cxa_guard_release(int64_t* g) {volatile char* b = (volatile char*) g; b[0] = 1; b[1] = 0; if (active) {InSim i; wake_all(g);}}
EXPORT void __cxa_guard_abort(int64_t* g) {volatile char* b = (volatile char*) g; b[1] = 0; if (active) {InSim i; wake_all(g);}}
