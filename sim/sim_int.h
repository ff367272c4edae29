// internals shared by sim_core / sim_net / sim_main (not for harnesses)
#pragma once
#include "sim.h"
#include <stdint.h>
#include <stddef.h>
#include <pthread.h>
#include <time.h>
#include <sys/types.h>

namespace simi {

static const int MAXT = 320;
static const int NPROBE = 256;

enum {RES_NONE = 0, RES_OK, RES_VIOLATION, RES_ERROR, RES_INCONCLUSIVE};

struct Probe {char name[48]; uint64_t n;};

struct Dec {int32_t stream; int32_t a; int64_t b; int64_t val;}; // stream>=0: choice (a = tid+1 or 0, b = counter); stream==-1: preemption (a = tid, b = event index)

struct Result {
	volatile int status;
	char cls[64];
	char msg[2000];
	char trace[3000];      // call stack etc.
	uint64_t hash, ilv, events, syncs, switches, preempts, stalls;
	uint64_t sim_ns, heap_bytes;
	int threads;
	int nprobe;
	Probe probes[NPROBE];
	uint64_t nstream[SS_MAX];  // non-default decisions by stream
	uint64_t ndec;             // recorded decisions (in rec area)
	uint32_t nstates;
	uint32_t states[4096];
};

struct RunCfg {
	uint64_t seed;
	bool replay;          // use decisions only
	bool record;
	bool trace;           // print event log to stderr
	const Dec* dec; size_t ndec;
	Dec* rec; size_t rec_cap;
	uint64_t max_events;
	uint64_t max_sim_ns;
	const char* scenario;
};

extern Result* res;
extern RunCfg cfg;
extern bool active;
extern int in_sim;
extern uint64_t now_ns;       // monotonic
extern int64_t wall_off_ns;

struct InSim {InSim() {++in_sim;} ~InSim() {--in_sim;}};

// blocking
enum {W_NONE = 0, W_WOKEN, W_TIMEOUT};
int cur_tid();
int block(const void* obj, uint64_t deadline_ns, const char* what); // deadline 0: none; call with in_sim>0
void wake_all(const void* obj);
void sync_point(const char* what, uint64_t arg);   // potential preemption, tick
void hash_ev(uint64_t a, uint64_t b);
typedef void (*EvFn)(void* p, uint64_t a);
void add_event(uint64_t at_ns, EvFn fn, void* p, uint64_t a);
unsigned choose(int stream, unsigned n);
int chance(int stream, unsigned ppm);
void probe(const char* name, uint64_t n = 1);
void violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_error(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void check_range(const void* p, size_t n, bool write);
void start_run(const RunCfg& c);   // never returns (child process)
void core_init();                  // parent, once
void net_init();                   // child, at start of run
uint64_t mix(uint64_t a, uint64_t b);
bool replaying();
void callout_begin(int64_t* save);
void callout_end(const int64_t* save);
}
