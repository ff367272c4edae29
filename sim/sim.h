// Public interface of the simulator, usable from C++98 harness code.
#ifndef SIM_H_
#define SIM_H_
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

// Decision streams. Every decision is a pure function of (seed, stream, index); 0 is always the tame default.
enum sim_stream {
	SS_FORCED = 0,   // which runnable thread continues when the current one blocks
	SS_COND,         // which waiter a condition signal wakes
	SS_SPURIOUS,     // spurious condition wakeups
	SS_LATENCY,      // network latency
	SS_SHORT_READ, SS_SHORT_WRITE,
	SS_CONNECT, SS_ACCEPT, SS_RESET, SS_SYSERR,
	SS_DGRAM_LOSS, SS_DGRAM_DUP, SS_DGRAM_LAT, SS_DGRAM_ERR,
	SS_CLOCK,
	SS_ALLOC,
	SS_KNOB,         // per-run configuration (swarm)
	SS_WORK,         // workload decisions
	SS_WORK2, SS_WORK3, SS_WORK4,
	SS_PEER,         // behaviour of scripted peers
	SS_DISK,
	SS_MAX = 40
};

unsigned sim_choose(int stream, unsigned n);     // uniform in [0,n), default 0
int sim_chance(int stream, unsigned ppm);        // 1 with ppm/1e6, default 0
unsigned sim_chooseT(int stream, unsigned n);    // same, stream made private to the calling thread (stable under reordering)
int sim_chanceT(int stream, unsigned ppm);

uint64_t sim_stall_ns(void);                     // total time threads were descheduled by injected stalls so far
uint64_t sim_now_ns(void);                       // simulated monotonic time since start of the run
uint64_t sim_seq(void);                          // global event sequence number (strictly increasing)
int sim_tid(void);
int sim_thread_live(void);                       // simulated threads not yet finished
void sim_fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int sim_tracing(void);
void sim_probe(const char* name);                // reach counter; name must be a string literal
void sim_probe_n(const char* name, unsigned n);
void sim_state(uint64_t h);                      // abstract state visited (distinct-state measure)
void sim_stop_schedule_noise(void);              // from now on: no more random preemption or stalls ("faults stop")
void sim_nopreempt(int delta);                   // +1/-1: harness bookkeeping is atomic
const char* sim_scenario(void);                  // scenario name given on the command line ("" if none)
int sim_replaying(void);

// network model parameters (may be changed at any time by the harness)
struct sim_net_cfg {
	unsigned lat_min_us, lat_max_us;       // stream one-way latency
	unsigned short_read_ppm, short_write_ppm;
	unsigned max_seg;                      // 0: no limit; else bytes one send may take / one read may give
	unsigned seg_budget;                   // injected cuts (max_seg, short reads/writes) left in this run
	unsigned sndbuf, rcvbuf;
	unsigned connect_refuse_ppm, connect_timeout_ppm;
	unsigned connect_lat_max_us;
	unsigned accept_err_ppm;               // ECONNABORTED and friends
	unsigned accept_emfile_ppm;
	unsigned reset_ppm;                    // per stream send: connection reset
	unsigned dgram_loss_ppm, dgram_dup_ppm, dgram_err_ppm, dgram_block_ppm;
	unsigned dgram_lat_min_us, dgram_lat_max_us;
	unsigned bind_err_ppm, listen_err_ppm, socket_err_ppm;
	unsigned dgram_rcvbuf;
};
extern struct sim_net_cfg sim_net;
void sim_net_partition(int on);              // hold all stream segments, drop datagrams, stall connects
void sim_net_partition_port(unsigned short port, int on); // only connections whose server side uses this port; on: 1 both directions, 2 toward the server, 4 toward the client
void sim_net_reset_all(unsigned short server_port); // break every established connection of that server port
void sim_net_quiet(void);                    // faults stop: no resets, refusals, errors, losses; partitions heal
unsigned sim_net_connect_attempts(unsigned short server_port);
unsigned sim_net_established(unsigned short server_port); // connections currently open on the server side (accepted or queued)
unsigned sim_net_client_open(unsigned short server_port); // connecting or connected client sockets
int sim_net_listening(unsigned short port);
unsigned sim_net_pending_accepts(unsigned short port);
uint64_t sim_net_stream_bytes_read(unsigned short server_port, int server_side); // bytes consumed by recv()
uint64_t sim_net_last_arrival(int fd);          // when data reached this stream last
uint64_t sim_net_arrival_since(int fd, uint64_t from_ns, uint64_t slack_ns); // data that came after from_ns and, apart from stalls, slack_ns ago; 0: none
uint64_t sim_net_stream_bytes_sent(unsigned short server_port, int server_side);
typedef void (*sim_dgram_tap)(const void* data, size_t len, unsigned src_port, unsigned dst_port, int delivered); // 0 at send, 1 delivered to a socket's queue, 2 read
void sim_net_set_dgram_tap(sim_dgram_tap tap);
int sim_net_open_sockets(void);
void sim_clock_jump_ms(int64_t ms);          // wall clock only

// provided by the harness
void sim_harness_run(void);                  // one simulated run; runs as simulated thread 0
const char* sim_harness_name(void);
extern const char* const sim_harness_scenarios; // space separated

#ifdef __cplusplus
}
#endif
#endif
