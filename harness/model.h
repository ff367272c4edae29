// Reference models and oracles shared by the harnesses. Implemented in model.cpp, which is compiled without
// instrumentation: every function is atomic with respect to the simulated threads.
#ifndef MODEL_H_
#define MODEL_H_
#include "../sim/sim.h"

#ifdef __cplusplus
extern "C" {
#endif

// ---- which properties' oracles are active in this run (others are only observed)
void m_enable(const char* prop_list);        // "C01,C06"
int m_on(const char* prop);

// ---- messages on a sending channel (one sending object instance = one channel)
enum {M_MIN_MSG = 17};
int m_chan(const char* what);
unsigned m_begin(int chan, unsigned size, int flags, char* out); // size >= M_MIN_MSG; fills out, returns id
enum {MF_PRIOR = 1, MF_UNTRACKED = 2};
void m_end(int chan, unsigned id, int accepted); // 2: unknown, it may arrive or not
int m_id(const char* data, size_t n, int* chan, unsigned* id);  // recognises a whole valid message
int m_item(const char* data, size_t n, int* chan, unsigned* id); // recognises a queued item (packed or raw); 0: not a message
enum {FATE_SENT = 1, FATE_ERR = 2, FATE_DISCARD = 3, FATE_POP = 4};
void m_fate(int chan, int fate, const char* item, size_t n);
size_t m_fate_scan(int chan, int fate, const char* d, size_t n); // consecutive items glued together; returns how many bytes are done with
unsigned m_accepted(int chan);
unsigned m_delivered(int chan);
unsigned m_fate_count(int chan, int fate);
unsigned m_unfated(int chan);                // accepted, no fate
uint64_t m_accepted_bytes(int chan);
int m_all_delivered(int chan);
unsigned m_chan_count(void);

// ---- receiving objects
int m_robj(const char* what, int fixed_chan); // -1: messages may come from any channel, but in blocks; -2: one channel, learned from the first message
void m_deliver(int robj, const char* data, size_t n);
void m_deliver_where(int robj, char* buf, size_t n);
unsigned m_robj_delivered(int robj);
void m_robj_partial(int robj);               // hands over a part of a connection's messages (another object gets the others)
uint64_t m_robj_bytes(int robj);
void m_offer(int robj, const char* data, size_t n, int accepted); // single message offers (C03)
void m_offer_batch_begin(int robj, unsigned count, const char* first, size_t first_len);
void m_offer_batch_end(int robj, unsigned accepted);
int m_refused_outstanding(int robj);
void m_robj_forget_refusal(int robj);        // object was reset/reused: a refused message is legitimately gone
void m_check_final(int complete);            // end of run checks (gaps, incarnations)

// ---- callbacks of one connection object
enum {CB_HANDLER = 0, CB_CONNECT, CB_SEND_CB, CB_SEND_ERR, CB_RECV_ERR, CB_UNPACK_ERR, CB_SHUT_ERR, CB_HB_ERR, CB_TIMER, CB_POST,
	CB_CLOSE, CB_AFTER_CLOSE, CB_PREPARE_RECONNECT, CB_DO_START, CB_ON_MSG, CB_ALL_SENT, CB_MAX};
int m_obj(const char* what);
void m_cb_enter(int obj, int kind);
void m_cb_exit(int obj, int kind);
int m_cb_running(void);                      // callbacks running now, all objects
int m_obj_running(int obj);
unsigned m_cb_count(int obj, int kind);
uint64_t m_cb_last_ns(int obj, int kind);
int m_obj_open(int obj);                     // started and not closed
int m_obj_connected(int obj);
void m_obj_started(int obj);                 // do_start entered
void m_obj_destroyed(int obj);
void m_obj_reset(int obj);                   // reused
unsigned m_obj_connects(int obj);
unsigned m_obj_closes(int obj);
unsigned m_obj_starts(int obj);
void m_no_callbacks(int on);                 // after stop_service returned: any callback is a violation (C13)
uint64_t m_last_cb_ns(void);
int m_any_open(int dummy);                   // any object started and not closed
void m_open_list(char* out, unsigned n);
unsigned m_total(int kind);                  // callbacks of this kind, all objects
int m_is_delivered(int chan, unsigned id);

#ifdef __cplusplus
}
#endif
#endif
