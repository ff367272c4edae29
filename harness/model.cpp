#include "model.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <deque>
#include <algorithm>

namespace
{
struct NP {NP() {sim_nopreempt(1);} ~NP() {sim_nopreempt(-1);}}; // the model's own state changes atomically
struct Msg { uint64_t inv = 0, ret = ~0ull; unsigned size = 0; int flags = 0; int accepted = -1; int fate = 0; int delivered = 0; int robj = -1; uint64_t at = 0; int block = -1;};
struct Chan { std::string what; std::vector<Msg> m; unsigned accepted = 0, delivered = 0; uint64_t bytes = 0; unsigned fates[8] = {0}; uint64_t sent_max_inv = 0; std::vector<std::vector<unsigned> > blocks; std::vector<bool> partial;};
struct RObj { std::string what; int fixed; int cur_chan = -1; std::set<int> past; uint64_t max_inv = 0; unsigned delivered = 0; uint64_t bytes = 0; bool refused = false; std::string refused_msg;
	unsigned batch = 0; bool in_batch = false; std::map<int, int> block_of; bool partial = false; };
struct Obj { std::string what; int depth[CB_MAX] = {0}; int running = 0; unsigned count[CB_MAX] = {0}; uint64_t last[CB_MAX] = {0}; bool open = false, connected = false, started_ever = false, destroyed = false;
	unsigned starts = 0, closes = 0, connects = 0; bool closing = false; };
std::vector<Chan>& chans() {static std::vector<Chan>* v = new std::vector<Chan>; return *v;}
std::vector<RObj>& robjs() {static std::vector<RObj>* v = new std::vector<RObj>; return *v;}
std::vector<Obj>& objs() {static std::vector<Obj>* v = new std::vector<Obj>; return *v;}
std::set<std::string>& enabled() {static std::set<std::string>* v = new std::set<std::string>; return *v;}
int total_running = 0; bool forbid = false; uint64_t last_cb = 0;
const char* const kind_names[] = {"on_msg_handle", "on_connect", "on_msg_send", "on_send_error", "on_recv_error", "on_unpack_error", "on_async_shutdown_error", "on_heartbeat_error",
	"timer", "post", "on_close", "after_close", "prepare_reconnect", "do_start", "on_msg", "on_all_msg_send"};

inline char filler(int chan, unsigned id, unsigned i)
{
	uint32_t x = (uint32_t) chan * 2654435761u ^ id * 40503u ^ (i / 4) * 2246822519u;
	x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
	return (char) ('a' + ((x >> (8 * (i % 4))) & 15)); // a..p: never 'M', nor a prefix/suffix character
}
void build(int chan, unsigned id, unsigned size, char* out)
{
	char h[24]; snprintf(h, sizeof h, "M%04x%06x%06x", chan, id, size);
	memcpy(out, h, M_MIN_MSG);
	for (unsigned i = M_MIN_MSG; i < size; ++i) out[i] = filler(chan, id, i);
}
bool hexn(const char* p, int n, unsigned& v) {v = 0; for (int i = 0; i < n; ++i) {char c = p[i]; unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else return false; v = v << 4 | d;} return true;}
bool parse(const char* p, size_t n, int& chan, unsigned& id)
{
	if (n < M_MIN_MSG || p[0] != 'M') return false;
	unsigned c, i, s;
	if (!hexn(p + 1, 4, c) || !hexn(p + 5, 6, i) || !hexn(p + 11, 6, s) || s != n) return false;
	for (unsigned k = M_MIN_MSG; k < n; ++k) if (p[k] != filler((int) c, i, k)) return false;
	chan = (int) c; id = i; return true;
}
std::string show(const char* p, size_t n) {std::string s; char b[8]; for (size_t i = 0; i < n && i < 40; ++i) if (p[i] >= 32 && p[i] < 127) s += p[i]; else {snprintf(b, sizeof b, "\\x%02x", (unsigned char) p[i]); s += b;} if (n > 40) s += "..."; return s;}
}

extern "C" {
void m_enable(const char* l) {NP np_; std::string s(l), cur; enabled().clear(); for (char c : s + ",") if (c == ',') {if (!cur.empty()) enabled().insert(cur); cur.clear();} else cur += c;}
int m_on(const char* p) {NP np_; return enabled().count(p) || enabled().count("all");}

int m_chan(const char* what) {NP np_; chans().emplace_back(); chans().back().what = what; return (int) chans().size() - 1;}
unsigned m_begin(int chan, unsigned size, int flags, char* out)
{NP np_; 
	if (size < M_MIN_MSG) size = M_MIN_MSG;
	Chan& c = chans()[chan]; unsigned id = (unsigned) c.m.size(); c.m.emplace_back(); Msg& m = c.m.back();
	m.size = size; m.flags = flags; m.inv = sim_seq(); build(chan, id, size, out); return id;
}
void m_end(int chan, unsigned id, int accepted)
{NP np_; 
	Chan& c = chans()[chan]; Msg& m = c.m[id]; m.ret = sim_seq();
	if (2 == accepted) {m.accepted = -1; m.flags |= MF_UNTRACKED; return;} // it may have been sent or not
	m.accepted = accepted ? 1 : 0;
	if (accepted) {++c.accepted; c.bytes += m.size;}
	else if ((m.delivered || m.fate) && (m_on("C02") || m_on("C01")))
		sim_fail(m_on("C02") ? "C02.refused_left_trace" : "C01.refused_delivered", "message %d/%u was refused (send returned false) but was %s", chan, id, m.delivered ? "delivered" : "reported");
}
int m_id(const char* d, size_t n, int* chan, unsigned* id) {NP np_; return parse(d, n, *chan, *id) && *chan < (int) chans().size() && *id < chans()[*chan].m.size();}
int m_item(const char* d, size_t n, int* chan, unsigned* id)
{NP np_; 
	for (size_t off = 0; off <= 4 && off < n; ++off) if (d[off] == 'M' && n - off >= M_MIN_MSG)
	{
		unsigned c, i, s;
		if (!hexn(d + off + 1, 4, c) || !hexn(d + off + 5, 6, i) || !hexn(d + off + 11, 6, s) || s > n - off || c >= chans().size() || i >= chans()[c].m.size()) continue;
		*chan = (int) c; *id = i; return 1;
	}
	return 0;
}
void m_fate(int chan, int fate, const char* item, size_t n)
{NP np_; 
	int c; unsigned id;
	if (!m_item(item, n, &c, &id)) return; // a bare header of a two part message or a heartbeat
	static const char* const names[] = {"", "sent", "send error", "discarded", "popped"};
	if (!m_on("C02")) {if (c >= 0) {Msg& m = chans()[c].m[id]; if (!m.fate) ++chans()[c].fates[fate]; m.fate = fate;} return;}
	if (c != chan) sim_fail("C02.wrong_object", "object of channel %d reports %s for message %d/%u of another object", chan, names[fate], c, id);
	Chan& ch = chans()[c]; Msg& m = ch.m[id];
	if (m.fate) sim_fail("C02.two_fates", "message %d/%u reported %s after it was already reported %s", c, id, names[fate], names[m.fate]);
	if (m.accepted == 0) sim_fail("C02.refused_left_trace", "message %d/%u was refused but reported %s", c, id, names[fate]);
	m.fate = fate; ++ch.fates[fate];
	if (fate == FATE_SENT)
	{
		if (!(m.flags & MF_PRIOR)) // messages reported sent respect acceptance order
		{
			if (m.ret < ch.sent_max_inv) sim_fail("C02.sent_order", "message %d/%u reported sent after a message accepted later", c, id);
			ch.sent_max_inv = std::max(ch.sent_max_inv, m.inv);
		}
	}
	else if (fate != FATE_ERR && m.delivered) // send-error may be pessimistic (a batch fails as a whole), popping and discarding may not
		sim_fail("C02.popped_but_delivered", "message %d/%u was %s but also reached the peer", c, id, names[fate]);
}
size_t m_fate_scan(int chan, int fate, const char* d, size_t n)
{NP np_; 
	size_t done = 0;
	for (size_t i = 0; i + M_MIN_MSG <= n;)
	{
		unsigned c, id, sz;
		if (d[i] != 'M' || !hexn(d + i + 1, 4, c) || !hexn(d + i + 5, 6, id) || !hexn(d + i + 11, 6, sz) || c >= chans().size() || id >= chans()[c].m.size()) {done = ++i; continue;}
		if (i + sz > n) break;
		m_fate(chan, fate, d + i, sz);
		done = i += sz;
	}
	return done;
}
unsigned m_accepted(int c) {NP np_; return chans()[c].accepted;}
unsigned m_delivered(int c) {NP np_; return chans()[c].delivered;}
unsigned m_fate_count(int c, int f) {NP np_; return chans()[c].fates[f];}
unsigned m_unfated(int c) {NP np_; unsigned n = 0; for (auto& m : chans()[c].m) if (m.accepted == 1 && !m.fate) ++n; return n;}
uint64_t m_accepted_bytes(int c) {NP np_; return chans()[c].bytes;}
int m_all_delivered(int c) {NP np_; for (auto& m : chans()[c].m) if ((m.accepted == 1 || m.accepted == -1) && !m.delivered && m.fate != FATE_DISCARD && m.fate != FATE_POP && !(m.flags & MF_UNTRACKED)) return 0; return 1;}
unsigned m_chan_count(void) {NP np_; return (unsigned) chans().size();}

int m_robj(const char* what, int fixed) {NP np_; robjs().emplace_back(); robjs().back().what = what; robjs().back().fixed = fixed; return (int) robjs().size() - 1;}
void m_deliver(int robj, const char* d, size_t n)
{NP np_; 
	RObj& r = robjs()[robj]; int c; unsigned id;
	++r.delivered; r.bytes += n;
	if (!m_on("C01"))
	{
		if (parse(d, n, c, id) && c < (int) chans().size() && id < chans()[c].m.size()) {Chan& ch = chans()[c]; if (!ch.m[id].delivered++) ++ch.delivered;}
		return;
	}
	if (!parse(d, n, c, id)) sim_fail("C01.corrupt", "%s: handed over %zu bytes that are no sent message: %s", r.what.c_str(), n, show(d, n).c_str());
	if (c >= (int) chans().size() || id >= chans()[c].m.size()) sim_fail("C01.invented", "%s: handed over message %d/%u that nobody sent", r.what.c_str(), c, id);
	Chan& ch = chans()[c]; Msg& m = ch.m[id];
	if (m.size != n) sim_fail("C01.corrupt", "%s: message %d/%u handed over with %zu bytes, sent with %u", r.what.c_str(), c, id, n, m.size);
	if (m.accepted == 0) sim_fail("C01.refused_delivered", "%s: message %d/%u was refused by send but handed over", r.what.c_str(), c, id);
	if (-2 == r.fixed) r.fixed = c;
	if (r.fixed >= 0 && r.fixed != c) sim_fail("C01.misrouted", "%s: message %d/%u of another connection", r.what.c_str(), c, id);
	if (m.delivered) sim_fail("C01.duplicate", "%s: message %d/%u handed over twice", r.what.c_str(), c, id);
	if (m.fate == FATE_DISCARD || m.fate == FATE_POP) sim_fail("C01.withdrawn_delivered", "%s: message %d/%u was withdrawn by the sender yet handed over", r.what.c_str(), c, id);
	m.delivered = 1; m.robj = robj; m.at = sim_seq(); ++ch.delivered;
	if (c != r.cur_chan)
	{
		if (r.past.count(c)) sim_fail("C01.order", "%s: message %d/%u of an earlier connection handed over after messages of a later one", r.what.c_str(), c, id);
		if (r.cur_chan >= 0) r.past.insert(r.cur_chan);
		r.cur_chan = c; r.max_inv = 0;
	}
	if (!(m.flags & MF_PRIOR))
	{
		if (m.ret < r.max_inv) sim_fail("C01.order", "%s: message %d/%u handed over after a message accepted later", r.what.c_str(), c, id);
		r.max_inv = std::max(r.max_inv, m.inv);
	}
	auto it = r.block_of.find(c);
	if (it == r.block_of.end()) {ch.blocks.emplace_back(); ch.partial.push_back(r.partial); it = r.block_of.emplace(c, (int) ch.blocks.size() - 1).first;}
	ch.blocks[it->second].push_back(id);
}
uint64_t m_robj_bytes(int r) {NP np_; return robjs()[r].bytes;}
void m_robj_partial(int r) {NP np_; robjs()[r].partial = true;}
unsigned m_robj_delivered(int r) {NP np_; return robjs()[r].delivered;}
void m_offer(int robj, const char* d, size_t n, int accepted)
{NP np_; 
	RObj& r = robjs()[robj];
	if (r.refused)
	{
		if (m_on("C03") && r.refused_msg != std::string(d, n))
			sim_fail("C03.overtaken", "%s: a refused message (%s) was followed by a different one (%s)", r.what.c_str(), show(r.refused_msg.data(), r.refused_msg.size()).c_str(), show(d, n).c_str());
		sim_probe("reoffered");
	}
	r.refused = !accepted;
	if (!accepted) r.refused_msg.assign(d, n);
}
void m_offer_batch_begin(int robj, unsigned count, const char* first, size_t n)
{NP np_; 
	RObj& r = robjs()[robj];
	if (r.refused)
	{
		if (m_on("C03"))
		{
			if (count < r.batch) sim_fail("C03.lost_refused", "%s: %u messages were refused, only %u are offered again", r.what.c_str(), r.batch, count);
			if (r.refused_msg != std::string(first, n)) sim_fail("C03.overtaken", "%s: refused batch began with %s, next offered batch begins with %s", r.what.c_str(), show(r.refused_msg.data(), r.refused_msg.size()).c_str(), show(first, n).c_str());
		}
		sim_probe("reoffered");
	}
	r.batch = count; r.refused_msg.assign(first, n);
}
void m_offer_batch_end(int robj, unsigned accepted) {NP np_; robjs()[robj].refused = 0 == accepted;}
int m_refused_outstanding(int r) {NP np_; return robjs()[r].refused;}
void m_robj_forget_refusal(int r) {NP np_; robjs()[r].refused = false;}
void m_check_final(int)
{NP np_; 
	if (!m_on("C01")) return;
	for (size_t c = 0; c < chans().size(); ++c)
	{
		Chan& ch = chans()[c];
		// within one receiving connection no accepted message between two handed over ones may be missing
		for (size_t bi = 0; bi < ch.blocks.size(); ++bi) if (!ch.partial[bi]) // what else was received may have been dropped when the connection ended
		{
			auto& b = ch.blocks[bi];
			uint64_t maxinv = 0, minret = ~0ull; bool any = false;
			for (unsigned id : b) if (!(ch.m[id].flags & MF_PRIOR)) {maxinv = std::max(maxinv, ch.m[id].inv); minret = std::min(minret, ch.m[id].ret); any = true;}
			if (!any) continue;
			for (size_t i = 0; i < ch.m.size(); ++i)
			{
				Msg& a = ch.m[i];
				if (a.accepted == 1 && !a.delivered && !(a.flags & (MF_PRIOR | MF_UNTRACKED)) && a.fate != FATE_DISCARD && a.fate != FATE_POP && a.inv > minret && a.ret < maxinv)
					sim_fail("C01.gap", "message %zu/%zu accepted between two messages of one connection was skipped", c, i);
			}
		}
		// incarnations of one sender must not overlap
		std::vector<std::pair<std::pair<uint64_t, uint64_t>, size_t> > r; // (min ret, max inv)
		for (size_t bi = 0; bi < ch.blocks.size(); ++bi) if (!ch.partial[bi])
		{
			uint64_t maxinv = 0, minret = ~0ull; bool any = false;
			for (unsigned id : ch.blocks[bi]) if (!(ch.m[id].flags & MF_PRIOR)) {maxinv = std::max(maxinv, ch.m[id].inv); minret = std::min(minret, ch.m[id].ret); any = true;}
			if (any) r.push_back({{minret, maxinv}, bi});
		}
		for (size_t i = 0; i < r.size(); ++i) for (size_t j = i + 1; j < r.size(); ++j)
		{
			bool i_before = r[i].first.first < r[j].first.second; // something of i surely precedes something of j
			bool j_before = r[j].first.first < r[i].first.second;
			if (i_before && j_before && r[i].first.second > r[j].first.first && r[j].first.second > r[i].first.first)
			{
				// both directions: overlap, unless messages were merely concurrent
				bool strict_ij = false, strict_ji = false;
				for (unsigned a : ch.blocks[r[i].second]) for (unsigned b : ch.blocks[r[j].second])
				{
					if ((ch.m[a].flags | ch.m[b].flags) & MF_PRIOR) continue;
					if (ch.m[a].ret < ch.m[b].inv) strict_ij = true;
					if (ch.m[b].ret < ch.m[a].inv) strict_ji = true;
				}
				if (strict_ij && strict_ji) sim_fail("C01.order", "channel %zu: messages of two connections are interleaved", c);
			}
		}
	}
}

int m_obj(const char* what) {NP np_; objs().emplace_back(); objs().back().what = what; return (int) objs().size() - 1;}
void m_cb_enter(int o, int kind)
{NP np_; 
	Obj& x = objs()[o];
	if (forbid) sim_fail("C13.callback_after_stop", "%s: %s runs after stop_service returned", x.what.c_str(), kind_names[kind]);
	if (kind == CB_HANDLER && x.depth[CB_HANDLER] && m_on("C03"))
		sim_fail("C03.concurrent_handler", "%s: message handler entered while it is running", x.what.c_str());
	if (m_on("C06"))
	{
		if (x.destroyed) sim_fail("C06.callback_after_free", "%s: %s on a destroyed object", x.what.c_str(), kind_names[kind]);
		if (kind == CB_CLOSE)
		{
			if (!x.open) sim_fail("C06.close_twice", "%s: on_close called %s", x.what.c_str(), x.closes ? "again without a start in between" : "before any start");
			if (x.running) {for (int k = 0; k < CB_MAX; ++k) if (x.depth[k]) sim_fail("C06.close_overlaps", "%s: on_close runs while %s is running", x.what.c_str(), kind_names[k]);}
		}
		else if (kind == CB_AFTER_CLOSE) {if (x.count[CB_AFTER_CLOSE] >= x.closes) /* the application may already have restarted it */ sim_fail("C06.after_close_order", "%s: after_close without a preceding on_close", x.what.c_str());}
		else if (kind != CB_DO_START && x.started_ever && !x.open)
			sim_fail("C06.callback_after_close", "%s: %s runs after on_close", x.what.c_str(), kind_names[kind]);
		else if (x.depth[CB_CLOSE]) sim_fail("C06.close_overlaps", "%s: %s runs while on_close is running", x.what.c_str(), kind_names[kind]);
		if (kind == CB_CONNECT && x.connected) sim_fail("C06.connect_twice", "%s: on_connect twice for one connection", x.what.c_str());
	}
	if (kind == CB_CLOSE) {x.open = false; x.connected = false; ++x.closes;}
	if (kind == CB_CONNECT) {x.connected = true; ++x.connects;}
	++x.depth[kind]; ++x.running; ++total_running; ++x.count[kind]; x.last[kind] = sim_now_ns(); last_cb = sim_now_ns();
}
void m_cb_exit(int o, int kind) {NP np_; Obj& x = objs()[o]; --x.depth[kind]; --x.running; --total_running; last_cb = sim_now_ns();}
int m_cb_running(void) {NP np_; return total_running;}
int m_obj_running(int o) {NP np_; return objs()[o].running;}
unsigned m_cb_count(int o, int k) {NP np_; return objs()[o].count[k];}
uint64_t m_cb_last_ns(int o, int k) {NP np_; return objs()[o].last[k];}
int m_obj_open(int o) {NP np_; return objs()[o].open;}
int m_obj_connected(int o) {NP np_; return objs()[o].connected;}
void m_obj_started(int o)
{NP np_; 
	Obj& x = objs()[o];
	if (m_on("C06") && x.open) sim_fail("C06.start_without_close", "%s: started again although the previous connection has not been closed", x.what.c_str());
	x.open = x.started_ever = true; ++x.starts;
}
void m_obj_destroyed(int o)
{NP np_; 
	Obj& x = objs()[o];
	if (m_on("C06") && x.running) for (int k = 0; k < CB_MAX; ++k) if (x.depth[k]) sim_fail("C06.destroyed_in_callback", "%s: destroyed while %s is running", x.what.c_str(), kind_names[k]);
	x.destroyed = true;
}
void m_obj_reset(int o) {NP np_; Obj& x = objs()[o]; if (m_on("C12") && x.running) sim_fail("C12.reset_in_callback", "%s: reset while callbacks are running", x.what.c_str());}
unsigned m_obj_connects(int o) {NP np_; return objs()[o].connects;}
unsigned m_obj_closes(int o) {NP np_; return objs()[o].closes;}
unsigned m_obj_starts(int o) {NP np_; return objs()[o].starts;}
void m_no_callbacks(int on)
{NP np_; 
	forbid = on != 0;
	if (on && total_running) for (auto& x : objs()) for (int k = 0; k < CB_MAX; ++k) if (x.depth[k]) sim_fail("C13.callback_after_stop", "%s: %s still running after stop_service returned", x.what.c_str(), kind_names[k]);
}
uint64_t m_last_cb_ns(void) {NP np_; return last_cb;}
int m_any_open(int) {NP np_; for (auto& x : objs()) if (x.open) return 1; return 0;}
void m_open_list(char* out, unsigned n) {NP np_; std::string s; for (size_t i = 0; i < objs().size(); ++i) if (objs()[i].open) s += "#" + std::to_string(i) + " " + objs()[i].what + (objs()[i].connected ? " (connected) " : " (not connected) "); snprintf(out, n, "%s", s.c_str());}
unsigned m_total(int k) {NP np_; unsigned n = 0; for (auto& x : objs()) n += x.count[k]; return n;}
int m_is_delivered(int c, unsigned id) {NP np_; return chans()[c].m[id].delivered;}
}
