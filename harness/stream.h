// Recording sockets and the client/server world used by all TCP stream harnesses.
#ifndef STREAM_H_
#define STREAM_H_
#ifndef ST_ASIO_SERVICE_THREAD_NUM
#define ST_ASIO_SERVICE_THREAD_NUM 2
#endif
#include "common.h"
#ifndef ST_ASIO_FREE_OBJECT_INTERVAL
#define ST_ASIO_FREE_OBJECT_INTERVAL 10
#endif
#include "ext/tcp.h"
#include <boost/thread.hpp>
#include <vector>
#include <string>
#include "model.h"
#include "raw.h"

using namespace st_asio_wrapper;

// ---------------------------------------------------------------- run-time selectable framing
enum framing_t {F_DEFAULT = 0, F_FLEXIBLE, F_NONCOPY, F_PREFIX_SUFFIX, F_FIXED, F_UNPACKER2, F_UNSTRIPPED, F_PREFIX_ONLY_SUFFIX, F_COUNT,
	F_FLEX_UNSTRIPPED = F_COUNT, F_U2_FLEX, F_PS_UNSTRIPPED, F_RAW_COUNT}; // the latter for scripted peers only
static int g_framing = F_DEFAULT;
static unsigned g_fixed_len = 64;

class any_packer : public i_packer<std::string>
{
public:
	any_packer() : framing(g_framing) {if (F_PREFIX_SUFFIX == framing) ps.prefix_suffix("<<[", "]>>>"); else if (F_PREFIX_ONLY_SUFFIX == framing) ps.prefix_suffix("", "\r\n");}
	i_packer<std::string>& p() {if (F_PREFIX_SUFFIX == framing || F_PREFIX_ONLY_SUFFIX == framing) return ps; if (F_FIXED == framing) return fl; return df;}
	const i_packer<std::string>& p() const {return const_cast<any_packer*>(this)->p();}
	virtual void reset() {p().reset();}
	virtual bool pack_msg(msg_type& msg, const char* const pstr[], const size_t len[], size_t num, bool native = false) {return p().pack_msg(msg, pstr, len, num, native);}
	virtual bool pack_msg(msg_type& msg, container_type& msg_can) {return p().pack_msg(msg, msg_can);}
	virtual bool pack_msg(msg_type& msg1, msg_type& msg2, container_type& msg_can) {return p().pack_msg(msg1, msg2, msg_can);}
	virtual bool pack_msg(msg_ctype& msg, container_type& msg_can) {return p().pack_msg(msg, msg_can);}
	virtual bool pack_msg(msg_ctype& msg1, msg_ctype& msg2, container_type& msg_can) {return p().pack_msg(msg1, msg2, msg_can);}
	virtual bool pack_msg(container_type& in, container_type& out) {return p().pack_msg(in, out);}
	virtual bool pack_heartbeat(msg_type& msg) {return p().pack_heartbeat(msg);}
	virtual char* raw_data(msg_type& msg) const {return p().raw_data(msg);}
	virtual const char* raw_data(msg_ctype& msg) const {return p().raw_data(msg);}
	virtual size_t raw_data_len(msg_ctype& msg) const {return p().raw_data_len(msg);}
private:
	int framing;
	ext::packer<> df; ext::fixed_length_packer fl; ext::prefix_suffix_packer ps;
};

class any_unpacker : public i_unpacker<std::string>
{
public:
	unsigned reads; bool reading; // reads begun; one is in progress
	any_unpacker() : reads(0), reading(false), framing(g_framing)
	{
		switch (framing)
		{
		case F_DEFAULT: case F_UNSTRIPPED: df = boost::make_shared<ext::unpacker<> >(); if (F_UNSTRIPPED == framing) df->stripped(false); break;
		case F_FLEXIBLE: fx = boost::make_shared<ext::flexible_unpacker<> >(); break;
		case F_NONCOPY: nc = boost::make_shared<ext::non_copy_unpacker>(); break;
		case F_PREFIX_SUFFIX: ps = boost::make_shared<ext::prefix_suffix_unpacker>(); ps->prefix_suffix("<<[", "]>>>"); break;
		case F_PREFIX_ONLY_SUFFIX: ps = boost::make_shared<ext::prefix_suffix_unpacker>(); ps->prefix_suffix("", "\r\n"); break;
		case F_FIXED: fl = boost::make_shared<ext::fixed_length_unpacker>(); fl->fixed_length(g_fixed_len); break;
		case F_FLEX_UNSTRIPPED: fx = boost::make_shared<ext::flexible_unpacker<> >(); fx->stripped(false); break;
		case F_U2_FLEX: u2f = boost::make_shared<u2f_type>(); break;
		case F_PS_UNSTRIPPED: ps = boost::make_shared<ext::prefix_suffix_unpacker>(); ps->prefix_suffix("<<[", "]>>>"); ps->stripped(false); break;
		case F_UNPACKER2: u2 = boost::make_shared<ext::unpacker2<> >(); break;
		}
	}
#define ANY(CALL) (df ? df->CALL : fx ? fx->CALL : nc ? nc->CALL : ps ? ps->CALL : fl ? fl->CALL : u2f ? u2f->CALL : u2->CALL)
	virtual void reset() {reading = false; ANY(reset());}
	virtual void dump_left_data() const {if (fl) return; ANY(dump_left_data());}
	virtual bool parse_msg(size_t bytes, container_type& out)
	{
		bool re;
		reading = false;
		if (df) {re = df->parse_msg(bytes, out); if (F_UNSTRIPPED == framing) for (container_type::iterator i = out.begin(); i != out.end(); ++i) i->erase(0, ST_ASIO_HEAD_LEN); return re;}
		if (ps)
		{
			re = ps->parse_msg(bytes, out);
			if (F_PS_UNSTRIPPED == framing) for (container_type::iterator i = out.begin(); i != out.end(); ++i)
				if (i->size() > 7 && 0 == i->compare(0, 3, "<<[") && 0 == i->compare(i->size() - 4, 4, "]>>>")) *i = i->substr(3, i->size() - 7); else *i = "malformed: " + *i;
			return re;
		}
		if (u2f) {list<shared_buffer<ext::basic_buffer> > t; re = u2f->parse_msg(bytes, t); for (list<shared_buffer<ext::basic_buffer> >::iterator i = t.begin(); i != t.end(); ++i) out.push_back(std::string(i->data(), i->size())); return re;}
		if (u2) {list<shared_buffer<std::string> > t; re = u2->parse_msg(bytes, t); for (list<shared_buffer<std::string> >::iterator i = t.begin(); i != t.end(); ++i) out.push_back(std::string(i->data(), i->size())); return re;}
		list<ext::basic_buffer> t;
		re = fx ? fx->parse_msg(bytes, t) : nc ? nc->parse_msg(bytes, t) : fl->parse_msg(bytes, t);
		size_t skip = F_FLEX_UNSTRIPPED == framing ? ST_ASIO_HEAD_LEN : 0;
		for (list<ext::basic_buffer>::iterator i = t.begin(); i != t.end(); ++i) out.push_back(std::string(i->data() + skip, i->size() - skip));
		return re;
	}
	virtual size_t completion_condition(const boost::system::error_code& ec, size_t bytes) {return ANY(completion_condition(ec, bytes));}
	virtual buffer_type prepare_next_recv()
	{
		if (reading && m_on("C04")) sim_fail("C04.two_reads", "a read begins while another one is in progress");
		reading = true; ++reads;
		return ANY(prepare_next_recv());
	}
	virtual char* raw_data(msg_type& msg) const {return const_cast<char*>(msg.data());}
	virtual const char* raw_data(msg_ctype& msg) const {return msg.data();}
	virtual size_t raw_data_len(msg_ctype& msg) const {return msg.size();}
private:
	int framing;
	boost::shared_ptr<ext::unpacker<> > df; boost::shared_ptr<ext::flexible_unpacker<> > fx; boost::shared_ptr<ext::non_copy_unpacker> nc;
	boost::shared_ptr<ext::prefix_suffix_unpacker> ps; boost::shared_ptr<ext::fixed_length_unpacker> fl; boost::shared_ptr<ext::unpacker2<> > u2;
	typedef ext::unpacker2<shared_buffer<ext::basic_buffer>, ext::basic_buffer, ext::flexible_unpacker<> > u2f_type; boost::shared_ptr<u2f_type> u2f;
};

// ---------------------------------------------------------------- behaviour of the application callbacks, drawn per run
struct behaviour
{
	unsigned refuse_ppm, handle_delay_ppm, handle_delay_max_us;   // message handler
	unsigned cb_delay_ppm, cb_delay_max_us;                       // other callbacks
	unsigned echo_ppm;                                            // handler sends a message back
	unsigned shutdown_in_handler_ppm;
	unsigned throw_ppm;                                           // handler throws
	unsigned user_timer_ppm, user_post_ppm;                       // start a user timer / post from a callback
	unsigned hello_ppm;                                           // send messages from on_connect
	unsigned pop_on_error_ppm;
	int reconnect_limit;                                          // prepare_reconnect gives up after this many failures in a row, <0: never
	int reconnect_delay_ms;
	unsigned echo_size_max;
	unsigned budget;                                              // remaining echo/hello messages
	bool on_msg_take_all;
	volatile bool hold;                                           // nothing is accepted
	unsigned raw_refuse_ppm;                                      // messages of scripted peers
	bool sync_clean, sync_never_forever;                          // nothing fails; no endless synchronous calls
	int passive;                                                  // who requests messages (ST_ASIO_PASSIVE_RECV)
};
static behaviour B;
static bool g_single_item; // send functions which queue more than one item per message are not used
static bool g_stopping; // the application is stopping its service: it asks for no more reconnecting
static unsigned g_size_max = 200;
static uint64_t g_sync_ok[2]; // bytes of messages synchronous sends reported success for

inline unsigned pick_size()
{
	if (F_FIXED == g_framing) return g_fixed_len;
	unsigned lim = g_size_max;
	switch (sim_chooseT(SS_WORK3, 6)) {case 0: lim = 20; break; case 1: lim = 64; break; case 2: lim = lim / 4 + M_MIN_MSG; break; default: break;}
	if (lim > g_size_max) lim = g_size_max;
	unsigned n = M_MIN_MSG + sim_chooseT(SS_WORK3, lim + 1);
	return n > g_size_max ? g_size_max : n;
}

struct cbg {int o, k; cbg(int o_, int k_) : o(o_), k(k_) {m_cb_enter(o, k);} ~cbg() {m_cb_exit(o, k);}};
inline void maybe_delay(unsigned ppm, unsigned max_us) {if (ppm && sim_chanceT(SS_WORK4, ppm)) boost::this_thread::sleep_for(boost::chrono::microseconds(1 + sim_chooseT(SS_WORK4, max_us)));}

struct handler_error : public std::runtime_error {handler_error() : std::runtime_error("injected") {}};

template<typename Sock> static void beat_connect(Sock*);
template<typename Sock> static void beat_report(Sock*);
static void beat_close(int);
static volatile unsigned g_thrown; // exceptions of handlers, counted before they are thrown
template<typename Base> class rec : public Base
{
public:
	typedef Base base_type;
	int mobj, chan, robj, is_server;
	unsigned fails;      // consecutive failed connection attempts
	unsigned sum_connect_gen;
	bool may_throw;
	volatile bool no_reconnect; // the application has asked for no more reconnecting (checked by C08)
	uint64_t no_reconnect_at, no_reconnect_stall;
	unsigned requests;   // of reads (ST_ASIO_PASSIVE_RECV)
	time_t last_tx;      // when tx() was called last
	unsigned last_id;    // of tx, meaningful with one sending thread
	std::string part[5]; // parts of messages whose fate is being reported
	unsigned backlog;    // messages left by on_msg (ST_ASIO_SYNC_DISPATCH)
	rawconn* rawc;       // the peer is scripted
	uint64_t raw_base_msgs, raw_base_bytes;

	template<typename A> rec(A& a, int is_server_) : Base(a) {rinit(is_server_);}
	template<typename A, typename A2> rec(A& a, A2& a2, int is_server_) : Base(a, a2) {rinit(is_server_);}
	void rinit(int s)
	{
		is_server = s; mobj = m_obj(s ? "server socket" : "client socket"); fails = 0; sum_connect_gen = 0; may_throw = false; no_reconnect = false; no_reconnect_at = no_reconnect_stall = 0; backlog = 0; last_id = 0; last_tx = 0; requests = 0; rawc = NULL; raw_base_msgs = raw_base_bytes = 0;
		chan = m_chan(s ? "server->client" : "client->server"); robj = m_robj(s ? "server socket" : "client socket", s ? -2 : -1);
	}
	virtual ~rec() {m_obj_destroyed(mobj);}

	bool tx(unsigned size, bool can_overflow, int mode = 0, bool prior = false)
	{
		char buf[4200];
		unsigned id = m_begin(chan, size, prior ? MF_PRIOR : 0, buf); last_id = id;
		int c = chan;
		bool ok = false;
		if (g_single_item && mode >= 1 && mode <= 3) mode = 0;
		last_tx = time(NULL);
		switch (mode)
		{
		default: ok = this->send_msg((const char*) buf, size, can_overflow, prior); break;
		case 1: {std::string s(buf, size); ok = this->send_msg(s, can_overflow, prior);} break;             // header + body as two items
		case 2: {const std::string s(buf, size); ok = this->send_msg(s, can_overflow, prior);} break;
		case 3: {std::string a(buf, 5), b(buf + 5, size - 5); ok = this->send_msg(a, b, can_overflow, prior);} break;
		case 4: {const char* p[3] = {buf, buf + 7, buf + 11}; const size_t l[3] = {7, 4, size - 11}; ok = this->send_msg(p, l, 3, can_overflow, prior);} break;
		case 5: {std::string m; const char* p[1] = {buf}; const size_t l[1] = {size}; this->packer()->pack_msg(m, p, l, 1, false); ok = this->direct_send_msg(m, can_overflow, prior);} break;
		case 6: ok = this->safe_send_msg((const char*) buf, size, can_overflow, prior); break;
#ifdef ST_ASIO_SYNC_SEND
		case 8: case 9: case 10: case 11: case 12: case 13: return tx_sync(buf, size, can_overflow, mode, prior, c, id);
#endif
		case 7: {std::string m; const char* p[1] = {buf}; const size_t l[1] = {size}; this->packer()->pack_msg(m, p, l, 1, false); ok = this->send_native_msg(m.data(), m.size(), can_overflow, prior);} break;
		}
		m_end(c, id, ok);
		return ok;
	}

#ifdef ST_ASIO_SYNC_SEND
	sync_call_result last_sync;
	bool tx_sync(char* buf, unsigned size, bool of, int mode, bool prior, int c, unsigned id)
	{
		static const unsigned durs[] = {0, 0, 1, 30, 500, 5000};
		unsigned dur = durs[sim_chooseT(SS_WORK, 6)];
		if (B.sync_never_forever && 0 == dur) dur = 2000;
		if (g_single_item && (9 == mode || 12 == mode)) mode = 8;
		unsigned closes = m_obj_closes(mobj);
		uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
		sync_call_result r = NOT_APPLICABLE;
		switch (mode)
		{
		default: r = this->sync_send_msg((const char*) buf, size, dur, of, prior); break;
		case 9: {std::string s(buf, size); r = this->sync_send_msg(s, dur, of, prior);} break;
		case 10: r = this->sync_safe_send_msg((const char*) buf, size, dur, of, prior); break;
		case 11: {std::string m; const char* p[1] = {buf}; const size_t l[1] = {size}; this->packer()->pack_msg(m, p, l, 1, false); r = this->direct_sync_send_msg(m, dur, of, prior);} break;
		case 12: {std::string a(buf, 5), b(buf + 5, size - 5); r = this->sync_send_msg(a, b, dur, of, prior);} break;
		case 13: {std::string m; const char* p[1] = {buf}; const size_t l[1] = {size}; this->packer()->pack_msg(m, p, l, 1, false); r = this->sync_send_native_msg(m.data(), m.size(), dur, of, prior);} break;
		}
		uint64_t dt = sim_now_ns() - t0;
		sync_sent(size, r, dt, s0, dur, of, mode, closes);
		m_end(c, id, NOT_APPLICABLE == r ? 2 : 1);
		last_sync = r;
		return NOT_APPLICABLE != r;
	}
	virtual void sync_sent(unsigned size, sync_call_result r, uint64_t dt, uint64_t s0, unsigned dur, bool of, int mode, unsigned closes)
	{
		sim_probe(SUCCESS == r ? "c14.send_success" : TIMEOUT == r ? "c14.send_timeout" : "c14.send_failed");
		if (!m_on("C14")) return;
		if (SUCCESS != r && TIMEOUT != r && NOT_APPLICABLE != r) sim_fail("C14.send_result", "a synchronous send returned %d", (int) r);
		if (TIMEOUT == r && (0 == dur || dt + 1000000 < dur * 1000000ull)) sim_fail("C14.send_early_timeout", "a synchronous send with a limit of %u ms timed out after %u ms", dur, (unsigned) (dt / 1000000));
		if (dur > 0 && 10 != mode && dt > dur * 1000000ull + 1500000000ull + (sim_stall_ns() - s0)) sim_fail("C14.send_late", "a synchronous send with a limit of %u ms returned after %u ms", dur, (unsigned) (dt / 1000000));
		if (NOT_APPLICABLE == r && of && B.sync_clean) sim_fail("C14.send_failed_healthy", "a synchronous send failed although the link is up and it may overflow the buffer");
		if (SUCCESS == r && B.sync_clean)
		{
			sim_nopreempt(1);
			uint64_t sent = sim_net_stream_bytes_sent(5051, is_server), need = (g_sync_ok[is_server] += size);
			sim_nopreempt(-1);
			if (sent < need) sim_fail("C14.send_not_on_wire", "synchronous sends reported success for %u bytes of messages, only %u bytes were written", (unsigned) need, (unsigned) sent);
		}
	}
#endif

	void user_async()
	{
		if (B.user_timer_ppm && sim_chanceT(SS_WORK4, B.user_timer_ppm))
		{
			static int n;
			typename Base::tid id = (typename Base::tid) (Base::TIMER_END + 20 + (n++ % 100));
			if (!this->is_timer(id)) this->set_timer(id, 1 + sim_chooseT(SS_WORK4, 80), boost::bind(&rec::on_user_timer, this, boost::placeholders::_1));
		}
		if (B.user_post_ppm && sim_chanceT(SS_WORK4, B.user_post_ppm)) this->post(boost::bind(&rec::on_user_post, this));
	}
	bool on_user_timer(unsigned short) {cbg g(mobj, CB_TIMER); sim_probe("user_timer_ran"); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); return 0 == sim_chooseT(SS_WORK4, 3);}
	void on_user_post() {cbg g(mobj, CB_POST); sim_probe("user_post_ran"); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us);}

#ifdef ST_ASIO_PASSIVE_RECV
	void request() {sim_nopreempt(1); ++requests; sim_nopreempt(-1); this->recv_msg();}
#endif
	virtual void shut(bool graceful) = 0;
	virtual unsigned short target_port() {return 0;} // of a client
	void forced_from_callback() {sim_probe("shutdown_in_callback"); shut(0 == sim_chooseT(SS_WORK4, 2));}

	// a message may be queued as several items (header, body...), callbacks report items
	template<typename Can> void fates(int fate, Can& can) {for (typename Can::iterator i = can.begin(); i != can.end(); ++i) fate_item(fate, i->data(), i->size());}
	template<typename Can> void fates_once(int fate, Can& can) {std::string all; for (typename Can::iterator i = can.begin(); i != can.end(); ++i) all.append(i->data(), i->size()); m_fate_scan(chan, fate, all.data(), all.size());}
	void fate_item(int fate, const char* d, size_t n) {part[fate].append(d, n); part[fate].erase(0, m_fate_scan(chan, fate, part[fate].data(), part[fate].size()));}

	void raw_take(const char* d, size_t n) {sim_nopreempt(1); rawc->msgs.push_back(std::string(d, n)); sim_nopreempt(-1);}
	virtual void raw_msg(const char* d, size_t n) {}
	virtual void raw_who() {}
	void raw_begin()
	{
		boost::system::error_code ec;
		rawc = NULL;
		if (is_server) rawc = raw_get(this->lowest_layer().remote_endpoint(ec).port(), false);
		else if (g_raw_cli && 5060 == target_port()) rawc = raw_get(this->lowest_layer().local_endpoint(ec).port(), true);
		if (rawc) {raw_who(); ++rawc->connects; raw_base_msgs = this->get_statistic().recv_msg_sum; raw_base_bytes = this->get_statistic().recv_byte_sum;}
	}
	void raw_stat() {if (rawc) {rawc->stat_msgs = this->get_statistic().recv_msg_sum - raw_base_msgs; rawc->stat_bytes = this->get_statistic().recv_byte_sum - raw_base_bytes;}}
	void not_a_beat(size_t n) {if (0 == n && m_on("C09")) sim_fail("C09.heartbeat_handed_over", "an empty message (a heartbeat) has been handed to the application");}
	bool handle_one(const char* d, size_t n) // true: accepted
	{
		not_a_beat(n);
		if (rawc && n > 0) {maybe_delay(B.handle_delay_ppm, B.handle_delay_max_us); if (B.raw_refuse_ppm && sim_chanceT(SS_WORK2, B.raw_refuse_ppm)) {sim_probe("refused"); return false;} raw_take(d, n); raw_msg(d, n); return true;}
		maybe_delay(B.handle_delay_ppm, B.handle_delay_max_us);
		if (0 == n) {return true;} // PASSIVE_RECV's empty message
		bool refuse = B.hold || B.refuse_ppm && sim_chanceT(SS_WORK2, B.refuse_ppm);
		m_offer(robj, d, n, !refuse);
		if (refuse) {sim_probe("refused"); return false;}
		m_deliver(robj, d, n);
		if (B.echo_ppm && B.budget && sim_chanceT(SS_WORK2, B.echo_ppm)) {--B.budget; tx(pick_size(), true);}
		if (B.shutdown_in_handler_ppm && sim_chanceT(SS_WORK2, B.shutdown_in_handler_ppm)) forced_from_callback();
		user_async();
		return true;
	}

protected:
	virtual bool do_start()
	{
		m_obj_started(mobj); ++requests;
		m_cb_enter(mobj, CB_DO_START);
		bool re = Base::do_start();
		m_cb_exit(mobj, CB_DO_START);
		return re;
	}
	virtual void on_connect()
	{
		cbg g(mobj, CB_CONNECT);
		fails = 0; ++sum_connect_gen;
		if (m_on("C09")) beat_connect(this);
		raw_begin();
		if (!is_server && no_reconnect && m_on("C08") && no_reconnect_at + 400000000ull + sim_stall_ns() < sim_now_ns())
			sim_fail("C08.connected_after_no", "client socket connected although reconnecting was disabled %llu ms ago", (unsigned long long) ((sim_now_ns() - no_reconnect_at) / 1000000));
		maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us);
		while (B.hello_ppm && B.budget && sim_chanceT(SS_WORK2, B.hello_ppm)) {--B.budget; sim_probe("hello_sent"); tx(pick_size(), true);}
		user_async();
#ifdef ST_ASIO_PASSIVE_RECV
		on_connect_passive();
#endif
		Base::on_connect();
	}
#ifdef ST_ASIO_PASSIVE_RECV
	virtual void on_connect_passive() {}
#endif

#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<std::string>& can)
	{
		cbg g(mobj, CB_ON_MSG);
		size_t n = 0;
		if (!B.hold && (B.on_msg_take_all || 0 == backlog))
			while (!can.empty() && (B.on_msg_take_all || sim_chanceT(SS_WORK2, 700000)))
			{
				not_a_beat(can.front().size());
				if (rawc && !can.front().empty()) {raw_take(can.front().data(), can.front().size()); raw_msg(can.front().data(), can.front().size());} else if (!can.front().empty()) m_deliver(robj, can.front().data(), can.front().size());
				can.pop_front(); ++n;
			}
		maybe_delay(B.handle_delay_ppm, B.handle_delay_max_us);
		sim_nopreempt(1); backlog += (unsigned) can.size(); sim_nopreempt(-1);
		if (n) sim_probe("on_msg_took");
		if (!can.empty()) sim_probe("on_msg_left");
		return n;
	}
	void backlog_sub(unsigned n) {sim_nopreempt(1); backlog -= n; sim_nopreempt(-1);}
#else
	void backlog_sub(unsigned) {}
#endif

#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	struct peek {size_t n; std::string first; peek() : n(0) {}};
	struct peeker {peek* p; peeker(peek* p_) : p(p_) {} void operator()(const std::string& m) const {if (0 == p->n++) p->first = m;}};
	virtual size_t on_msg_handle(typename Base::out_queue_type& q)
	{
		cbg g(mobj, CB_HANDLER);
		if (rawc) {typename Base::out_msg m; size_t n = 0; while (m.clear(), q.try_dequeue(m)) {raw_take(m.data(), m.size()); raw_msg(m.data(), m.size()); ++n;} maybe_delay(B.handle_delay_ppm, B.handle_delay_max_us); return n;}
		peek p; q.do_something_to_all(peeker(&p));
		m_offer_batch_begin(robj, (unsigned) p.n, p.first.data(), p.first.size());
		maybe_delay(B.handle_delay_ppm, B.handle_delay_max_us);
		size_t n = 0;
		if (B.hold || (B.refuse_ppm && sim_chanceT(SS_WORK2, B.refuse_ppm))) sim_probe("refused");
		else
		{
			if (p.n > 1) sim_probe("batch");
			size_t want = 1 + sim_chooseT(SS_WORK2, (unsigned) p.n);
			typename Base::out_msg m;
			while (n < want && (m.clear(), q.try_dequeue(m)))
			{
				++n; not_a_beat(m.size());
				m_deliver(robj, m.data(), m.size());
				if (B.echo_ppm && B.budget && sim_chanceT(SS_WORK2, B.echo_ppm)) {--B.budget; tx(pick_size(), true);}
			}
			if (B.shutdown_in_handler_ppm && sim_chanceT(SS_WORK2, B.shutdown_in_handler_ppm)) forced_from_callback();
			user_async();
		}
		m_offer_batch_end(robj, (unsigned) n);
		return n;
	}
#else
	virtual bool on_msg_handle(std::string& msg)
	{
		cbg g(mobj, CB_HANDLER);
#ifdef ST_ASIO_PASSIVE_RECV
		on_msg_handle_passive(msg.size());
#endif
		sim_nopreempt(1);
		bool toss = B.throw_ppm && may_throw && sim_chanceT(SS_WORK2, B.throw_ppm);
		if (toss) ++g_thrown;
		sim_nopreempt(-1);
		if (toss) {sim_probe("handler_threw"); throw handler_error();}
		bool re = handle_one(msg.data(), msg.size());
		if (re) backlog_sub(1);
		return re;
	}
#ifdef ST_ASIO_PASSIVE_RECV
	virtual void on_msg_handle_passive(size_t) {if (0 == B.passive || (B.passive & 1)) request();}
#endif
#endif

#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(std::string& msg) {cbg g(mobj, CB_SEND_CB); fate_item(FATE_SENT, msg.data(), msg.size()); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); more_from_callback();}
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	virtual void on_msg_send(typename Base::in_container_type& can)
	{
		cbg g(mobj, CB_SEND_CB);
		fates(FATE_SENT, can);
		maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us);
		if (sim_chanceT(SS_WORK4, 200000)) can.clear(); // allowed: "using inconstant reference is for the ability of swapping"
		more_from_callback();
	}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(std::string&) {cbg g(mobj, CB_ALL_SENT); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); more_from_callback();}
#endif
	void more_from_callback() {if (B.echo_ppm && B.budget && sim_chanceT(SS_WORK2, B.echo_ppm / 4)) {--B.budget; sim_probe("sent_in_send_callback"); tx(pick_size(), true);}}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual void on_msg_discard(typename Base::in_container_type& can)
	{
		sim_probe("discarded");
		fates_once(FATE_DISCARD, can); // called in the sending threads, maybe concurrently
	}
#endif
	virtual void on_send_error(const boost::system::error_code& ec, typename Base::in_container_type& can)
	{
		cbg g(mobj, CB_SEND_ERR);
		sim_probe("send_error");
		fates(FATE_ERR, can);
		maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us);
		Base::on_send_error(ec, can);
	}
	virtual void on_recv_error(const boost::system::error_code& ec) {cbg g(mobj, CB_RECV_ERR); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); user_async(); Base::on_recv_error(ec);}
	virtual void on_unpack_error() {cbg g(mobj, CB_UNPACK_ERR); sim_probe("unpack_error"); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); unpack_error_seen(); Base::on_unpack_error();}
	virtual void unpack_error_seen() {if (rawc) ++rawc->unpack_errors; else if (m_on("C01")) sim_fail("C01.unpack_error", "unpack error on a stream made of valid messages only");}
	virtual void on_async_shutdown_error() {cbg g(mobj, CB_SHUT_ERR); sim_probe("async_shutdown_error"); maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); Base::on_async_shutdown_error();}
	virtual bool on_heartbeat_error() {cbg g(mobj, CB_HB_ERR); sim_probe("heartbeat_error"); heartbeat_error_seen(); return Base::on_heartbeat_error();}
	virtual void heartbeat_error_seen() {if (m_on("C09")) beat_report(this);}
	virtual void on_close()
	{
		cbg g(mobj, CB_CLOSE);
		raw_stat(); if (rawc) ++rawc->closes;
		if (m_on("C09")) beat_close(mobj);
		maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us);
		Base::on_close();
	}
	virtual void after_close() {cbg g(mobj, CB_AFTER_CLOSE); Base::after_close();}
};

// ---------------------------------------------------------------- server side
typedef st_asio_wrapper::tcp::server_socket_base<any_packer, any_unpacker> srv_base;
class srv;
class srv_sock : public rec<srv_base>
{
public:
	srv_sock(st_asio_wrapper::tcp::i_server& s) : rec<srv_base>(s, 1), udata(0), claims(0), restored_from(-1), removed(false), held(0), live_id(0), extra_refs(0) {sim_nopreempt(1); ++alive(); sim_nopreempt(-1);}
	~srv_sock()
	{
		sim_nopreempt(1); --alive(); sim_nopreempt(-1);
		if (m_on("C11") && m_obj_open(mobj)) sim_fail("C11.freed_unfinished", "a connection object is freed before its link was closed");
	}
	virtual void reset()
	{
		if (m_on("C11") && (held || m_obj_open(mobj))) sim_fail("C11.reused_too_early", "a connection object is reused although %s", held ? "the application still refers to it" : "it is not finished");
		removed = false; extra_refs = 0;
		udata = 0; claims = 0;
		m_obj_reset(mobj); m_robj_forget_refusal(robj); chan = m_chan("server->client"); robj = m_robj("server socket", -2); backlog = 0; sim_probe("object_reused"); rec<srv_base>::reset();
	}
	virtual void shut(bool graceful) {graceful ? this->graceful_shutdown() : this->force_shutdown();}
	virtual void take_over(boost::shared_ptr<type_of_object_restore> p) {restored_from = static_cast<srv_sock*>(p.get())->mobj; sim_probe("taken_over"); if (hooks().take_over) hooks().take_over(this, static_cast<srv_sock*>(p.get()));}
	struct hook_t {void (*connect)(srv_sock*); void (*take_over)(srv_sock*, srv_sock*); void (*close)(srv_sock*); void (*msg)(srv_sock*, const char*, size_t);};
	static hook_t& hooks() {static hook_t h = {NULL, NULL, NULL, NULL}; return h;}
	srv& owner();
	int udata; unsigned claims; // C12
	int restored_from;
	volatile bool removed; // the application took it out of the table
	volatile int held;     // references held by the application
	uint64_t live_id; unsigned extra_refs;
	static unsigned& extra_ppm() {static unsigned n = 0; return n;}
	static int& alive() {static int n = 0; return n;}
	static std::map<uint64_t, srv_sock*>& live() {static std::map<uint64_t, srv_sock*> m; return m;}
	static bool& keep_all() {static bool b = false; return b;}
	static std::vector<boost::shared_ptr<srv_sock> >& kept() {static std::vector<boost::shared_ptr<srv_sock> > v; return v;}
	static bool& echo_raw() {static bool b = false; return b;}
	void in_table(const char* where)
	{
		if (!m_on("C11") || removed) return;
		boost::shared_ptr<tracked_executor> p = this->get_server().find_socket(this->id());
		if (!removed && p.get() != static_cast<tracked_executor*>(this))
			sim_fail("C11.not_in_table", "%s: connection %llu is not found under its id%s", where, (unsigned long long) this->id(), p ? " (another one is)" : "");
	}
protected:
	virtual void on_connect()
	{
		if (m_on("C11"))
		{
			sim_nopreempt(1);
			live_id = this->id(); std::map<uint64_t, srv_sock*>& l = live();
			if (l.count(live_id)) sim_fail("C11.id_not_unique", "two live connections have the id %llu", (unsigned long long) live_id);
			l[live_id] = this;
			sim_nopreempt(-1);
			in_table("on_connect");
		}
		if (keep_all()) {sim_nopreempt(1); kept().push_back(boost::dynamic_pointer_cast<srv_sock>(this->shared_from_this())); sim_nopreempt(-1);}
		if (hooks().connect) hooks().connect(this);
		rec<srv_base>::on_connect();
		if (extra_ppm() && sim_chanceT(SS_WORK2, extra_ppm())) {unsigned n = 1 + sim_chooseT(SS_WORK2, 5); this->add_io_context_refs(n); extra_refs = n; if (sim_chooseT(SS_WORK2, 2)) {this->sub_io_context_refs(1); --extra_refs;}}
		if (rawc && echo_raw()) this->send_msg("hi!", 3, true);
	}
	virtual void raw_who() {this->rawc->srv = this;}
	virtual void raw_msg(const char* d, size_t n) {if (hooks().msg) hooks().msg(this, d, n); if (echo_raw()) {in_table("handler"); this->send_msg(d, n, true);}}
	virtual void on_recv_error(const boost::system::error_code& ec) {in_table("on_recv_error"); rec<srv_base>::on_recv_error(ec);}
	virtual void on_close()
	{
		in_table("on_close");
		if (m_on("C11")) {sim_nopreempt(1); live().erase(live_id); sim_nopreempt(-1);}
		uint64_t me = this->id();
		if (hooks().close) hooks().close(this);
		rec<srv_base>::on_close();
#ifndef ST_ASIO_CLEAR_OBJECT_INTERVAL
		if (m_on("C11") && this->get_server().socket_exist(me)) sim_fail("C11.not_removed", "connection %llu is still in the table after it ended", (unsigned long long) me);
#endif
	}
};

class srv : public st_asio_wrapper::tcp::server_base<srv_sock>
{
public:
	typedef st_asio_wrapper::tcp::server_base<srv_sock> super;
	srv(service_pump& p) : super(p), accepts(0), accept_errors(0), rejects(0), reject_ppm(0), accept_num(2), tolerate_errors(true) {}
	unsigned accepts, accept_errors, rejects, reject_ppm; int accept_num; bool tolerate_errors;
	virtual int async_accept_num() {return accept_num;}
	virtual bool on_accept(object_ctype& p) {++accepts; maybe_delay(B.cb_delay_ppm, B.cb_delay_max_us); if (reject_ppm && sim_chanceT(SS_WORK4, reject_ppm)) {++rejects; return false;} return true;}
	virtual bool on_accept_error(const boost::system::error_code& ec, object_ctype& p)
	{
		if (boost::asio::error::operation_aborted == ec || !tolerate_errors) return super::on_accept_error(ec, p);
		++accept_errors; sim_probe("accept_error"); return true;
	}
};

inline srv& srv_sock::owner() {return static_cast<srv&>(this->get_server());}

// ---------------------------------------------------------------- client side
typedef st_asio_wrapper::tcp::client_socket_base<any_packer, any_unpacker> cli_base;
class cli_sock : public rec<cli_base>
{
public:
	template<typename A> cli_sock(A& a) : rec<cli_base>(a, 0), retry_at(0) {}
	uint64_t retry_at; // a retry must not start before
	virtual void reset() {m_obj_reset(mobj); m_robj_forget_refusal(robj); if (m_on("C12")) {chan = m_chan("client->server"); robj = m_robj("client socket", -1);} sim_probe("object_reused"); no_reconnect = may_throw = false; retry_at = 0; fails = 0; rec<cli_base>::reset();}
	using rec<cli_base>::is_reconnect;
	// an application that shuts a client down from several threads must make up its mind about reconnecting:
	// once it said "no" (the object leaves its pool then), it does not say "yes" again
	virtual void shut(bool graceful) {shut2(graceful, true);}
	virtual unsigned short target_port() {return this->get_server_addr().port();}
	void shut2(bool graceful, bool reconnect)
	{
		sim_nopreempt(1);
		bool first = !reconnect && !no_reconnect;
		if (first) {no_reconnect_at = 1ull << 62; no_reconnect = true;}
		bool re = !no_reconnect && !g_stopping;
		if (graceful) this->graceful_shutdown(re); else if (sim_chooseT(SS_WORK, 2)) this->force_shutdown(re); else this->disconnect(re);
		if (first) {no_reconnect_at = sim_now_ns(); no_reconnect_stall = sim_stall_ns();} // counts from the end of the call
		sim_nopreempt(-1);
	}
protected:
	virtual int prepare_reconnect(const boost::system::error_code& ec)
	{
		cbg g(mobj, CB_PREPARE_RECONNECT);
		sim_probe("prepare_reconnect");
		++fails;
		retry_at = 0;
		if (B.reconnect_limit >= 0 && (int) fails > B.reconnect_limit) {no_reconnect = true; no_reconnect_at = sim_now_ns(); no_reconnect_stall = sim_stall_ns(); sim_probe("gave_up"); return -1;}
		retry_at = sim_now_ns() + B.reconnect_delay_ms * 1000000ull;
		return B.reconnect_delay_ms;
	}
	virtual void raw_who() {this->rawc->cli = this;}
	virtual bool do_start() {retry_at = 0; return rec<cli_base>::do_start();}
	virtual bool bind() // called right before every connection attempt
	{
		if (retry_at && m_on("C08") && sim_now_ns() + 1000000 < retry_at) sim_fail("C08.retry_too_early", "retry %llu us before the requested delay is over", (unsigned long long) ((retry_at - sim_now_ns()) / 1000));
		retry_at = 0;
		return rec<cli_base>::bind();
	}
};
typedef st_asio_wrapper::tcp::multi_client_base<cli_sock> cli_pool;

class pump : public service_pump
{
public:
	pump() : exceptions(0), end_budget(0), ended(0) {}
	unsigned exceptions; int end_budget, ended;
protected:
#ifndef ST_ASIO_NO_TRY_CATCH
	virtual bool on_exception(const std::exception& e) {++exceptions; if (end_budget > 0) {--end_budget; ++ended; return false;} return true;}
#endif
};
#endif
