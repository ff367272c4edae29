// C15: datagram sockets. Every datagram entering and leaving the simulated network is compared with what the application sent and was given.
#ifndef ST_ASIO_SERVICE_THREAD_NUM
#define ST_ASIO_SERVICE_THREAD_NUM 2
#endif
#include "common.h"
#ifndef ST_ASIO_FREE_OBJECT_INTERVAL
#define ST_ASIO_FREE_OBJECT_INTERVAL 10
#endif
#include "ext/udp.h"
#include <boost/thread.hpp>
#include <vector>
#include <deque>
#include <map>
#include <string>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include "model.h"
using namespace st_asio_wrapper;
const char* sim_harness_name() {return VARIANT;}
static unsigned K(unsigned n) {return sim_choose(SS_KNOB, n);}
static unsigned W(unsigned n) {return sim_chooseT(SS_WORK, n);}
static void sleep_us(unsigned us) {boost::this_thread::sleep_for(boost::chrono::microseconds(us));}
static void sleep_ms(unsigned ms) {sleep_us(ms * 1000);}
struct nopre {nopre() {sim_nopreempt(1);} ~nopre() {sim_nopreempt(-1);}};
inline void maybe_delay(unsigned ppm, unsigned max_us) {if (ppm && sim_chanceT(SS_WORK4, ppm)) sleep_us(1 + sim_chooseT(SS_WORK4, max_us));}

#ifdef H_UNIX
typedef st_asio_wrapper::udp::unix_socket_base<ext::packer<>, ext::udp_unpacker> ubase;
typedef boost::asio::local::datagram_protocol::endpoint uep;
static std::string path_of(unsigned no) {char b[40]; snprintf(b, sizeof b, "/simulated/u-%u", no); return b;}
static uep ep_of(unsigned no) {return uep(path_of(no));}
static unsigned no_of(const uep& e) {std::string p = e.path(); return p.size() > 13 ? (unsigned) atoi(p.c_str() + 13) : 0;}
#else
typedef st_asio_wrapper::udp::socket_base<ext::packer<>, ext::udp_unpacker> ubase;
typedef boost::asio::ip::udp::endpoint uep;
static uep ep_of(unsigned no) {uep e; ubase::set_addr(e, (unsigned short) no, "127.0.0.1"); return e;}
static unsigned no_of(const uep& e) {return e.port();}
#endif

// ---------------------------------------------------------------- model
enum {ST_CALLING, ST_ACCEPTED, ST_REFUSED, ST_UNKNOWN};
struct dg_out {std::string wire; unsigned dst; uint64_t begin, end; int st; bool prior, sent, failed, notified;};
struct dg_in {std::string data; unsigned src; bool optional;};
class usock;
struct side {std::vector<dg_out> o; std::deque<dg_in> in; bool open, closing, connected; unsigned peer; uint64_t handed, sent, failed; side() : open(false), closing(false), connected(false), peer(0), handed(0), sent(0), failed(0) {}};
static std::map<unsigned, side> g_s;
static uint64_t g_seq, g_moves;
static bool g_unique = true;
static unsigned g_refuse, g_hdelay, g_cdelay, g_echo, g_budget, g_shut;
static bool g_hold, g_reuse_no;

static std::string show(const std::string& d) {char b[80]; unsigned h = 0; for (size_t i = 0; i < d.size(); ++i) h = h * 31 + (unsigned char) d[i]; snprintf(b, sizeof b, "%u bytes (%08x)", (unsigned) d.size(), h); return b;}
static dg_out* out_find(side& s, const std::string& d, int dst, bool sent, bool failed, bool unnotified)
{
	for (size_t i = 0; i < s.o.size(); ++i) {dg_out& o = s.o[i]; if (o.sent == sent && o.failed == failed && (!unnotified || !o.notified) && ST_REFUSED != o.st && (dst < 0 || o.dst == (unsigned) dst) && o.wire == d) return &o;}
	return NULL;
}
static void leave(unsigned src, side& s, dg_out& o, const char* how) // it left the send buffer: nothing accepted earlier may still be there
{
	if (!o.prior) for (size_t i = 0; i < s.o.size(); ++i)
	{
		dg_out& e = s.o[i];
		if (!e.sent && !e.failed && ST_ACCEPTED == e.st && e.end < o.begin)
			sim_fail("C15.order", "socket %u: a datagram of %s %s although one accepted before it was offered (%s) is still waiting", src, show(o.wire).c_str(), how, show(e.wire).c_str());
	}
	++g_moves;
}
static void on_wire(unsigned src, unsigned dst, const std::string& d)
{
	std::map<unsigned, side>::iterator i = g_s.find(src);
	if (i == g_s.end()) return; // a scripted peer
	side& s = i->second;
	dg_out* o = out_find(s, d, (int) dst, false, false, false);
	if (NULL == o)
	{
		if (out_find(s, d, (int) dst, true, false, false)) sim_fail("C15.sent_twice", "socket %u gives a datagram (%s) to the network again", src, show(d).c_str());
		if (out_find(s, d, (int) dst, false, true, false)) sim_fail("C15.sent_after_error", "socket %u: a datagram reported as failed (%s) is sent", src, show(d).c_str());
		if (out_find(s, d, -1, false, false, false)) sim_fail("C15.misdirected", "socket %u: a datagram (%s) goes to %u, it was not sent for that address", src, show(d).c_str(), dst);
		sim_fail("C15.unknown_sent", "socket %u sends a datagram to %u which the application did not ask for (%s)", src, dst, show(d).c_str());
	}
	o->sent = true; ++s.sent;
	leave(src, s, *o, "is sent");
}
static void tap(const void* p, size_t n, unsigned src, unsigned dst, int what)
{
	nopre np;
	std::string d((const char*) p, n);
	if (0 == what) on_wire(src, dst, d);
	else if (1 == what && n > 0 && g_s.count(dst)) {dg_in g; g.data = d; g.src = src; g.optional = false; side& s = g_s[dst]; if (s.open) s.in.push_back(g);}
}

static std::string fill(unsigned size)
{
	static unsigned id;
	std::string s(size, 0);
	nopre np;
	unsigned me = ++id, x = me * 2654435761u + size;
	for (unsigned i = 0; i < size; ++i) {x = x * 1664525u + 1013904223u; s[i] = (char) (x >> 24);}
	for (unsigned i = 0; i < 4 && size >= 8; ++i) s[i] = (char) (me >> 8 * i);
	return s;
}
static unsigned g_max = 200;
static unsigned pick()
{
	switch (W(6)) {case 0: return g_unique ? 8 : 1 + W(5); case 1: return 8 + W(10); case 2: return g_max; case 3: return 8 + W(g_max / 2 + 1); default: return 8 + W(g_max - 7);}
}

// ---------------------------------------------------------------- sockets
typedef ubase::out_msg_type omsg;
typedef ubase::in_msg_type imsg;
class usock : public ubase
{
public:
	unsigned no; int mobj; volatile bool in_handler, was_closed, off; unsigned starts, closes, recv_errors; bool stopping;
	template<typename A> usock(A& a) : ubase(a), no(0), mobj(m_obj("udp socket")), in_handler(false), was_closed(false), off(false), starts(0), closes(0), recv_errors(0), stopping(false) {}
	~usock() {m_obj_destroyed(mobj);}
	virtual void reset() {m_obj_reset(mobj); sim_probe("object_reused"); was_closed = off = false; starts = closes = recv_errors = 0; ubase::reset();}
	void setup(unsigned n, unsigned peer, bool conn)
	{
		{nopre np; no = n; side& s = g_s[n]; s.connected = conn = conn || this->get_connect_mode(); /* a reused object keeps the mode */ s.peer = peer;}
#ifdef H_UNIX
		this->set_local_addr(path_of(n)); this->set_peer_addr(path_of(peer));
#else
		this->set_local_addr((unsigned short) n, "127.0.0.1"); this->set_peer_addr((unsigned short) peer, "127.0.0.1");
#endif
		if (conn) this->set_connect_mode();
	}
	// forms: how the message is given to the library
	bool tx(unsigned dst, unsigned size, bool of, unsigned form, bool prior)
	{
		std::string body = fill(size), wire = body;
		size_t at;
		bool native = !(1 == form || 6 == form);
		if (!native) {imsg m; const char* p[1] = {body.data()}; const size_t l[1] = {body.size()}; ext::packer<> pk; pk.pack_msg(m, p, l, 1, false); wire.assign(m.data(), m.size());}
		{
			nopre np; side& s = g_s[no];
			if (s.connected) dst = s.peer;
			dg_out o; o.wire = wire; o.dst = dst; o.begin = ++g_seq; o.end = 0; o.st = ST_CALLING; o.prior = prior; o.sent = o.failed = o.notified = false;
			at = s.o.size(); s.o.push_back(o);
		}
		uep e = ep_of(dst);
		bool ok = false, unknown = false;
		bool dflt = dst == no_of(this->get_peer_addr()) && W(2);
		switch (form)
		{
		default: ok = dflt ? this->send_native_msg(body.data(), body.size(), of, prior) : this->send_native_msg(e, body.data(), body.size(), of, prior); break;
		case 1: ok = dflt ? this->send_msg(body.data(), body.size(), of, prior) : this->send_msg(e, body.data(), body.size(), of, prior); break;
		case 2: ok = dflt ? this->send_native_msg(body, of, prior) : this->send_native_msg(e, body, of, prior); break;
		case 3: {size_t c = size / 2; const char* p[2] = {body.data(), body.data() + c}; const size_t l[2] = {c, size - c}; ok = dflt ? this->send_native_msg(p, l, 2, of, prior) : this->send_native_msg(e, p, l, 2, of, prior);} break;
		case 4: {imsg m(e, body); ok = this->direct_send_msg(m, of, prior);} break;
		case 5: ok = this->safe_send_native_msg(e, body.data(), body.size(), of, prior); break;
		case 6: ok = this->safe_send_msg(e, body.data(), body.size(), of, prior); break;
#ifdef ST_ASIO_SYNC_SEND
		case 7:
		{
			sync_call_result r = this->sync_send_native_msg(e, body.data(), body.size(), 3000, of, prior);
			ok = NOT_APPLICABLE != r; unknown = NOT_APPLICABLE == r; sim_probe(SUCCESS == r ? "c15.sync_success" : TIMEOUT == r ? "c15.sync_timeout" : "c15.sync_failed");
			nopre np;
			if (SUCCESS == r && !g_s[no].o[at].sent) sim_fail("C15.sync_not_sent", "socket %u: a synchronous send reported success, the datagram has not been given to the network", no);
		} break;
#endif
		}
		nopre np; dg_out& o = g_s[no].o[at];
		o.end = ++g_seq; o.st = unknown ? ST_UNKNOWN : ok ? ST_ACCEPTED : ST_REFUSED;
		if (ST_REFUSED == o.st && (o.sent || o.failed)) sim_fail("C15.refused_but_sent", "socket %u: sending was refused, nevertheless the datagram (%s) was %s", no, show(wire).c_str(), o.sent ? "sent" : "reported as failed");
		sim_probe(ok ? "c15.accepted" : "c15.refused");
		return ok;
	}
	void shut() {{nopre np; off = true; g_s[no].closing = true;} W(2) ? this->force_shutdown() : W(2) ? this->disconnect() : this->graceful_shutdown();}
protected:
	virtual bool do_start()
	{
		{nopre np; side& s = g_s[no]; s.open = true; s.closing = false; ++starts; was_closed = off = false;}
		bool re = ubase::do_start();
		if (!re) sim_fail("C15.not_started", "socket %u cannot be started although nothing fails", no);
		return re;
	}
	void take(const omsg& m)
	{
		nopre np;
		side& s = g_s[no]; std::string d(m.data(), m.size()); unsigned src = no_of(m.peer_addr);
		if (was_closed) sim_fail("C15.handed_after_close", "socket %u: a datagram is handed over after on_close()", no);
		while (!s.in.empty() && s.in.front().optional && s.in.front().data != d) s.in.pop_front();
		if (s.in.empty()) sim_fail("C15.invented", "socket %u: %s from %u are handed over, everything the network delivered has been handed over before", no, show(d).c_str(), src);
		dg_in& g = s.in.front();
		if (g.data != d)
		{
			size_t k = 0; while (k < s.in.size() && s.in[k].data != d) ++k;
			if (k < s.in.size()) sim_fail("C15.skipped", "socket %u: %s are handed over, the network delivered %s before", no, show(d).c_str(), show(g.data).c_str());
			sim_fail("C15.altered", "socket %u: %s are handed over, the network delivered %s next", no, show(d).c_str(), show(g.data).c_str());
		}
		unsigned want = g.src;
		if (src != want) sim_fail("C15.wrong_sender", "socket %u: a datagram from %u is handed over with the sender address %u", no, want, src);
		s.in.pop_front(); ++s.handed; ++g_moves;
	}
	void enter() {nopre np; if (in_handler) sim_fail("C15.concurrent_handler", "socket %u: two message handlers run at once", no); in_handler = true;}
	void leave_() {nopre np; in_handler = false;}
	void after(const omsg& m)
	{
		if (g_echo && g_budget && sim_chanceT(SS_WORK2, g_echo)) {{nopre np; if (g_budget) --g_budget;} tx(no_of(m.peer_addr), pick(), true, W(5), false); sim_probe("c15.echo");}
		if (g_shut && sim_chanceT(SS_WORK2, g_shut)) {sim_probe("c15.shut_in_handler"); shut();}
	}
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<omsg>& can) {size_t n = 0; for (; !can.empty(); ++n) {omsg m; m.swap(can.front()); can.pop_front(); take(m); after(m);} maybe_delay(g_hdelay, 5000); return n;}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(ubase::out_queue_type& q)
	{
		enter(); maybe_delay(g_hdelay, 5000);
		size_t n = 0;
		if (g_hold || (g_refuse && sim_chanceT(SS_WORK2, g_refuse))) sim_probe("refused");
		else
		{
			size_t want = 1 + W(4);
			ubase::out_msg m;
			while (n < want && (m.clear(), q.try_dequeue(m))) {++n; take(m); after(m);}
		}
		leave_();
		return n;
	}
#else
	virtual bool on_msg_handle(omsg& m)
	{
		enter(); maybe_delay(g_hdelay, 5000);
#ifdef ST_ASIO_PASSIVE_RECV
		bool empty = m.empty();
		if (empty) {leave_(); this->recv_msg(); return true;}
#endif
		bool refuse = g_hold || (g_refuse && sim_chanceT(SS_WORK2, g_refuse));
		if (refuse) sim_probe("refused"); else {take(m); after(m);}
		leave_();
#ifdef ST_ASIO_PASSIVE_RECV
		if (!refuse) this->recv_msg();
#endif
		return !refuse;
	}
#endif
	virtual void on_send_error(const boost::system::error_code& ec, ubase::in_msg& m)
	{
		{
			nopre np; sim_probe("c15.send_error");
			side& s = g_s[no]; std::string d(m.data(), m.size());
			dg_out* o = out_find(s, d, s.connected ? (int) s.peer : (int) no_of(m.peer_addr), false, false, false);
			if (NULL == o)
			{
				if (out_find(s, d, -1, true, false, false)) sim_fail("C15.error_although_sent", "socket %u: a send error (%d) is reported for a datagram the network has taken (%s)", no, ec.value(), show(d).c_str());
				if (out_find(s, d, -1, false, true, false)) sim_fail("C15.error_twice", "socket %u: a send error (%d) is reported again for the same datagram (%s)", no, ec.value(), show(d).c_str());
				sim_fail("C15.error_unknown", "socket %u: a send error (%d) is reported for something that was not to be sent (%s)", no, ec.value(), show(d).c_str());
			}
			o->failed = true; ++s.failed; leave(no, s, *o, "failed");
		}
		maybe_delay(g_cdelay, 3000);
		ubase::on_send_error(ec, m);
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(imsg& m)
	{
		{
			nopre np; side& s = g_s[no]; std::string d(m.data(), m.size());
			dg_out* o = out_find(s, d, -1, true, false, true);
			if (NULL == o) sim_fail("C15.notify_unsent", "socket %u: on_msg_send for a datagram that has not been given to the network, or again (%s)", no, show(d).c_str());
			o->notified = true; sim_probe("c15.notified");
		}
		maybe_delay(g_cdelay, 3000);
	}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(imsg&) {sim_probe("c15.all_sent");}
#endif
	virtual void on_recv_error(const boost::system::error_code& ec)
	{
		++recv_errors; sim_probe("c15.recv_error");
		if (boost::asio::error::connection_refused == ec) sim_probe("c15.recv_refused");
		maybe_delay(g_cdelay, 3000);
		ubase::on_recv_error(ec);
	}
	virtual void on_close()
	{
		{
			nopre np; side& s = g_s[no];
			if (++closes > starts) sim_fail("C15.closed_twice", "socket %u: on_close() called again", no);
			if (!off && !stopping) sim_fail("C15.closed_itself", "socket %u ended although nobody asked for it", no);
			was_closed = true; s.open = false;
			for (size_t i = 0; i < s.in.size(); ++i) s.in[i].optional = true;
		}
		sim_probe("closes");
		ubase::on_close();
	}
};
typedef st_asio_wrapper::udp::multi_socket_service_base<usock> umulti;
typedef st_asio_wrapper::udp::single_socket_service_base<usock> usingle;
class pump : public service_pump {public: pump() {}};

struct uworld
{
	pump sp;
	boost::scoped_ptr<umulti> multi; std::vector<boost::shared_ptr<usock> > v; std::vector<boost::shared_ptr<usingle> > singles;
	unsigned next, threads; unsigned send_buf, recv_buf; bool started;
	uworld() : next(6001), threads(1), send_buf(0), recv_buf(0), started(false) {}
	void tune(usock& s) {if (send_buf) s.send_buf_size(send_buf); if (recv_buf) s.recv_buf_size(recv_buf); s.msg_handling_interval(20);}
	boost::shared_ptr<usock> add(unsigned no, unsigned peer, bool conn)
	{
		boost::shared_ptr<usock> s = multi->create_object(); // maybe reused
		s->setup(no, peer, conn); tune(*s);
		multi->add_socket(s); v.push_back(s);
		return s;
	}
	usock* at(size_t i) {return i < v.size() ? v[i].get() : singles[i - v.size()].get();}
	size_t size() const {return v.size() + singles.size();}
};
static bool sock_on(usock* s) {nopre np; side& d = g_s[s->no]; return d.open && !d.closing;}
struct utx_arg {uworld* w; unsigned who, count, gap_us; bool overflow;};
static void utx_main(utx_arg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		usock* s = a->w->at(a->who);
		if (!sock_on(s)) break;
		unsigned dst = a->w->at(W((unsigned) a->w->size()))->no;
		if (0 == W(8)) dst = 6900; // nobody is there
		bool of = a->overflow || 0 == W(3);
		unsigned form = W(10);
#ifndef ST_ASIO_SYNC_SEND
		if (7 == form) form = 0;
#endif
		s->tx(dst, pick(), of, form, 0 == W(8));
		if (a->gap_us && W(3)) sleep_us(1 + W(a->gap_us));
	}
}
struct raw_arg {uworld* w; unsigned count, port;};
static void raw_main(raw_arg* a) // a plain socket; also sends empty datagrams
{
#ifndef H_UNIX
	int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
	sockaddr_in l; memset(&l, 0, sizeof l); l.sin_family = AF_INET; l.sin_addr.s_addr = htonl(INADDR_LOOPBACK); l.sin_port = htons((unsigned short) a->port);
	::bind(fd, (sockaddr*) &l, sizeof l);
	for (unsigned i = 0; i < a->count; ++i)
	{
		l.sin_port = htons((unsigned short) a->w->at(W((unsigned) a->w->size()))->no);
		std::string d = 0 == W(5) ? std::string() : fill(pick());
		if (d.empty()) sim_probe("c15.empty_datagram");
		::sendto(fd, d.data(), d.size(), 0, (sockaddr*) &l, sizeof l);
		if (W(2)) sleep_us(1 + W(3000));
	}
	::close(fd);
#endif
}
static bool settled(uworld* w)
{
	nopre np;
	for (size_t i = 0; i < w->size(); ++i)
	{
		side& s = g_s[w->at(i)->no];
		if (!s.open || s.closing) continue;
		for (size_t k = 0; k < s.in.size(); ++k) if (!s.in[k].optional) return false;
		for (size_t k = 0; k < s.o.size(); ++k) if (ST_ACCEPTED == s.o[k].st && !s.o[k].sent && !s.o[k].failed) return false;
	}
	return true;
}
static void wait_settled(uworld& w)
{
	uint64_t last = g_moves, t0 = sim_now_ns(), s0 = sim_stall_ns();
	while (!settled(&w))
	{
		sleep_ms(20);
		if (g_moves != last) {last = g_moves; t0 = sim_now_ns(); s0 = sim_stall_ns();}
		else if (sim_now_ns() - t0 > 5000000000ull + (sim_stall_ns() - s0))
		{
			nopre np;
			for (size_t i = 0; i < w.size(); ++i)
			{
				side& s = g_s[w.at(i)->no];
				if (!s.open || s.closing) continue;
				unsigned n = 0; for (size_t k = 0; k < s.in.size(); ++k) n += !s.in[k].optional;
				if (n) sim_fail("C15.not_handed_over", "socket %u: %u datagrams the network delivered are not handed over, nothing moves any more (receive errors: %u)", w.at(i)->no, n, w.at(i)->recv_errors);
				for (size_t k = 0; k < s.o.size(); ++k) if (ST_ACCEPTED == s.o[k].st && !s.o[k].sent && !s.o[k].failed) ++n;
				if (n) sim_fail("C15.not_sent", "socket %u: %u accepted datagrams are neither sent nor reported as failed, nothing moves any more", w.at(i)->no, n);
			}
		}
	}
}
static void faults()
{
	static const unsigned p[] = {0, 0, 20000, 150000};
	sim_net.dgram_loss_ppm = p[K(4)]; sim_net.dgram_dup_ppm = g_unique ? p[K(4)] : 0; sim_net.dgram_err_ppm = p[K(4)]; sim_net.dgram_block_ppm = p[K(4)];
	static const unsigned l[] = {20, 20, 2000, 50000};
	sim_net.dgram_lat_min_us = 20; sim_net.dgram_lat_max_us = l[K(4)];
	static const unsigned r[] = {212992, 212992, 20000, 2500};
	sim_net.dgram_rcvbuf = r[K(4)];
}
static bool all_closed(uworld* w) {nopre np; for (size_t i = 0; i < w->size(); ++i) {usock* s = w->at(i); if (s->closes < s->starts) return false;} return true;}
static void stop_now(uworld& w)
{
	{nopre np; for (size_t i = 0; i < w.size(); ++i) {w.at(i)->stopping = true; g_s[w.at(i)->no].closing = true;}}
	w.sp.stop_service(); w.started = false;
	nopre np;
	for (size_t i = 0; i < w.size(); ++i) {usock* s = w.at(i); if (s->closes != s->starts) sim_fail("C15.not_closed", "socket %u has been started %u times and has seen %u on_close() after the service was stopped", s->no, s->starts, s->closes);}
}

static void c15_datagrams()
{
	m_enable("C15");
	sim_net_set_dgram_tap(&tap);
	uworld w;
	static const unsigned mx[] = {200, 30, 1400, 3990}; g_max = mx[K(4)];
	static const unsigned bs[] = {0, 0, 300, 1500}; w.send_buf = bs[K(4)]; w.recv_buf = bs[K(4)] ? bs[K(4)] : 0;
	static const unsigned pp[] = {0, 0, 50000, 300000};
	g_refuse = pp[K(4)]; g_hdelay = pp[K(4)]; g_cdelay = pp[K(4)]; g_echo = pp[K(4)]; g_budget = 60; g_shut = 0;
	bool restarts = K(4) == 3, closings = K(3) == 2;
	g_unique = restarts || K(2) == 0;
	w.threads = 1 + K(4);
	unsigned n = 2 + K(3), nsingle = restarts ? n : K(3) == 2 ? 1 : 0;
	w.multi.reset(new umulti(w.sp));
	faults();
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned no = w.next + i, peer = w.next + (i + 1) % n; bool conn = K(3) == 2;
		if (i + nsingle < n) w.add(no, peer, conn);
		else {boost::shared_ptr<usingle> s(new usingle(w.sp)); s->setup(no, peer, conn); w.tune(*s); w.singles.push_back(s);}
	}
	w.next += n;
	unsigned rounds = restarts ? 2 + K(2) : 1 + K(2);
	for (unsigned r = 0; r < rounds; ++r)
	{
		if (!w.started) {for (size_t i = 0; i < w.size(); ++i) w.at(i)->stopping = false; w.sp.start_service(w.threads); w.started = true;}
		{
			boost::thread_group tg; std::vector<utx_arg> ta(1 + K(4)); std::vector<raw_arg> ra(K(2));
			bool early = K(3) == 2; // datagrams arrive while nobody is ready for them
			if (!early) sleep_ms(5);
			for (size_t i = 0; i < ta.size(); ++i) {utx_arg a = {&w, W((unsigned) w.size()), 1 + K(30), K(2) ? 20000u : 300u, K(2) == 0}; ta[i] = a; tg.create_thread(boost::bind(&utx_main, &ta[i]));}
			for (size_t i = 0; i < ra.size(); ++i) {raw_arg a = {&w, 1 + K(20), 7001}; ra[i] = a; tg.create_thread(boost::bind(&raw_main, &ra[i]));}
			if (closings && w.size() > 2)
			{
				sleep_us(1 + W(60000));
				usock* s = w.at(W((unsigned) w.size()));
				if (sock_on(s)) {s->shut(); sim_probe("c15.closed_during_traffic");}
			}
			tg.join_all();
		}
		sim_net_quiet(); sim_stop_schedule_noise();
		g_refuse = 0; g_hdelay = 0; g_cdelay = 0;
		wait_settled(w);
		sim_probe("c15.settled");
		if (closings && !restarts && K(2)) // a new socket, perhaps a reused object
		{
			for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i]->was_closed)
			{
				w.v.erase(w.v.begin() + i);
				sleep_ms(13000); // objects become reusable
				w.add(w.next++, w.at(0)->no, false); sim_probe("c15.added");
				break;
			}
			wait_settled(w);
		}
		if (r + 1 < rounds) {faults(); g_refuse = pp[K(4)]; g_hdelay = pp[K(4)];}
		if (restarts && r + 1 < rounds) {stop_now(w); sim_probe("c15.restarted");}
	}
	sim_probe_n("messages", (unsigned) g_moves);
	if (!restarts && K(2))
	{
		for (size_t i = 0; i < w.size(); ++i) w.at(i)->shut();
		uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
		while (!all_closed(&w)) {sleep_ms(10); if (sim_now_ns() - t0 > 2000000000ull + (sim_stall_ns() - s0)) sim_fail("C15.close_stuck", "a socket told to shut down has not reported on_close() within 2 s");}
	}
	stop_now(w);
	sim_net_set_dgram_tap(NULL);
	w.v.clear(); w.singles.clear(); w.multi.reset();
}
const char* const sim_harness_scenarios = "c15";
void sim_harness_run() {c15_datagrams();}
