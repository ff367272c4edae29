// C16: a client behind a SOCKS proxy. The proxy (and the target behind it) is scripted byte by byte on the simulated network.
#include "common.h"
#ifndef ST_ASIO_RECONNECT_INTERVAL
#define ST_ASIO_RECONNECT_INTERVAL 100
#endif
#ifndef ST_ASIO_SERVICE_THREAD_NUM
#define ST_ASIO_SERVICE_THREAD_NUM 2
#endif
#include "ext/tcp.h"
#include <boost/thread.hpp>
#include "model.h"
#include "raw.h"
using namespace st_asio_wrapper;
const char* sim_harness_name() {return VARIANT;}
static unsigned K(unsigned n) {return sim_choose(SS_KNOB, n);}
static unsigned P(unsigned n) {return sim_chooseT(SS_PEER, n);}
static unsigned W(unsigned n) {return sim_chooseT(SS_WORK, n);}
static void sleep_us(unsigned us) {boost::this_thread::sleep_for(boost::chrono::microseconds(us));}
static void sleep_ms(unsigned ms) {sleep_us(ms * 1000);}
struct nopre {nopre() {sim_nopreempt(1);} ~nopre() {sim_nopreempt(-1);}};

#ifdef H_SOCKS4
typedef st_asio_wrapper::tcp::proxy::socks4::client_socket_base<ext::packer<>, ext::unpacker<> > base_t;
#else
typedef st_asio_wrapper::tcp::proxy::socks5::client_socket_base<ext::packer<>, ext::unpacker<> > base_t;
#endif

enum outcome {O_GRANT, O_REFUSE, O_METHOD_REFUSED, O_AUTH_REFUSED, O_BAD_TYPE, O_TRUNCATE, O_SILENT, O_COUNT};
static const char* const o_name[] = {"granted", "refused", "method refused", "authentication refused", "a reply of an unknown layout", "broken off", "silent"};
struct script
{
	outcome what; bool use_auth; unsigned code, bound, bound_len, cut, how_cut, chunk, gap_us, stall_ms; bool coalesce; unsigned early; bool end_link; // cut: bytes of the proxy's answers let through
};
struct config {bool proxy, domain, v6, auth; std::string host, usr, pwd; unsigned port; unsigned char a4[4], a6[16];};
class csock;
struct life // one client
{
	config c; csock* s; unsigned idx, port; raw_listener l;
	// the current connection
	bool granted, link_live; unsigned attempts, established, conn; outcome what;
	std::vector<std::string> down; size_t down_at; unsigned down_mark; // what the target sends; handed over so far
	std::vector<std::string> up; size_t up_at; std::vector<unsigned> up_conn; // accepted by the client socket; read by the target
	unsigned up_from; // accepted from here on must arrive on this connection
	unsigned starts, closes; uint64_t lost_at, lost_stall; bool expect_close, told, done, settled;
	life() : s(NULL), idx(0), port(0), granted(false), link_live(false), attempts(0), established(0), conn(0), what(O_GRANT), down_at(0), down_mark(0), up_at(0), up_from(0), starts(0), closes(0), lost_at(0), lost_stall(0), expect_close(false), told(false), done(false), settled(false) {}
};
static bool g_stop;
static unsigned g_msgs;
static std::string body_of(unsigned who, unsigned n, unsigned size) {std::string s(size, 0); unsigned x = who * 7919u + n * 104729u + size; for (unsigned i = 0; i < size; ++i) {x = x * 1664525u + 1013904223u; s[i] = (char) (x >> 24);} return s;}
static std::string framed(const std::string& b) {size_t n = b.size() + 2; std::string s; s += (char) (n >> 8); s += (char) n; return s + b;}

class csock : public base_t
{
public:
	life* v; int mobj;
	template<typename A> csock(A& a) : base_t(a), v(NULL), mobj(m_obj("socks client")) {}
	~csock() {m_obj_destroyed(mobj);}
	bool configure(const config& c)
	{
		bool ok = true;
#ifndef H_SOCKS4
		if (c.auth) ok = this->set_auth(c.usr, c.pwd);
#endif
		if (!c.proxy) return ok;
		return this->set_target_addr((unsigned short) c.port, c.host) && ok;
	}
	bool tx(unsigned size)
	{
		std::string b; size_t at;
		{nopre np; b = body_of(v->idx + 100, (unsigned) v->up.size(), size); at = v->up.size(); v->up.push_back(b); v->up_conn.push_back(v->conn);}
		bool ok = this->send_msg(b, true);
		if (!ok) sim_fail("C16.send_refused", "client %u: a message that may overflow the send buffer is refused", v->idx);
		(void) at;
		return ok;
	}
protected:
	virtual bool do_start() {++v->starts; return base_t::do_start();}
	virtual int prepare_reconnect(const boost::system::error_code&) {nopre np; sim_probe("c16.retry"); return v->told ? -1 : 100;}
	virtual void on_connect()
	{
		{
			nopre np;
			if (v->closes >= v->starts) sim_fail("C16.connect_after_close", "client %u: on_connect() after on_close()", v->idx);
			if (v->c.proxy && !v->granted) sim_fail("C16.established", "client %u: the connection is established although the proxy's answer to it is: %s (attempt %u)", v->idx, o_name[v->what], v->attempts);
			++v->established; v->up_from = (unsigned) v->up.size();
			sim_probe("c16.established");
		}
		base_t::on_connect();
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type&) {}
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<out_msg_type>& can) {size_t n = 0; for (; !can.empty(); ++n) {take(can.front()); can.pop_front();} return n;}
#endif
	virtual bool on_msg_handle(out_msg_type& m) {return take(m);}
	bool take(out_msg_type& m)
	{
		nopre np; std::string d(m.data(), m.size());
		if (!v->link_live && v->down_at >= v->down.size()) sim_fail("C16.invented", "client %u: a message nobody sent is handed over (%u bytes)", v->idx, (unsigned) d.size());
		if (v->down_at >= v->down.size()) sim_fail("C16.invented", "client %u: a message of %u bytes is handed over, everything the target sent has been handed over before", v->idx, (unsigned) d.size());
		if (d != v->down[v->down_at]) sim_fail("C16.misread", "client %u: message %u from the target is handed over wrong (%u bytes, sent: %u bytes); bytes behind the proxy's reply were lost or misread", v->idx, (unsigned) v->down_at, (unsigned) d.size(), (unsigned) v->down[v->down_at].size());
		++v->down_at; ++g_msgs;
		return true;
	}
	virtual void on_unpack_error() {sim_fail("C16.misread", "client %u: the bytes behind the proxy's reply cannot be unpacked", v->idx);}
	virtual void on_close()
	{
		{
			nopre np;
			if (++v->closes > v->starts) sim_fail("C16.closed_twice", "client %u: on_close() called again", v->idx);
			sim_probe("closes");
			if (!v->told && !g_stop && !v->expect_close && v->attempts > 0) sim_fail("C16.gave_up", "client %u: the connection is closed although nothing is wrong with it (answer: %s)", v->idx, o_name[v->what]);
		}
		base_t::on_close();
	}
};
typedef st_asio_wrapper::tcp::multi_client_base<csock> cpool;
class pump : public service_pump {public: pump() {}};

static void must_end(life* v, raw_peer& p, const char* why) // the library has to give the connection up now
{
	if (!p.wait_end(8000)) {nopre np; if (!v->told) sim_fail("C16.not_closed", "client %u: the proxy's answer is: %s; the connection has not been closed within 8 s", v->idx, why);}
}
// the proxy's bytes go through here: cut: how many may pass in total
struct tap {raw_peer& p; script& s; life* v; unsigned passed; bool cut_off;
	tap(raw_peer& p_, script& s_, life* v_) : p(p_), s(s_), v(v_), passed(0), cut_off(false) {}
	bool out(const std::string& d)
	{
		std::string t = d;
		if (O_TRUNCATE == s.what && passed + t.size() > s.cut) {t.resize(s.cut - passed); cut_off = true;}
		if (s.stall_ms && 0 == P(3)) {if (t.size() > 1) {if (!p.send_all(t.substr(0, 1), 0, 0)) return false; t = t.substr(1); ++passed;} sleep_ms(s.stall_ms); sim_probe("c16.stalled");}
		passed += (unsigned) t.size();
		if (!t.empty() && !p.send_all(t, s.chunk, s.gap_us)) return false;
		if (!cut_off) return true;
		sim_probe("c16.broken_off");
		{nopre np; v->expect_close = true;}
		if (0 == s.how_cut) p.close_(); else if (1 == s.how_cut) p.reset_(); else {p.half_close(); must_end(v, p, "broken off");}
		return false;
	}
};
static bool expect(life* v, raw_peer& p, const std::string& want, const char* what) // the client's bytes
{
	std::string got(want.size(), 0);
	int r = p.recv_exact(&got[0], want.size(), 20000);
	nopre np;
	if (1 != r) {if (v->told || g_stop) return false; sim_fail("C16.no_request", "client %u: the client does not send its %s (%d)", v->idx, what, r);}
	if (got != want) {size_t i = 0; while (got[i] == want[i]) ++i; sim_fail("C16.bad_request", "client %u: byte %u of the client's %s is %u, expected %u", v->idx, (unsigned) i, what, (unsigned char) got[i], (unsigned char) want[i]);}
	return true;
}
static bool nothing_yet(life* v, raw_peer& p, const char* when)
{
	char b[1]; ssize_t r = p.recv_(b, 1, 0);
	nopre np;
	if (r > 0) sim_fail("C16.too_early", "client %u: the client sends something before the proxy has answered its %s", v->idx, when);
	return -2 == r;
}
static std::string port2(unsigned p) {std::string s; s += (char) (p >> 8); s += (char) p; return s;}
static bool negotiate(life* v, raw_peer& p, script& s, tap& t, std::string& tail)
{
	config& c = v->c;
#ifdef H_SOCKS4
	std::string rq = "\x04\x01"; rq += port2(c.port); rq.append((char*) c.a4, 4); rq.append("st_asio", 8);
	if (!expect(v, p, rq, "request")) return false;
	if (s.stall_ms && !nothing_yet(v, p, "request")) return false;
	std::string re(8, 0); re[1] = (char) (O_REFUSE == s.what ? s.code : 90); for (int i = 2; i < 8; ++i) re[i] = (char) P(256);
#else
	if (c.auth) {if (!expect(v, p, std::string("\x05\x02\x00\x02", 4), "greeting")) return false;}
	else if (!expect(v, p, std::string("\x05\x01\x00", 3), "greeting")) return false;
	if (s.stall_ms) {sleep_ms(s.stall_ms); if (!nothing_yet(v, p, "greeting")) return false;}
	if (O_METHOD_REFUSED == s.what) {{nopre np; v->expect_close = true;} if (t.out("\x05\xff")) must_end(v, p, o_name[s.what]); return false;}
	bool auth = c.auth && s.use_auth;
	std::string m("\x05"); m += (char) (auth ? 2 : 0);
	if (!t.out(m)) return false;
	if (auth)
	{
		std::string a("\x01"); a += (char) c.usr.size(); a += c.usr; a += (char) c.pwd.size(); a += c.pwd;
		if (!expect(v, p, a, "authentication")) return false;
		if (s.stall_ms && !nothing_yet(v, p, "authentication")) return false;
		bool no = O_AUTH_REFUSED == s.what;
		if (no) {nopre np; v->expect_close = true;}
		std::string r("\x01"); r += (char) (no ? s.code : 0);
		if (!t.out(r)) return false;
		if (no) {must_end(v, p, o_name[s.what]); return false;}
	}
	std::string rq("\x05\x01\x00", 3);
	if (c.domain) {rq += '\x03'; rq += (char) c.host.size(); rq += c.host;} else if (c.v6) {rq += '\x04'; rq.append((char*) c.a6, 16);} else {rq += '\x01'; rq.append((char*) c.a4, 4);}
	rq += port2(c.port);
	if (!expect(v, p, rq, "request")) return false;
	if (s.stall_ms && !nothing_yet(v, p, "request")) return false;
	std::string re("\x05"); re += (char) (O_REFUSE == s.what ? s.code : 0); re += '\0';
	if (O_BAD_TYPE == s.what) re += (char) (5 + P(250)); else re += (char) (0 == s.bound ? 1 : 1 == s.bound ? 4 : 3);
	if (2 == s.bound) re += (char) s.bound_len;
	unsigned n = 2 + (0 == s.bound ? 4 : 1 == s.bound ? 16 : s.bound_len);
	for (unsigned i = 0; i < n; ++i) re += (char) P(256);
#endif
	bool good = O_GRANT == s.what;
	if (O_SILENT == s.what) {sim_probe("c16.silent"); re.resize(P((unsigned) re.size())); if (!re.empty()) p.send_all(re, s.chunk, s.gap_us); return false;}
	if (good && s.coalesce) {re += tail; tail.clear();} // one write: reply and the target's first bytes
	if (good) {nopre np; v->granted = true; v->link_live = true;}
	if (!good && O_TRUNCATE != s.what) {nopre np; v->expect_close = true;}
	if (!t.out(re)) return false;
	if (!good && O_TRUNCATE != s.what) {must_end(v, p, o_name[s.what]); return false;}
	if (O_TRUNCATE == s.what) {nopre np; v->granted = v->link_live = true;} // the cut was beyond the reply
	return true;
}
static script draw_script(life* v, bool tame)
{
	script s; memset(&s, 0, sizeof s);
	s.what = tame || P(3) ? O_GRANT : (outcome) P(O_COUNT);
#ifdef H_SOCKS4
	if (O_METHOD_REFUSED == s.what || O_AUTH_REFUSED == s.what || O_BAD_TYPE == s.what) s.what = O_REFUSE;
#else
	s.use_auth = P(3) || O_AUTH_REFUSED == s.what;
	if (O_AUTH_REFUSED == s.what && !v->c.auth) s.what = O_GRANT;
#endif
	s.code = 1 + P(255); if (90 == s.code) s.code = 91;
	s.bound = P(3); static const unsigned bl[] = {0, 4, 30, 60, 255}; s.bound_len = bl[P(5)];
	s.cut = P(3) ? P(20) : P(300); s.how_cut = P(3);
	static const unsigned ch[] = {0, 1, 3, 100}; s.chunk = ch[P(4)]; s.gap_us = P(2) ? 5000 : 50;
	s.stall_ms = P(4) == 3 ? 1 + P(1500) : 0; s.coalesce = P(2); s.early = P(5); s.end_link = P(3) == 2;
	if (!v->c.proxy) {s.what = O_GRANT;}
	return s;
}
static bool serve(life* v, raw_peer& p, bool tame) // one connection; returns when it has ended or the run is to be finished
{
	script s = draw_script(v, tame);
	std::vector<std::string> mine; std::string tail;
	for (unsigned i = 0; i < s.early; ++i) {std::string b = body_of(v->idx, (unsigned) i + v->attempts * 100, 1 + P(300)); mine.push_back(b); tail += framed(b);}
	{
		nopre np; ++v->attempts; ++v->conn; v->granted = false; v->what = s.what; v->expect_close = false;
		v->down = mine; v->down_at = 0; v->link_live = false;
	}
	tap t(p, s, v);
	sim_probe("c16.attempt");
	if (v->c.proxy)
	{
		if (!negotiate(v, p, s, t, tail))
		{
			if (O_SILENT == s.what) // only the application can end this one
			{
				sleep_ms(1000);
				{nopre np; if (v->closes == v->starts && !v->told && !g_stop) sim_fail("C16.gave_up", "client %u: closed although the proxy has not answered yet", v->idx); v->told = true;}
				if (!g_stop) W(2) ? v->s->force_shutdown() : v->s->graceful_shutdown();
				if (!p.wait_end(8000)) sim_fail("C16.not_closed", "client %u: shut down during the negotiation, the connection has not been closed within 8 s", v->idx);
			}
			return true;
		}
	}
	else {nopre np; v->granted = v->link_live = true;}
	if (!tail.empty() && !t.out(tail)) return true;
	// the link is up: everything accepted arrives, exactly once and in order
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	std::string in; char b[2000];
	for (;;)
	{
		ssize_t r = p.recv_(b, sizeof b, 20);
		if (0 == r || -1 == r)
		{
			nopre np;
			if (v->told || g_stop || v->expect_close) return true;
			sim_fail("C16.gave_up", "client %u: the granted connection is closed by the client", v->idx);
		}
		bool finished, up_to;
		{
			nopre np;
			if (r > 0) in.append(b, r);
			while (in.size() >= 2)
			{
				size_t n = (unsigned char) in[0] * 256u + (unsigned char) in[1];
				if (n < 2) sim_fail("C16.bad_stream", "client %u: the target receives something the client did not send", v->idx);
				if (in.size() < n) break;
				std::string d = in.substr(2, n - 2); in.erase(0, n);
				size_t k = v->up_at; while (k < v->up.size() && v->up[k] != d) ++k;
				if (k >= v->up.size()) sim_fail("C16.bad_stream", "client %u: the target receives a message of %u bytes the application did not send (now)", v->idx, (unsigned) d.size());
				if (k > v->up_at && (1 == v->conn || k > v->up_from)) // messages may have been lost with the previous link only
				{
					if (1 == v->conn || v->up_at >= v->up_from) sim_fail("C16.lost", "client %u: message %u reaches the target, message %u did not", v->idx, (unsigned) k, (unsigned) v->up_at);
				}
				v->up_at = k + 1; ++g_msgs; t0 = sim_now_ns(); s0 = sim_stall_ns();
			}
			up_to = v->up_at >= v->up.size();
			finished = v->established > 0 && v->down_at >= v->down.size() && up_to && v->done;
		}
		if (s.end_link && 0 == P(4) && v->down_at >= v->down.size()) {sim_probe("c16.link_ended"); {nopre np; v->expect_close = true; v->link_live = false;} if (P(2)) p.reset_(); else p.close_(); return true;}
		if (finished) return false;
		if (!v->done || v->told || v->expect_close) {t0 = sim_now_ns(); s0 = sim_stall_ns();}
		else if (sim_now_ns() - t0 > 8000000000ull + (sim_stall_ns() - s0))
		{
			nopre np;
			if (!v->established) sim_fail("C16.not_established", "client %u: the proxy granted the connection, the client does not report it", v->idx);
			if (v->down_at < v->down.size()) sim_fail("C16.not_handed_over", "client %u: %u of %u messages of the target have been handed over, nothing more happens", v->idx, (unsigned) v->down_at, (unsigned) v->down.size());
			if (1 == v->conn || v->up_at >= v->up_from || v->up_from < v->up.size()) sim_fail("C16.not_sent", "client %u: %u of %u messages reached the target, nothing more happens", v->idx, (unsigned) v->up_at, (unsigned) v->up.size());
			return false;
		}
	}
}
static void proxy_main(life* v)
{
	unsigned n = 1 + P(3);
	for (unsigned i = 0;; )
	{
		{nopre np; if (g_stop || (v->told && v->closes >= v->starts)) break; if (v->closes >= v->starts && v->starts && !v->s->is_reconnect()) break;}
		unsigned pp; int fd = v->l.accept_(&pp, 50);
		if (fd < 0) continue;
		raw_peer p(fd); ++i;
		if (!serve(v, p, i >= n + 2))
		{
			// established and quiet: keep the link until the end
			{nopre np; v->settled = true;}
			while (!g_stop) {nopre* np = new nopre; bool t = v->told; delete np; if (t) break; sleep_ms(20);}
			if (!p.wait_end(8000)) sim_fail("C16.not_closed", "client %u: shut down, the connection has not been closed within 8 s", v->idx);
		}
	}
}
struct uarg {life* v; unsigned count, gap_us; bool shut; unsigned shut_us;};
static void user_main(uarg* a)
{
	for (unsigned i = 0; i < a->count; ++i) {a->v->s->tx(1 + W(400)); if (a->gap_us && W(3)) sleep_us(1 + W(a->gap_us));}
	if (a->shut)
	{
		sleep_us(a->shut_us);
		bool mine; {nopre np; mine = !a->v->told; a->v->told = true;}
		if (mine) {sim_probe("c16.shut"); W(2) ? a->v->s->force_shutdown() : a->v->s->graceful_shutdown();}
	}
	nopre np; a->v->done = true;
}

static void c16_socks()
{
	m_enable("C16");
	static const unsigned lats[] = {0, 50, 500, 5000}; unsigned l = lats[K(4)]; sim_net.lat_max_us = l; sim_net.lat_min_us = l / 2;
	static const unsigned segs[] = {0, 0, 1, 3, 17}; sim_net.max_seg = segs[K(5)];
	static const unsigned sr[] = {0, 0, 200000}; sim_net.short_read_ppm = sr[K(3)]; sim_net.short_write_ppm = sr[K(3)];
	pump sp; unsigned n = 1 + K(3), threads = 1 + K(4);
	boost::scoped_ptr<cpool> pool(new cpool(sp));
	std::vector<boost::shared_ptr<life> > lives; std::vector<boost::shared_ptr<csock> > socks;
	for (unsigned i = 0; i < n; ++i)
	{
		boost::shared_ptr<life> v(new life); v->idx = i; v->port = 5070 + i; config& c = v->c;
		c.proxy = K(12) != 11; c.port = 1 + K(65535); c.domain = c.v6 = c.auth = false;
		for (int k = 0; k < 4; ++k) c.a4[k] = (unsigned char) (1 + K(250));
		char b[80]; snprintf(b, sizeof b, "%u.%u.%u.%u", c.a4[0], c.a4[1], c.a4[2], c.a4[3]); c.host = b;
		boost::shared_ptr<csock> s = pool->create_object();
		v->s = s.get(); s->v = v.get();
#ifndef H_SOCKS4
		unsigned kind = K(4);
		if (c.proxy && K(4) == 3) {s->set_target_addr(4321, "earlier.example.org"); sim_probe("c16.reconfigured");} // configured differently before
		if (1 == kind) {c.v6 = true; unsigned short h[8]; for (int k = 0; k < 8; ++k) {h[k] = (unsigned short) (1 + K(65535)); c.a6[2 * k] = (unsigned char) (h[k] >> 8); c.a6[2 * k + 1] = (unsigned char) h[k];} if (h[0] >> 12 == 15) {h[0] = 0x2001; c.a6[0] = 0x20; c.a6[1] = 1;} snprintf(b, sizeof b, "%x:%x:%x:%x:%x:%x:%x:%x", h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]); c.host = b;}
		else if (2 == kind) {c.domain = true; c.host = std::string(1 + K(K(2) ? 255 : 57), 'h'); if (c.host.size() > 8) c.host.replace(c.host.size() - 4, 4, ".org");}
		if (K(2)) {c.auth = true; unsigned u = 1 + K(59), p = 1 + K(60 - u); c.usr = body_of(3, i, u); c.pwd = body_of(4, i, p);}
#endif
		s->set_server_addr((unsigned short) v->port, "127.0.0.1");
		if (!s->configure(c)) sim_fail("C16.config", "client %u: a valid configuration is refused", i);
		if (!v->l.listen_((unsigned short) v->port)) sim_fail("C16.harness", "cannot listen");
		lives.push_back(v); socks.push_back(s);
		pool->add_socket(s);
	}
	sp.start_service(threads);
	{
		boost::thread_group tg; std::vector<uarg> ua(n);
		for (unsigned i = 0; i < n; ++i)
		{
			uarg a = {lives[i].get(), 1 + K(12), K(2) ? 20000u : 2000u, K(4) == 3, 1 + W(400000)}; ua[i] = a;
			tg.create_thread(boost::bind(&proxy_main, lives[i].get())); tg.create_thread(boost::bind(&user_main, &ua[i]));
		}
		// wait until every client is either settled on an established link or closed for good
		uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
		bool hasty = K(4) == 3; unsigned hasty_us = 1 + W(600000);
		if (hasty) {sleep_us(hasty_us); sim_probe("c16.stopped_midway");}
		else for (;;)
		{
			bool all = true, users = true;
			{
				nopre np;
				for (unsigned i = 0; i < n; ++i)
				{
					life& v = *lives[i];
					bool closed = v.starts && v.closes >= v.starts && (v.told || !v.s->is_reconnect());
					bool quiet = v.settled && !v.told;
					users = users && v.done;
					if (!v.done || (!closed && !quiet)) all = false;
				}
			}
			if (users) sim_stop_schedule_noise();
			if (all) break;
			if (sim_now_ns() - t0 > 120000000000ull + (sim_stall_ns() - s0)) break; // judged by the proxies
			sleep_ms(20);
		}
		for (unsigned i = 0; i < n; ++i)
		{
			life& v = *lives[i];
			bool closed; {nopre np; closed = v.starts && v.closes >= v.starts && (v.told || !v.s->is_reconnect());}
			if (closed) sim_probe("c16.closed"); else sim_probe("c16.settled");
		}
		{nopre np; g_stop = true;}
		sp.stop_service();
		tg.join_all();
	}
	nopre np;
	for (unsigned i = 0; i < n; ++i) if (lives[i]->closes != lives[i]->starts) sim_fail("C16.close_count", "client %u has been started %u times and has seen %u on_close() after the service was stopped", i, lives[i]->starts, lives[i]->closes);
	sim_probe_n("messages", g_msgs);
	socks.clear(); pool.reset();
}
const char* const sim_harness_scenarios = "c16";
void sim_harness_run() {c16_socks();}
