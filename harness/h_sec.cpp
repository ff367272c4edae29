// C19 (TLS) and C20 (WebSocket, H_WS): both ends are the library's; every link runs through a relay that forwards, delays, corrupts or cuts bytes.
#include "common.h"
#ifndef ST_ASIO_RECONNECT_INTERVAL
#define ST_ASIO_RECONNECT_INTERVAL 100
#endif
#ifndef ST_ASIO_SERVICE_THREAD_NUM
#define ST_ASIO_SERVICE_THREAD_NUM 2
#endif
#ifdef H_WS
#include "ext/websocket.h"
#define PID "C20"
#else
#include "ext/tcp.h"
#include "ext/ssl.h"
#include <openssl/rand.h>
#include "cert.h"
#define PID "C19"
#endif
#include <boost/thread.hpp>
#include "model.h"
#include "raw.h"
using namespace st_asio_wrapper;
const char* sim_harness_name() {return VARIANT;}
static unsigned K(unsigned n) {return sim_choose(SS_KNOB, n);}
static unsigned P(unsigned n) {return sim_chooseT(SS_PEER, n);}
static unsigned W(unsigned n) {return sim_chooseT(SS_WORK, n);}
static void sleep_us(unsigned us) {boost::this_thread::sleep_for(boost::chrono::microseconds(us));}
static void sleep_ms(unsigned ms) {sleep_us(ms * 1000);}
struct nopre {nopre() {sim_nopreempt(1);} ~nopre() {sim_nopreempt(-1);}};
inline void maybe_delay(unsigned ppm, unsigned max_us) {if (ppm && sim_chanceT(SS_WORK4, ppm)) sleep_us(1 + sim_chooseT(SS_WORK4, max_us));}
#define SRV_PORT 5051
#define RELAY 5080
#define SHUT_MS (ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION * 1000 + 6000)
#ifdef H_WS
#define PEER_MS 31000 // a peer whose reply to the closing handshake fails is ended by Beast's own timeout of 30 s (timeout::suggested())
#else
#define PEER_MS 0
#endif

#ifdef H_WS
typedef st_asio_wrapper::websocket::server_socket_base<ext::packer<>, dummy_unpacker<std::string> > sbase;
typedef st_asio_wrapper::websocket::client_socket_base<ext::packer<>, dummy_unpacker<std::string> > cbase;
#else
typedef st_asio_wrapper::ssl::server_socket_base<ext::packer<>, ext::unpacker<> > sbase;
typedef st_asio_wrapper::ssl::client_socket_base<ext::packer<>, ext::unpacker<> > cbase;
static uint64_t g_rnd = 88172645463325252ull;
static int rnd_bytes(unsigned char* b, int n) {for (int i = 0; i < n; ++i) {g_rnd ^= g_rnd << 13; g_rnd ^= g_rnd >> 7; g_rnd ^= g_rnd << 17; b[i] = (unsigned char) (g_rnd >> 11);} return 1;}
static int rnd_status() {return 1;}
#endif

// ---------------------------------------------------------------- model
struct sent_msg {std::string d; bool accepted, got;};
struct speaker {std::vector<sent_msg> out;}; // one socket object's outgoing messages
static std::vector<speaker*> g_sp;
enum fate {F_NONE, F_CUT, F_CORRUPT, F_MUTE};
struct script {fate what; unsigned dir, at, how; unsigned chunk, gap_us, stall_ms;};
struct slink // by the client side port as the server sees it
{
	unsigned sport, cport; script s; unsigned passed[2]; bool hs_passed[2]; bool touched, ended; std::string head[2]; int to_srv, to_cli; unsigned got_srv, got_cli, next_srv, next_cli, srv_from; bool srv_up, cli_up;
	slink() : sport(0), cport(0), touched(false), ended(false), to_srv(-1), to_cli(-1), got_srv(0), got_cli(0), next_srv(0), next_cli(0), srv_from(0), srv_up(false), cli_up(false) {passed[0] = passed[1] = 0; hs_passed[0] = hs_passed[1] = false;}
};
static std::map<unsigned, slink*> g_by_s, g_by_c;
static uint64_t g_moves;
static bool g_stop, g_tame;
static unsigned g_hdelay, g_cdelay, g_shut_ppm, g_max = 300, g_kill_ppm;

static std::string body_of(unsigned who, unsigned n, unsigned size)
{
	std::string s(size, 0); unsigned x = who * 7919u + n * 104729u + size;
	for (unsigned i = 0; i < size; ++i) {x = x * 1664525u + 1013904223u; s[i] = (char) (x >> 24);}
	s[0] = (char) who; s[1] = (char) (who >> 8); s[2] = (char) n; s[3] = (char) (n >> 8);
	return s;
}
static unsigned new_speaker() {nopre np; g_sp.push_back(new speaker); return (unsigned) g_sp.size() - 1;}

template<typename B> class rec : public B
{
public:
	bool send_err; unsigned me; int mobj; unsigned starts, closes, connects, hs_fail, up_from; bool told, live, srv_side; unsigned lport; uint64_t told_at, told_stall, closed_at;
	template<typename A, typename C> rec(A& a, C& c, bool server) : B(a, c), srv_side(server) {init();}
	template<typename A> rec(A& a, bool server) : B(a), srv_side(server) {init();}
	~rec() {m_obj_destroyed(mobj);}
	void init() {send_err = false; me = new_speaker(); mobj = m_obj(srv_side ? "server socket" : "client socket"); starts = closes = connects = hs_fail = up_from = 0; told = live = false; lport = 0; told_at = told_stall = closed_at = 0;}
	boost::mutex tx_mutex;
	bool tx(unsigned size, unsigned form, bool of)
	{
		boost::lock_guard<boost::mutex> one_at_a_time(tx_mutex); // the model knows one order only
		std::string b; size_t at;
		{nopre np; speaker& s = *g_sp[me]; at = s.out.size(); b = body_of(me, (unsigned) at, size < 4 ? 4 : size); sent_msg m; m.d = b; m.accepted = true; m.got = false; s.out.push_back(m);}
		(void) form;
#ifdef H_WS
		bool ok = 1 == form ? this->safe_send_native_msg(b.data(), b.size(), of) : 2 == form ? this->send_native_msg(b, of) : this->send_native_msg(b.data(), b.size(), of);
#else
		bool ok = 1 == form ? this->safe_send_msg(b.data(), b.size(), of) : 2 == form ? this->send_msg(b, of) : this->send_msg(b.data(), b.size(), of);
#endif
		nopre np;
		sent_msg& m = g_sp[me]->out[at];
		m.accepted = ok;
		if (!ok && m.got) sim_fail(PID ".refused_but_sent", "speaker %u: sending was refused, the message arrived nevertheless", me);
		return ok;
	}
	void told_now() {nopre np; if (!told) {told = true; told_at = sim_now_ns(); told_stall = sim_stall_ns();}}
protected:
	virtual bool do_start() {++starts; return B::do_start();}
	virtual void on_handshake(const boost::system::error_code& ec) {{nopre np; if (ec) {++hs_fail; sim_probe("sec.handshake_failed");} else sim_probe("sec.handshake");} B::on_handshake(ec);}
	slink* mine()
	{
		boost::system::error_code ec;
		unsigned p = srv_side ? this->lowest_layer().remote_endpoint(ec).port() : this->lowest_layer().local_endpoint(ec).port();
		std::map<unsigned, slink*>& m = srv_side ? g_by_s : g_by_c;
		return m.count(p) ? m[p] : NULL;
	}
	virtual void on_connect()
	{
		{
			nopre np; ++connects; live = true; send_err = false; up_from = (unsigned) g_sp[me]->out.size();
			if (closes >= starts) sim_fail(PID ".connect_after_close", "speaker %u: on_connect() after on_close()", me);
			slink* l = mine();
			if (NULL == l) {boost::system::error_code ec; unsigned rp = this->lowest_layer().remote_endpoint(ec).port(); if (srv_side && rp >= 30000 && rp < 31000) sim_fail(PID ".established", "a connection which never spoke the protocol is reported as established"); sim_probe("sec.link_unknown");}
			else
			{
				(srv_side ? l->srv_up : l->cli_up) = true; if (srv_side) l->srv_from = up_from;
#ifdef H_WS
				if (!l->hs_passed[0]) sim_fail(PID ".established", "speaker %u: established, the client's complete handshake request has not passed the network yet", me);
				if (!srv_side && !l->hs_passed[1]) sim_fail(PID ".established", "speaker %u: established, the server's complete handshake response has not passed the network yet", me);
#else
				if (l->passed[0] < 100 || l->passed[1] < 500) sim_fail(PID ".established", "speaker %u: established after %u + %u bytes of handshake", me, l->passed[0], l->passed[1]);
				if (F_CORRUPT == l->s.what && l->s.at >= 5 && l->s.at < 100 && l->touched) sim_fail(PID ".established", "speaker %u: established although byte %u of the handshake (%s) was corrupted", me, l->s.at, l->s.dir ? "to the client" : "to the server");
#endif
			}
			sim_probe("sec.established");
		}
		maybe_delay(g_cdelay, 3000);
		B::on_connect();
	}
	bool take(const std::string& d)
	{
		{
			nopre np;
			if (!live) sim_fail(PID ".not_established", "speaker %u: a message is handed over on a connection which is not established (closes %u)", me, closes);
			if (d.size() < 4) sim_fail(PID ".altered", "speaker %u: a message of %u bytes is handed over, nobody sent such a message", me, (unsigned) d.size());
			unsigned who = (unsigned char) d[0] + 256 * (unsigned char) d[1], n = (unsigned char) d[2] + 256 * (unsigned char) d[3];
			if (who >= g_sp.size() || n >= g_sp[who]->out.size() || g_sp[who]->out[n].d != d) sim_fail(PID ".altered", "speaker %u: a message of %u bytes is handed over, nobody sent such a message", me, (unsigned) d.size());
			speaker& s = *g_sp[who]; sent_msg& m = s.out[n];
			if (m.got) sim_fail(PID ".twice", "speaker %u: message %u of speaker %u is handed over again", me, n, who);
			if (!m.accepted) sim_fail(PID ".refused_but_sent", "speaker %u: message %u of speaker %u was refused when it was sent", me, n, who);
			slink* l = mine_l;
			if (l)
			{
				int& from = srv_side ? l->to_srv : l->to_cli; unsigned& cnt = srv_side ? l->got_srv : l->got_cli; unsigned& next = srv_side ? l->next_srv : l->next_cli;
				if (cnt > 0 && from != (int) who) sim_fail(PID ".mixed", "speaker %u: messages of speakers %d and %u on one connection", me, from, who);
				if (cnt > 0 && n < next) sim_fail(PID ".order", "speaker %u: message %u of speaker %u is handed over after message %u", me, n, who, next - 1);
				unsigned k = n;
				if (cnt > 0) k = next;
				else if (!srv_side && l->srv_up) k = l->srv_from; // the server object's sends start with its on_connect()
				for (; k < n; ++k) if (s.out[k].accepted) sim_fail(PID ".lost", "speaker %u: message %u of speaker %u is handed over, message %u, accepted before on the same connection, was not", me, n, who, k);
				next = n + 1;
				from = (int) who; ++cnt;
			}
			m.got = true; ++g_moves; sim_probe("sec.message");
		}
		maybe_delay(g_hdelay, 5000);
		return true;
	}
	virtual void on_send_error(const boost::system::error_code& ec, typename B::in_container_type& can) {{nopre np; send_err = true;} B::on_send_error(ec, can);}
	slink* mine_l;
	void handled() {if (g_shut_ppm && sim_chanceT(SS_WORK2, g_shut_ppm)) {sim_probe("sec.shut_in_handler"); told_now(); W(2) ? this->force_shutdown() : this->graceful_shutdown();}}
	virtual bool on_msg_handle(typename B::out_msg_type& m) {{nopre np; mine_l = mine_cached();} take(std::string(m.data(), m.size())); handled(); return true;}
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<typename B::out_msg_type>& can) {size_t n = 0; for (; !can.empty(); ++n) {{nopre np; mine_l = mine_cached();} take(std::string(can.front().data(), can.front().size())); can.pop_front();} handled(); return n;}
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(typename B::in_msg_type&) {sim_probe("sec.notified");}
#endif
	slink* cached;
	slink* mine_cached() {slink* l = mine(); if (l) cached = l; return l;}
	virtual void on_unpack_error() {sim_fail(PID ".misread", "speaker %u: the received bytes cannot be unpacked", me);}
	virtual void on_close()
	{
		{
			nopre np;
			if (++closes > starts) sim_fail(PID ".closed_twice", "speaker %u: on_close() called again", me);
			live = false; closed_at = sim_now_ns(); sim_probe("closes");
		}
		maybe_delay(g_cdelay, 3000);
		B::on_close();
	}
};
class cli : public rec<cbase>
{
public:
#ifdef H_WS
	template<typename A> cli(A& a) : rec<cbase>(a, false) {}
#else
	template<typename A, typename C> cli(A& a, C& c) : rec<cbase>(a, c, false) {}
#endif
	using rec<cbase>::is_reconnect;
};
class srv_s;
static std::vector<srv_s*> g_srv; // alive
class srv_s : public rec<sbase>
{
public:
#ifdef H_WS
	template<typename A> srv_s(A& a) : rec<sbase>(a, true) {nopre np; g_srv.push_back(this);}
#else
	template<typename A, typename C> srv_s(A& a, C& c) : rec<sbase>(a, c, true) {nopre np; g_srv.push_back(this);}
#endif
	~srv_s() {nopre np; for (size_t i = 0; i < g_srv.size(); ++i) if (g_srv[i] == this) {g_srv.erase(g_srv.begin() + i); break;} if (closes != starts) sim_fail(PID ".close_count", "a server side connection was started %u times and saw %u on_close() before it was destroyed", starts, closes);}
};
#ifdef H_WS
typedef st_asio_wrapper::tcp::server_base<srv_s> server_t;
typedef st_asio_wrapper::tcp::multi_client_base<cli> pool_t;
#else
typedef st_asio_wrapper::ssl::server_base<srv_s> server_t;
typedef st_asio_wrapper::ssl::multi_client_base<cli> pool_t;
#endif
class pump : public service_pump {public: pump() {}};

// ---------------------------------------------------------------- relay
static script draw_script()
{
	script s; memset(&s, 0, sizeof s);
	s.what = g_tame || P(3) ? F_NONE : (fate) P(4);
#ifdef H_WS
	if (F_CORRUPT == s.what) s.what = F_CUT;
#endif
	s.dir = P(2); s.at = P(3) == 0 ? P(100) : P(2) ? P(3000) : P(8000); s.how = P(3);
	
#ifdef H_WS // the work grows with the number of pieces
	static const unsigned ch[] = {0, 9, 40, 200};
#else
	static const unsigned ch[] = {0, 1, 7, 200};
#endif
	 s.chunk = g_tame ? 0 : ch[P(4)]; s.gap_us = P(2) ? 2000 : 50; s.stall_ms = !g_tame && P(6) == 5 ? 1 + P(1500) : 0;
	return s;
}
struct relay_arg {int fd; unsigned cport;};
static unsigned g_next_local = 31000;
static void relay_conn(relay_arg* a)
{
	raw_peer c(a->fd); raw_peer s; unsigned lp;
	slink* l = new slink;
	{nopre np; lp = g_next_local++; l->s = draw_script(); l->cport = a->cport; l->sport = lp; g_by_c[a->cport] = l; g_by_s[lp] = l;}
	delete a;
	sim_probe("sec.link");
	bool open[2] = {true, true}; unsigned stalls = 0;
	if (!s.connect_(SRV_PORT, (unsigned short) lp)) {nopre np; l->ended = true; return;}
	while (open[0] && open[1])
	{
		{nopre np; if (g_stop && F_MUTE == l->s.what && l->touched) break;}
		pollfd p[2]; p[0].fd = c.fd; p[1].fd = s.fd; p[0].events = p[1].events = POLLIN; p[0].revents = p[1].revents = 0;
		if (::poll(p, 2, 50) <= 0)
		{
			nopre* np = new nopre; bool kill = g_kill_ppm && !g_tame && l->srv_up && l->cli_up && sim_chanceT(SS_PEER, g_kill_ppm); if (kill) l->touched = true; delete np;
			if (kill) {sim_probe("sec.killed"); if (P(2)) {c.reset_(); s.reset_();} break;}
			if (g_tame && F_NONE != l->s.what && l->touched) break; // a muted link ends when the faults do
			continue;
		}
		for (unsigned d = 0; d < 2; ++d)
		{
			if (0 == p[d].revents) continue;
			char b[3000]; ssize_t r = ::recv(p[d].fd, b, sizeof b, 0);
			if (r <= 0) {open[d] = false; break;}
			std::string t(b, r);
			bool cut = false;
			{
				nopre np;
				bool hit = F_NONE != l->s.what && d == l->s.dir && !g_tame && l->passed[d] + t.size() > l->s.at;
				if (F_MUTE == l->s.what && l->touched) t.clear();
				else if (hit && F_CORRUPT == l->s.what) {if (l->s.at >= l->passed[d]) {t[l->s.at - l->passed[d]] ^= (char) (1 << P(8)); l->touched = true; sim_probe("sec.corrupted");}}
				else if (hit) {t.resize(l->s.at > l->passed[d] ? l->s.at - l->passed[d] : 0); l->touched = true; if (F_CUT == l->s.what) cut = true; else sim_probe("sec.muted");}
				l->passed[d] += (unsigned) t.size();
				if (!l->hs_passed[d]) {l->head[d] += t; if (l->head[d].find("\r\n\r\n") != std::string::npos) {l->hs_passed[d] = true; l->head[d].clear();}}
			}
			if (l->s.stall_ms && stalls < 4 && !g_tame && 0 == P(4)) {++stalls; sleep_ms(l->s.stall_ms); sim_probe("sec.stalled");}
			if (!t.empty() && !(d ? c : s).send_all(t, g_tame ? 0 : l->s.chunk, l->s.gap_us)) {open[1 - d] = false; break;}
			if (cut) {sim_probe("sec.cut"); if (0 == l->s.how) {c.reset_(); s.reset_();} else if (1 == l->s.how) {c.close_(); s.reset_();} open[0] = false; break;}
		}
	}
	nopre np; l->ended = true;
}
static void relay_main(raw_listener* rl)
{
	boost::thread_group tg;
	for (;;)
	{
		{nopre np; if (g_stop) break;}
		unsigned pp; int fd = rl->accept_(&pp, 50);
		if (fd < 0) continue;
		relay_arg* a = new relay_arg; a->fd = fd; a->cport = pp;
		tg.create_thread(boost::bind(&relay_conn, a));
	}
	tg.join_all();
}
// a peer that does not speak the protocol
static void stranger_main(unsigned n)
{
	for (unsigned i = 0; i < n; ++i)
	{
		raw_peer p; if (!p.connect_(SRV_PORT, (unsigned short) (30000 + i))) continue;
		std::string d; static const char* const t[] = {"\x16\x03\x01\x02", "GET / HTTP/1.1\r\nHost: x\r\n", "GET / HTTP/1.1\r\n\r\n", "\x16\x03\x01\x00\x05\x01\x00\x00\x01\x00", "\x80\x80\x80\x80"};
		if (P(2)) {unsigned k = P(5); d.assign(t[k], 3 == k ? 10 : strlen(t[k]));} else for (unsigned k = P(60); k > 0; --k) d += (char) P(256);
		p.send_all(d, P(2) ? 3 : 0, 500); sim_probe("sec.stranger");
		switch (P(4)) {case 0: p.reset_(); break; case 1: p.half_close(); p.wait_end(200); break; case 2: p.wait_end(300); break; default: break;}
	}
}

struct uarg {cli* c; unsigned count, gap_us; bool of;};
static void user_main(uarg* a) {for (unsigned i = 0; i < a->count; ++i) {a->c->tx(4 + W(g_max), W(4), a->of || W(2)); if (a->gap_us && W(3)) sleep_us(1 + W(a->gap_us));}}
struct grab {std::vector<boost::shared_ptr<srv_s> >* v; grab(std::vector<boost::shared_ptr<srv_s> >* v_) : v(v_) {} void operator()(const boost::shared_ptr<srv_s>& s) const {v->push_back(s);}};
struct sarg {server_t* s; unsigned count, gap_us; bool of;};
static void srv_user(sarg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		std::vector<boost::shared_ptr<srv_s> > v; a->s->do_something_to_all(grab(&v));
		if (!v.empty()) {boost::shared_ptr<srv_s> s = v[W((unsigned) v.size())]; if (s->is_ready()) s->tx(4 + W(g_max), W(4), a->of || W(2));}
		if (a->gap_us && W(3)) sleep_us(1 + W(a->gap_us));
	}
}
static bool gone(cli* c) {nopre np; return c->starts && c->closes >= c->starts && !c->is_reconnect();}
static bool complete(unsigned who, unsigned from) {nopre np; speaker& s = *g_sp[who]; for (size_t k = from; k < s.out.size(); ++k) if (s.out[k].accepted && !s.out[k].got) return false; return true;}
static std::string lag(unsigned who, unsigned from) {nopre np; speaker& s = *g_sp[who]; unsigned n = 0; for (size_t k = from; k < s.out.size(); ++k) n += s.out[k].accepted && !s.out[k].got; char b[60]; snprintf(b, sizeof b, "%u of %u", n, (unsigned) s.out.size() - from); return b;}

static void sec_run()
{
	m_enable(PID);
#ifdef H_WS
	{std::seed_seq q{1, 2, 3, (int) K(1000)}; boost::beast::websocket::seed_prng(q);}
#else
	{static RAND_METHOD rm; memset(&rm, 0, sizeof rm); rm.bytes = &rnd_bytes; rm.pseudorand = &rnd_bytes; rm.status = &rnd_status; RAND_set_rand_method(&rm); g_rnd += K(100000);}
#endif
	static const unsigned lats[] = {0, 50, 500, 5000}; unsigned la = lats[K(4)]; sim_net.lat_max_us = la; sim_net.lat_min_us = la / 2;
	
#ifdef H_WS
	static const unsigned segs[] = {0, 0, 100, 1000, 40};
#else
	static const unsigned segs[] = {0, 0, 100, 1000, 5};
#endif
	 sim_net.max_seg = segs[K(5)];
	static const unsigned sr[] = {0, 0, 200000}; sim_net.short_read_ppm = sr[K(3)]; sim_net.short_write_ppm = sr[K(3)];
	static const unsigned pp[] = {0, 0, 50000, 200000}; g_hdelay = pp[K(4)]; g_cdelay = pp[K(4)]; g_kill_ppm = pp[K(4)];
	static const unsigned sh[] = {0, 0, 0, 10000, 50000}; g_shut_ppm = sh[K(5)];
	static const unsigned mx[] = {300, 60, 1500, 3500}; g_max = mx[K(4)];
	bool relay = K(4) != 3; g_tame = K(4) == 3 || !relay;
	unsigned n = 1 + K(3), ts = 1 + K(4), tc = 1 + K(3);
	pump sps, spc; bool one = K(3) == 2; pump& pc = one ? sps : spc;
#ifdef H_WS
	boost::scoped_ptr<server_t> server(new server_t(sps)); boost::scoped_ptr<pool_t> pool(new pool_t(pc));
#else
	static const boost::asio::ssl::context::method meth[] = {boost::asio::ssl::context::tls, boost::asio::ssl::context::tlsv12};
	boost::asio::ssl::context::method m = meth[K(2)];
	boost::scoped_ptr<server_t> server(new server_t(sps, m)); boost::scoped_ptr<pool_t> pool(new pool_t(pc, m));
	server->context().use_certificate(boost::asio::buffer(cert_pem, sizeof cert_pem - 1), boost::asio::ssl::context::pem);
	server->context().use_private_key(boost::asio::buffer(key_pem, sizeof key_pem - 1), boost::asio::ssl::context::pem);
	bool trust = K(4) != 3, verify = !trust || K(2);
	if (verify) pool->context().set_verify_mode(boost::asio::ssl::verify_peer);
	if (verify && trust) pool->context().add_certificate_authority(boost::asio::buffer(cert_pem, sizeof cert_pem - 1));
	if (!trust) sim_probe("sec.untrusted");
#endif
	server->set_server_addr(SRV_PORT, "127.0.0.1");
	raw_listener rl; if (relay) rl.listen_(RELAY);
	std::vector<boost::shared_ptr<cli> > cs;
	sps.start_service(ts); if (!one) spc.start_service(tc);
	for (unsigned i = 0; i < n; ++i)
	{
		boost::shared_ptr<cli> c = pool->create_object(); c->set_server_addr(relay ? RELAY : SRV_PORT, "127.0.0.1"); cs.push_back(c);
		if (K(2)) c->tx(4 + W(g_max), 0, true);
		if (!relay) {nopre np;}
		pool->add_socket(c);
	}
	boost::thread rt; if (relay) rt = boost::thread(boost::bind(&relay_main, &rl));
	bool strangers = K(3) == 2;
	boost::thread st; if (strangers) st = boost::thread(boost::bind(&stranger_main, 1 + K(4)));
	{
		boost::thread_group tg; std::vector<uarg> ua(n); std::vector<sarg> sa(K(3));
		for (unsigned i = 0; i < n; ++i) {uarg a = {cs[i].get(), 1 + K(20), K(2) ? 30000u : 1000u, K(2) == 0}; ua[i] = a; tg.create_thread(boost::bind(&user_main, &ua[i]));}
		for (size_t i = 0; i < sa.size(); ++i) {sarg a = {server.get(), 1 + K(20), K(2) ? 30000u : 1000u, K(2) == 0}; sa[i] = a; tg.create_thread(boost::bind(&srv_user, &sa[i]));}
		if (K(3) == 2) // somebody hangs up in the middle of it
		{
			sleep_us(1 + W(300000));
			unsigned k = W(n + 1);
			if (k < n) {sim_probe("sec.shut"); bool re = W(2) && !cs[k]->told && false; cs[k]->told_now(); W(2) ? cs[k]->force_shutdown(re) : cs[k]->graceful_shutdown(re);}
			else {std::vector<boost::shared_ptr<srv_s> > v; server->do_something_to_all(grab(&v)); if (!v.empty()) {boost::shared_ptr<srv_s> s = v[W((unsigned) v.size())]; if (s->live) {sim_probe("sec.srv_shut"); s->told_now(); W(2) ? s->force_shutdown() : s->graceful_shutdown();}}}
		}
		tg.join_all();
	}
	bool hasty = K(5) == 4;
	if (hasty) sim_probe("sec.stopped_midway");
	else
	{
		if (K(2)) sleep_us(W(500000));
		sim_net_quiet(); sim_stop_schedule_noise();
		{nopre np; g_tame = true; g_shut_ppm = 0; g_hdelay = g_cdelay = 0;}
		// every client that was neither told to end nor refused comes (back) to an established link; everything sent on a link nobody disturbs arrives
		uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns(), moves = g_moves;
		for (;;)
		{
			bool all = true; std::string why;
			for (unsigned i = 0; i < n; ++i)
			{
				cli* c = cs[i].get();
				if (gone(c))
				{
					nopre np; // told by whom?
					if (!c->told && 0 == c->hs_fail && !c->is_reconnect()) sim_fail(PID ".gave_up", "client %u ended for good: nobody told it to and no handshake failed", i);
					continue;
				}
				nopre np;
				if (!c->live || c->told) {all = false; why = c->told ? "a client told to shut down has not closed" : "a client has no established connection"; continue;}
				if (!complete(c->me, c->up_from)) {all = false; why = "messages of a client do not arrive: " + lag(c->me, c->up_from);}
			}
			{
				nopre np;
				for (size_t i = 0; i < g_srv.size(); ++i) if (g_srv[i]->live)
				{
					srv_s* s = g_srv[i];
					if (s->told) {all = false; why = "a server side connection told to shut down has not closed";}
					else if (!complete(s->me, 0)) {all = false; why = "messages of a server side connection do not arrive: " + lag(s->me, 0);}
				}
			}
			if (all) break;
			if (moves != g_moves) {moves = g_moves; t0 = sim_now_ns(); s0 = sim_stall_ns();}
			else if (sim_now_ns() - t0 > 45000000000ull + (sim_stall_ns() - s0))
			{
				for (unsigned i = 0; i < n; ++i) if (cs[i]->live && cs[i]->send_err) sim_fail(PID ".close_late_send_error", "client %u, whose peer has gone, reported a failed send, but no on_close() 45 s after all faults have ended", i);
				sim_fail(PID ".stuck", "45 s after all faults have ended: %s", why.c_str());
			}
			sleep_ms(20);
		}
		sim_probe("sec.settled");
		// now everybody hangs up
		if (K(2))
		{
			bool by_srv = K(2); sim_probe("sec.all_shut");
			if (by_srv) {std::vector<boost::shared_ptr<srv_s> > v; server->do_something_to_all(grab(&v)); for (unsigned i = 0; i < n; ++i) cs[i]->set_reconnect(false); for (size_t i = 0; i < v.size(); ++i) {v[i]->told_now(); W(2) ? v[i]->force_shutdown() : v[i]->graceful_shutdown();}}
			else for (unsigned i = 0; i < n; ++i) if (!gone(cs[i].get())) {cs[i]->told_now(); W(2) ? cs[i]->force_shutdown() : cs[i]->graceful_shutdown();}
			t0 = sim_now_ns(); s0 = sim_stall_ns();
			for (;;)
			{
				bool all = true;
				for (unsigned i = 0; i < n; ++i) if (!gone(cs[i].get())) all = false;
				if (all) break;
				if (sim_now_ns() - t0 > (SHUT_MS + (by_srv ? PEER_MS : 0)) * 1000000ull + (sim_stall_ns() - s0))
				{
					bool se = by_srv; // known finding: after a failed write nobody completes Beast's read operation
					for (unsigned i = 0; i < n; ++i) if (!gone(cs[i].get()) && !cs[i]->send_err) se = false;
					const char* w = by_srv ? "server" : "client"; unsigned ms = SHUT_MS + (by_srv ? PEER_MS : 0);
					if (se) sim_fail(PID ".close_late_send_error", "a connection whose peer has gone reports a failed send, but no on_close() within %u ms", ms);
					else sim_fail(PID ".close_late", "a connection told to shut down (by the %s) has not reported on_close() within %u ms", w, ms);
				}
				sleep_ms(10);
			}
		}
	}
	if (!one) spc.stop_service();
	sps.stop_service();
	{nopre np; g_stop = true; g_tame = true;}
	if (strangers) st.join();
	if (relay) rt.join();
	{
		nopre np;
		for (unsigned i = 0; i < n; ++i) if (cs[i]->closes != cs[i]->starts) sim_fail(PID ".close_count", "client %u has been started %u times and has seen %u on_close() after the service was stopped", i, cs[i]->starts, cs[i]->closes);
		for (size_t i = 0; i < g_srv.size(); ++i) if (g_srv[i]->closes != g_srv[i]->starts) sim_fail(PID ".close_count", "a server side connection has been started %u times and has seen %u on_close() after the service was stopped", g_srv[i]->starts, g_srv[i]->closes);
	}
	sim_probe_n("messages", (unsigned) g_moves);
	cs.clear(); pool.reset(); server.reset();
}
const char* const sim_harness_scenarios = "c19 c20";
void sim_harness_run() {sec_run();}
