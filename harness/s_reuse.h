// C12: objects which are reused (ST_ASIO_REUSE_OBJECT) or restored (ST_ASIO_RESTORE_OBJECT) for new connections
#ifndef S_REUSE_H_
#define S_REUSE_H_

enum {C12_TIMER = 130};
template<typename S> static void c12_fresh(S& s, const char* what)
{
	if (s.get_pending_send_msg_size() || s.get_pending_recv_msg_size()) sim_fail("C12.buffers", "a new %s starts with %u bytes to be sent and %u received bytes", what, (unsigned) s.get_pending_send_msg_size(), (unsigned) s.get_pending_recv_msg_size());
	if (s.is_sending() || s.is_dispatching() || s.is_recv_idle() || s.is_shutting_down()) sim_fail("C12.flags", "a new %s starts with flags of an earlier connection (sending %d, dispatching %d, idle %d, shutting down %d)", what, s.is_sending(), s.is_dispatching(), s.is_recv_idle(), s.is_shutting_down());
	const struct statistic& t = s.get_statistic();
	if (t.send_msg_sum || t.send_byte_sum || t.recv_msg_sum || t.recv_byte_sum || t.last_send_time || t.last_recv_time || t.break_time) sim_fail("C12.statistics", "a new %s starts with statistics of an earlier connection (sent %u, received %u messages, %u bytes)", what, (unsigned) t.send_msg_sum, (unsigned) t.recv_msg_sum, (unsigned) t.recv_byte_sum);
#ifdef ST_ASIO_FULL_STATISTIC
	if (t.send_delay_sum.count() || t.send_time_sum.count() || t.pack_time_sum.count() || t.unpack_time_sum.count() || t.dispatch_delay_sum.count() || t.recv_idle_sum.count() || t.handle_time_sum.count() || t.unpack_time_sum.num || t.handle_time_sum.num)
		sim_fail("C12.statistics", "a new %s starts with durations of an earlier connection", what);
#endif
	for (int i = 0; i <= C12_TIMER; ++i) if (s.is_timer((typename S::tid) (S::TIMER_END + i))) sim_fail("C12.timers", "a new %s starts with a running timer of an earlier connection", what);
}
template<typename S> struct c12_gen // asynchronous work of one life of an object
{
	S* s; int chan;
	c12_gen(S* s_) : s(s_), chan(s_->chan) {}
	void check() const {if (s->chan != chan) sim_fail("C12.stale_call", "a timer or posted call of an earlier connection runs on a later connection of a reused object");}
	bool timer(unsigned short) const {check(); sim_probe("c12.timer"); return true;}
	void operator()() const {check(); sim_probe("c12.post");}
};
template<typename S> static bool c12_timer_cb(c12_gen<S> g, unsigned short id) {return g.timer(id);}
template<typename S> static void c12_post_cb(c12_gen<S> g) {g();}
static void c12_async(srv_sock& s)
{
	c12_gen<srv_sock> g(&s);
	if (sim_chooseT(SS_WORK4, 2)) s.set_timer((srv_sock::tid) (srv_sock::TIMER_END + C12_TIMER), 1 + sim_chooseT(SS_WORK4, 300), boost::bind(&c12_timer_cb<srv_sock>, g, boost::placeholders::_1));
	if (sim_chooseT(SS_WORK4, 2)) s.post(boost::bind(&c12_post_cb<srv_sock>, g));
}
static void c12_on_connect(srv_sock* s) {c12_fresh(*s, "server connection"); c12_async(*s);}
static void c12_on_msg(srv_sock* s, const char*, size_t) {if (0 == sim_chooseT(SS_WORK4, 8)) c12_async(*s);}

struct c12_arg {world* w; unsigned port, conns;};
// prev: what earlier links of the same life of a reconnecting client may have left behind
static void c12_prefix(rawconn* c, const ref_result& r, const char* side, bool all, const std::set<std::string>& prev)
{
	sim_nopreempt(1);
	size_t k = 0, n = c->msgs.size(); bool fits = false;
	for (; k <= n; ++k)
	{
		fits = n - k <= r.msgs.size() && (!all || n - k == r.msgs.size()) && std::equal(c->msgs.begin() + k, c->msgs.end(), r.msgs.begin());
		if (fits || n == k || 0 == prev.count(c->msgs[k])) break;
	}
	if (!fits)
		sim_fail("C12.messages", "%s connection %u handed over %u messages, %s, which are not the %u messages its peer sent", side, c->port, (unsigned) n, n > k ? brief(c->msgs[k]).c_str() : "", (unsigned) r.msgs.size());
	if (c->unpack_errors && !r.error) sim_fail("C12.unpack_error", "%s connection %u: unpack error on a valid stream", side, c->port);
	sim_nopreempt(-1);
}
static void c12_script(c12_arg* a, raw_peer& p, rawconn* c, const char* side, std::set<std::string>& prev)
{
	raw_up up = {c};
	if (!wait_until(up, 10000)) sim_fail("C12.broken", "%s connection %u is not announced", side, c->port);
	std::string stream = make_stream(g_framing, P(8)); ref_result r; ref_framing(g_framing, stream, r);
	unsigned plan = P(7);
	c07_sock k = {c->srv, c->cli, a->w};
	int chan = k.chan();
	raw_has h = {c, r.msgs.size(), false};
	switch (plan)
	{
	case 0: case 1: // an ordinary conversation: works as on a fresh object
		{
			if (r.error) break;
			unsigned base = m_accepted(chan), n = P(8);
			std::string left; unsigned got = base; bool reset = false, first = true;
			bool before = P(2);
			if (!before) p.send_all(stream, P(3) ? 1 + P(1500) : 0, P(2) ? 300 : 0);
			for (unsigned i = 0; i < n; ++i) {k.tx(); if (P(2)) sleep_us(P(2000));}
			if (before) p.send_all(stream, P(3) ? 1 + P(1500) : 0, P(2) ? 300 : 0);
			bool parse = F_DEFAULT == g_framing;
			for (unsigned i = 0; i < 30000 && parse && !reset && got < m_accepted(chan); ++i) {char b[4096]; ssize_t x = p.recv_(b, sizeof b, 20); if (x > 0) left.append(b, x); else if (-2 != x) reset = true; c07_parse(left, got, chan, &first);}
			if (parse && got < m_accepted(chan)) sim_fail("C12.stuck", "%s connection %u: the peer could read %u of %u messages", side, c->port, got - base, m_accepted(chan) - base);
			wait_progress(h, raw_total, 6000);
			c12_prefix(c, r, side, prev.empty(), prev);
			sim_probe("c12.ordinary");
			if (P(2)) p.reset_(); else p.close_();
		}
		break;
	case 2: // ends anywhere, in the middle of a frame for example
		p.send_all(stream.substr(0, P((unsigned) stream.size() + 1)), 0, 0);
		if (P(2)) sleep_us(P(30000));
		if (P(2)) p.reset_(); else p.close_();
		sim_probe("c12.cut");
		break;
	case 3: // many messages unsent
		for (unsigned i = 0, n = 3 + P(25); i < n; ++i) k.tx();
		p.send_all(stream, 0, 0);
		if (P(2)) sleep_us(P(30000));
		if (P(2)) p.reset_(); else p.close_();
		sim_probe("c12.unsent");
		break;
	case 4: case 5: // ended by this side
		p.send_all(stream.substr(0, P((unsigned) stream.size() + 1)), P(2) ? 0 : 100, 100);
		for (unsigned i = 0, n = P(12); i < n; ++i) k.tx();
		if (P(2)) sleep_us(P(20000));
		if (r.error) break; // the connection may be gone already
		if (P(3)) k.force(c->cli != NULL && P(2)); else k.grace(c->cli != NULL && P(2));
		p.wait_end(8000); p.close_();
		sim_probe("c12.ended_here");
		break;
	default: // malformed or refused, the end comes soon
		p.send_all(stream, 0, 0);
		if (P(2)) sleep_us(P(80000));
		if (P(2)) p.reset_(); else p.close_();
		break;
	}
	p.close_();
	raw_closed closed = {c, 1};
	if (!wait_until(closed, 30000)) sim_fail("C12.broken", "%s connection %u is not closed", side, c->port);
	c12_prefix(c, r, side, false, prev);
	if (c->cli || !prev.empty()) prev.insert(r.msgs.begin(), r.msgs.end());
	sim_state(0xC12 * 7 + plan);
}
static void c12_client_main(c12_arg* a)
{
	for (unsigned i = 0; i < a->conns; ++i)
	{
		rawconn* c = raw_get(a->port + i, true); raw_peer p;
		if (!p.connect_(PORT, (unsigned short) (a->port + i))) sim_fail("C12.broken", "the server does not accept");
		std::set<std::string> none; c12_script(a, p, c, "server side", none);
		if (P(2)) sleep_us(P(300000));
	}
}
static void c12_server_main(c12_arg* a)
{
	raw_listener l;
	if (!l.listen_(5060)) sim_fail("harness", "raw listener");
	boost::shared_ptr<cli_sock> rc; std::set<std::string> prev;
	for (unsigned i = 0; i < a->conns; ++i)
	{
		if (!rc || rc->no_reconnect)
		{
			prev.clear(); rc = a->w->pool->create_object(); rc->set_server_addr(5060, "127.0.0.1"); a->w->tune(*rc);
			c12_fresh(*rc, "client object");
			if (!rc->is_reconnect() || !rc->is_broken()) sim_fail("C12.flags", "a new client object %s", rc->is_reconnect() ? "is not disconnected" : "will not reconnect");
			a->w->pool->add_socket(rc);
		}
		unsigned port = 0; int fd = l.accept_(&port, 20000);
		if (fd < 0) sim_fail("C12.broken", "the client did not connect");
		raw_peer p(fd);
		rawconn* c = raw_get(port, true);
		raw_up up = {c};
		if (!wait_until(up, 10000)) sim_fail("C12.broken", "client side connection %u is not announced", port);
		bool last = P(3);
		if (last)
		{
			rc->shut2(false, false); // also while connected: nothing of it may be seen later
			p.wait_end(8000); p.close_();
			raw_closed closed = {c, 1};
			if (!wait_until(closed, 30000)) sim_fail("C12.broken", "client side connection %u is not closed", port);
			rc.reset();
			sleep_ms(P(2) ? 100 + P(100) : P(1000));
		}
		else {c12_script(a, p, c, "client side", prev); if (!rc->is_reconnect()) rc->no_reconnect = true; if (rc->no_reconnect) rc.reset();}
	}
	if (rc) {rc->shut2(false, false); rc.reset();}
}
static void c12_reuse()
{
	m_enable("C05,C06,C12");
	tame_behaviour(); g_framing = K(2) ? (int) F_DEFAULT : (int) K(F_COUNT); if (F_FIXED == g_framing) g_fixed_len = 17 + K(200);
	g_size_max = K(2) ? 200 : 900;
	knob_net(false); knob_behaviour(false, true);
	if (B.handle_delay_max_us > 2000) B.handle_delay_max_us = 2000;
	B.reconnect_delay_ms = 30; static const unsigned rf[] = {0, 50000, 400000}; B.raw_refuse_ppm = rf[K(3)];
	srv_sock::hooks().connect = &c12_on_connect; srv_sock::hooks().msg = &c12_on_msg;
	world w; w.draw(1); w.nclients = 0; w.make(); w.server->accept_num = 1 + K(2);
	w.start();
	sleep_ms(50);
	{
		boost::thread_group tg; c12_arg a[3];
		unsigned n = 1 + K(2); bool cli = K(2);
		if (cli) g_raw_cli = true;
		for (unsigned i = 0; i < n; ++i) {a[i].w = &w; a[i].port = 30000 + 100 * i; a[i].conns = 2 + K(5); tg.create_thread(boost::bind(&c12_client_main, &a[i]));}
		if (cli) {a[2].w = &w; a[2].conns = 2 + K(4); tg.create_thread(boost::bind(&c12_server_main, &a[2]));}
		tg.join_all();
	}
	quiet(w);
	w.stop(); w.destroy();
	srv_sock::hooks() = srv_sock::hook_t();
}

#ifdef ST_ASIO_RESTORE_OBJECT
// ---- restoring: the application keeps (here) a number per connection, take_over copies it
struct c12_done {int mobj, udata; bool taken;};
static std::map<uint64_t, std::vector<c12_done> > g_done; // finished connections by id
static std::map<uint64_t, srv_sock*> g_owner;              // live connections by id
static int g_udata; static unsigned g_claims_ok, g_claims_no;
static void c12r_connect(srv_sock* s)
{
	sim_nopreempt(1);
	s->udata = ++g_udata; s->restored_from = -1;
	if (g_owner.count(s->id())) sim_fail("C12.two_owners", "a new connection has the id %llu of a live one", (unsigned long long) s->id());
	g_owner[s->id()] = s;
	sim_nopreempt(-1);
}
static void c12r_take_over(srv_sock* s, srv_sock* old)
{
	sim_nopreempt(1);
	++s->claims; s->udata = old->udata;
	bool found = false;
	std::vector<c12_done>& v = g_done[old->id()];
	for (size_t i = 0; i < v.size(); ++i) if (v[i].mobj == old->mobj) {found = true; if (v[i].taken) sim_fail("C12.taken_twice", "the finished connection %llu was taken over twice", (unsigned long long) old->id()); v[i].taken = true;}
	if (!found) sim_fail("C12.taken_unfinished", "connection %llu was taken over from an object which is not finished", (unsigned long long) old->id());
	if (s->id() != old->id()) sim_fail("C12.wrong_id", "take_over: the ids differ (%llu, %llu)", (unsigned long long) s->id(), (unsigned long long) old->id());
	sim_nopreempt(-1);
}
static void c12r_close(srv_sock* s)
{
	sim_nopreempt(1);
	c12_done d = {s->mobj, s->udata, false};
	g_done[s->id()].push_back(d);
	if (g_owner.count(s->id()) && g_owner[s->id()] == s) g_owner.erase(s->id()); else sim_fail("harness", "owner");
	sim_nopreempt(-1);
}
// 'R<id>': restore, 'I<id>': take this id
static void c12r_msg(srv_sock* s, const char* d, size_t n)
{
	if (n < 2 || ('R' != d[0] && 'I' != d[0])) return;
	bool init = 'I' == d[0];
	uint64_t id = strtoull(std::string(d + 1, n - 1).c_str(), NULL, 10), mine = s->id();
	unsigned claims = s->claims; int udata = s->udata;
	bool ok = s->owner().restore_socket(s->shared_from_this(), id, init);
	sim_nopreempt(1);
	uint64_t now_id = s->id();
	if (ok && now_id != id) sim_fail("C12.wrong_id", "restoring %llu succeeded, but the id is %llu", (unsigned long long) id, (unsigned long long) now_id);
	if (!ok && now_id != mine) sim_fail("C12.wrong_id", "restoring %llu failed, but the id changed from %llu to %llu", (unsigned long long) id, (unsigned long long) mine, (unsigned long long) now_id);
	if (s->claims - claims != (ok && !init ? 1u : 0u)) sim_fail("C12.take_over_calls", "%s %llu %s, take_over was called %u times", init ? "taking id" : "restoring", (unsigned long long) id, ok ? "succeeded" : "failed", s->claims - claims);
	if ((!ok || init) && s->udata != udata) sim_fail("C12.take_over_calls", "data changed");
	if (ok)
	{
		if (id != mine) {if (g_owner.count(id) && g_owner[id]->id() == id) sim_fail("C12.two_owners", "two live connections have the id %llu", (unsigned long long) id); if (g_owner.count(mine) && g_owner[mine] == s) g_owner.erase(mine); g_owner[id] = s;}
		++g_claims_ok;
	}
	else ++g_claims_no;
	sim_nopreempt(-1);
	boost::shared_ptr<tracked_executor> f = s->owner().find_socket(s->id());
	if (f.get() != static_cast<tracked_executor*>(s)) sim_fail("C12.lookup", "after %s %llu: looking up %llu gives %s", ok ? "restoring" : "failing to restore", (unsigned long long) id, (unsigned long long) s->id(), f ? "another connection" : "nothing");
	if (ok && id != mine && mine < 1000000 && s->owner().socket_exist(mine)) sim_fail("C12.lookup", "the discarded id %llu is still in the table", (unsigned long long) mine);
	sim_probe(ok ? init ? "c12.id_taken" : "c12.restored" : init ? "c12.id_not_taken" : "c12.not_restored");
	s->send_msg(ok ? "Y" : "N", 1, true);
}
static uint64_t c12r_pick() // an id somebody may want to restore
{
	sim_nopreempt(1);
	std::vector<uint64_t> v;
	for (std::map<uint64_t, std::vector<c12_done> >::iterator i = g_done.begin(); i != g_done.end(); ++i) v.push_back(i->first);
	for (std::map<uint64_t, srv_sock*>::iterator i = g_owner.begin(); i != g_owner.end(); ++i) if (0 == P(3)) v.push_back(i->first); // still alive: must fail, at least until it ends
	v.push_back(1000000 + P(3)); v.push_back(77777777);
	uint64_t r = v[P((unsigned) v.size())];
	sim_nopreempt(-1);
	return r;
}
static int c12r_ask(raw_peer& p, char what, uint64_t id, unsigned ms) // 1 yes, 0 no, -1 broken
{
	char b[40]; snprintf(b, sizeof b, "%c%llu", what, (unsigned long long) id);
	char a[8];
	if (!p.send_all(framed(b), P(3) ? 0 : 1, 100)) return -1;
	if (1 != p.recv_exact(a, ST_ASIO_HEAD_LEN + 1, ms)) return -1;
	return 'Y' == a[ST_ASIO_HEAD_LEN];
}
static void c12r_by_id(srv& s, raw_peer& p, uint64_t id) // messages for an id arrive at the connection which has it now
{
	static unsigned n; char b[40]; sim_nopreempt(1); snprintf(b, sizeof b, "T%u", ++n); sim_nopreempt(-1);
	{
		boost::shared_ptr<srv_sock> q = s.find(id);
		if (!q) sim_fail("C12.lookup", "the restored id %llu is not found", (unsigned long long) id);
		q->send_msg(b, strlen(b), true);
	}
	std::string f = framed(b), got(f.size(), 0);
	if (1 != p.recv_exact(&got[0], got.size(), 10000) || got != f) sim_fail("C12.lookup", "a message for the restored id %llu does not arrive at its new peer", (unsigned long long) id);
}
static void c12r_client(c12_arg* a)
{
	for (unsigned i = 0; i < a->conns; ++i)
	{
		rawconn* c = raw_get(a->port + i, true); raw_peer p;
		if (!p.connect_(PORT, (unsigned short) (a->port + i))) sim_fail("C12.broken", "the server does not accept");
		raw_up up = {c};
		if (!wait_until(up, 10000)) sim_fail("C12.broken", "connection %u is not announced", c->port);
		for (unsigned k = 0, n = P(5); k < n; ++k)
		{
			bool init = 0 == P(4);
			uint64_t id = init ? 1000000 + P(3) : c12r_pick();
			int r = c12r_ask(p, init ? 'I' : 'R', id, 30000);
			if (r < 0) sim_fail("C12.broken", "no answer");
			if (1 == r && P(2)) c12r_by_id(*a->w->server, p, id);
			if (P(2)) sleep_us(P(200000));
		}
		if (P(2)) p.reset_(); else p.close_();
		raw_closed closed = {c, 1};
		if (!wait_until(closed, 30000)) sim_fail("C12.broken", "connection %u is not closed", c->port);
	}
}
static void c12_restore()
{
	m_enable("C06,C12");
	tame_behaviour(); knob_net(false); knob_behaviour(false, true);
	if (B.handle_delay_max_us > 2000) B.handle_delay_max_us = 2000;
	B.user_timer_ppm = B.user_post_ppm = 0;
	g_done.clear(); g_owner.clear(); g_udata = 0; g_claims_ok = g_claims_no = 0;
	srv_sock::hook_t h = {&c12r_connect, &c12r_take_over, &c12r_close, &c12r_msg}; srv_sock::hooks() = h;
	world w; w.draw(1); w.nclients = 0; w.make();
	w.start();
	sleep_ms(50);
	{
		boost::thread_group tg; c12_arg a[4]; unsigned n = 2 + K(3);
		for (unsigned i = 0; i < n; ++i) {a[i].w = &w; a[i].port = 30000 + 100 * i; a[i].conns = 1 + K(4); tg.create_thread(boost::bind(&c12r_client, &a[i]));}
		tg.join_all();
	}
	sim_stop_schedule_noise(); B.handle_delay_ppm = B.cb_delay_ppm = 0;
	sleep_ms(3000);
	// everything is over: each finished and not yet restored connection can be restored, once
	std::vector<uint64_t> ids; sim_nopreempt(1);
	for (std::map<uint64_t, std::vector<c12_done> >::iterator i = g_done.begin(); i != g_done.end(); ++i)
		for (size_t k = 0; k < i->second.size(); ++k) if (!i->second[k].taken) {ids.push_back(i->first); break;}
	sim_nopreempt(-1);
	if (!g_owner.empty() || w.server->size()) sim_fail("C12.lookup", "%u connections in the table, all have ended", (unsigned) w.server->size());
	for (size_t i = 0; i < ids.size() && i < 4; ++i)
	{
		rawconn* c = raw_get(31000 + (unsigned) i, true); raw_peer p;
		if (!p.connect_(PORT, (unsigned short) (31000 + i))) sim_fail("C12.broken", "the server does not accept");
		raw_up up = {c};
		if (!wait_until(up, 10000)) sim_fail("C12.broken", "connection %u is not announced", c->port);
		if (1 != c12r_ask(p, 'R', ids[i], 30000)) sim_fail("C12.cannot_restore", "connection %llu ended 3 s ago, nobody has restored it, but it cannot be restored", (unsigned long long) ids[i]);
		c12r_by_id(*w.server, p, ids[i]);
		raw_peer p2; rawconn* c2 = raw_get(31100 + (unsigned) i, true);
		if (!p2.connect_(PORT, (unsigned short) (31100 + i))) sim_fail("C12.broken", "the server does not accept");
		raw_up up2 = {c2};
		if (!wait_until(up2, 10000)) sim_fail("C12.broken", "connection %u is not announced", c2->port);
		if (0 != c12r_ask(p2, 'R', ids[i], 30000)) sim_fail("C12.two_owners", "connection %llu was restored while it is alive", (unsigned long long) ids[i]);
	}
	w.stop(); w.destroy();
	srv_sock::hooks() = srv_sock::hook_t();
}
#endif
#endif
