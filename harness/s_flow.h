// Flow control (C04), fate of outgoing messages (C02), graceful shutdown (C07)
#ifndef S_FLOW_H_
#define S_FLOW_H_

// ---------------------------------------------------------------- C04
struct flow {world* w; unsigned limit; volatile bool stop; bool down; bool notes[2]; // direction: down = clients receive, else servers do
	flow(world* w_, bool d) : w(w_), limit(0), stop(false), down(d) {}};
enum {FLOW_READ = 4000}; // the unpackers' buffer: what one read may bring
template<typename S> static void flow_check(S& s, unsigned limit, const char* what)
{
	size_t p = s.get_pending_recv_msg_size();
	sim_state(0xC04 * 131 + (p >= limit) * 7 + s.is_dispatching() * 3 + s.is_recv_idle());
	if (p > (size_t) limit - 1 + FLOW_READ) sim_fail("C04.over_limit", "%s: %u bytes are waiting for being dispatched, the limit is %u, one read brings at most %d", what, (unsigned) p, limit, (int) FLOW_READ);
}
static void flow_monitor(flow* f)
{
	while (!f->stop)
	{
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*f->w, v);
		for (size_t i = 0; i < v.size(); ++i) flow_check(*v[i], f->limit, "server socket");
		v.clear();
		for (size_t i = 0; i < f->w->clients.size(); ++i) flow_check(*f->w->clients[i], f->limit, "client socket");
		sleep_ms(3);
	}
}
template<typename S> static bool flow_blocked(S& s, unsigned limit)
{
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	return s.get_pending_recv_msg_size() >= limit;
#else
	return s.is_dispatching() && s.get_pending_recv_msg_size() >= limit;
#endif
}
static bool flow_all_blocked(world& w, bool down, unsigned limit)
{
	if (down) {for (size_t i = 0; i < w.clients.size(); ++i) if (!flow_blocked(*w.clients[i], limit)) return false; return true;}
	std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
	for (size_t i = 0; i < v.size(); ++i) if (!flow_blocked(*v[i], limit)) return false;
	return v.size() == w.clients.size();
}
static uint64_t flow_read(bool down) {return sim_net_stream_bytes_read(PORT, !down);}
static uint64_t flow_sent(bool down) {return sim_net_stream_bytes_sent(PORT, down);}
struct flow_moved {bool down; uint64_t was; bool operator()() const {return flow_read(down) > was;}};
static void flow_send(world& w, bool down, unsigned count, unsigned gap)
{
	senders ss;
	if (down) {unsigned n = 1 + K(2); for (unsigned i = 0; i < n; ++i) ss.add(&w, 0, true, count, gap, true);}
	else for (int i = 0; i < w.nclients; ++i) ss.add(&w, i, false, count, gap, true);
	ss.join();
}
static void c04_flow()
{
	m_enable("C01,C04");
	tame_behaviour(); knob_framing(false); knob_net(false);
	static const unsigned mx[] = {200, 900, 3000, 40, 3900};
	g_size_max = mx[K(5)]; static const int fr[] = {F_DEFAULT, F_FLEXIBLE, F_UNPACKER2, F_PREFIX_SUFFIX, F_UNSTRIPPED}; g_framing = fr[K(5)];
	static const unsigned nb[] = {1024, 4096, 200, 16384};
	sim_net.sndbuf = nb[K(4)]; sim_net.rcvbuf = nb[K(4)];
	knob_behaviour(false, true);
	B.user_timer_ppm = B.user_post_ppm = 0; B.on_msg_take_all = false;
	world w; w.draw(2);
	static const unsigned rb[] = {1000, 200, 1, 3000, 6000};
	w.recv_buf = rb[K(5)];
	static const unsigned iv[] = {50, 10, 200, 500};
	unsigned resume = iv[K(4)];
	w.make();
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C04.never_connected", "clients not connected within 8 s although nothing fails");
	wait_until(boost::lambda::bind(&srv::size, w.server.get()) == (size_t) w.nclients, 8000, 2);
	bool breaks = K(4) == 3, down = K(2);
	{
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
		for (size_t i = 0; i < v.size(); ++i) {w.tune(*v[i]); v[i]->msg_resuming_interval(resume);}
		for (size_t i = 0; i < w.clients.size(); ++i) w.clients[i]->msg_resuming_interval(resume);
	}
	flow f(&w, down); f.limit = w.recv_buf;
	if (breaks) w.recv_buf = w.recv_buf < 1000 ? w.recv_buf : 1000;
	boost::scoped_ptr<boost::thread> mon;
	if (!breaks || down) mon.reset(new boost::thread(boost::bind(&flow_monitor, &f))); // links accepted later have other limits
	unsigned cycles = 1 + K(3), hd = B.handle_delay_ppm;
	static const unsigned rp[] = {0, 0, 100000, 400000};
	unsigned refuse = rp[K(4)];
	for (unsigned c = 0; c < cycles; ++c)
	{
		bool last = c + 1 == cycles;
		B.refuse_ppm = refuse; B.handle_delay_ppm = hd; B.hold = false;
		if (K(2)) flow_send(w, down, 1 + K(6), 2000);
		B.hold = true;
		flow_send(w, down, 5 + K(40), K(2) ? 2000 : 0);
		if (breaks)
			for (unsigned i = 0, n = 1 + K(4); i < n; ++i)
			{
				sleep_ms(1 + K(400)); sim_probe("c04.break_while_blocked");
				if (K(3)) sim_net_reset_all(PORT); else for (size_t k = 0; k < w.clients.size(); ++k) w.clients[k]->shut2(false, true);
				sleep_ms(100);
				wait_until(boost::bind(&world::all_connected, &w), 5000);
				flow_send(w, down, 2 + K(40), 0);
			}
		if (last) {hd = 0; B.refuse_ppm = 0; quiet(w);}
		sleep_ms(last ? 1600 : 100 + K(1000));
		if (flow_all_blocked(w, down, f.limit) && (!breaks || down))
		{
			sim_probe("c04.blocked");
			uint64_t was = flow_read(down);
			sleep_ms(50 + K(1500));
			if (!breaks && flow_read(down) != was) sim_fail("C04.read_over_limit", "%u bytes were read while every receiver had its limit of %u bytes undispatched", (unsigned) (flow_read(down) - was), f.limit);
			bool waiting = flow_sent(down) > was;
			B.hold = false;
			if (last && waiting && !breaks)
			{
				flow_moved m = {down, was};
				if (!wait_until(m, 20 + resume + 60, 2)) sim_fail("C04.not_resumed", "receiving has not resumed %u ms after the consumer began to drain the backlog (checking interval %u ms)", 20 + resume + 60, resume);
				sim_probe("c04.resumed");
			}
		}
		B.hold = false;
	}
	if (breaks) {wait_progress(boost::bind(&settled, &w, w.clients.size()), total_delivered, 6000); if (!down) check_recovered(w, "C04", 15000); else if (!wait_progress(boost::bind(&none_refused, &w), total_delivered, 6000)) sim_fail("C04.stuck", "a message is not dispatched for 6 s");}
	else if (!wait_progress(all_chans_delivered, total_delivered, 6000))
		for (unsigned c = 0; c < m_chan_count(); ++c) if (!m_all_delivered(c))
			sim_fail("C04.stuck", "channel %u: only %u of %u accepted messages were handed over, nothing moves for 6 s", c, m_delivered(c), m_accepted(c));
	f.stop = true; if (mon) mon->join();
	m_check_final(breaks ? 0 : 1);
	w.stop(); w.destroy();
}

// ---------------------------------------------------------------- C02
static unsigned wire_size(unsigned n) {return n + (F_PREFIX_SUFFIX == g_framing ? 7 : F_PREFIX_ONLY_SUFFIX == g_framing ? 2 : F_FIXED == g_framing ? 0 : ST_ASIO_HEAD_LEN);}
template<typename S> static void c02_pop(S& s, bool all)
{
	if (all)
	{
		typename S::in_container_type can;
		s.pop_all_pending_send_msg(can);
		if (!can.empty()) sim_probe("c02.popped_all");
		s.fates_once(FATE_POP, can);
	}
	else
	{
		typename S::in_msg a, b;
		s.pop_first_pending_send_msg(a);
		b = a; // moves it
		if (!b.empty()) {sim_probe("c02.popped_first"); m_fate(s.chan, FATE_POP, b.data(), b.size());}
	}
}
template<typename S> static bool c02_tx(S& s, bool of, int mode, bool prior, unsigned limit, unsigned* out_size) // only the calling thread queues messages at s
{
	unsigned size = pick_size(), was = (unsigned) s.get_pending_send_msg_size();
	bool ok = s.tx(size, of, mode, prior);
	unsigned now = (unsigned) s.get_pending_send_msg_size();
	if (out_size) *out_size = wire_size(size);
	if (of && !ok) sim_fail("C02.refused_below_limit", "a message that may overflow the send buffer was refused");
#ifndef ST_ASIO_SHRINK_SEND_BUFFER
	if (!of && 6 != mode)
	{
		if (!ok && was < limit) sim_fail("C02.refused_below_limit", "a message was refused although only %u bytes were pending, the limit is %u", was, limit);
		if (ok && now > limit - 1 + wire_size(size)) sim_fail("C02.accepted_at_limit", "a message of %u bytes was accepted although %u bytes were pending, the limit is %u", wire_size(size), now - wire_size(size), limit);
		if (!ok) sim_probe("c02.refused");
	}
#endif
	return ok;
}
struct c02_arg {world* w; int who; unsigned count, gap_us, limit; volatile bool* stop;};
static void c02_sender(c02_arg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		bool of = 0 == sim_chooseT(SS_WORK, 3), prior = 0 == sim_chooseT(SS_WORK, 6); int mode = pick_mode(of);
		if (a->who >= 0) c02_tx(*a->w->clients[a->who], of, mode, prior, a->limit, NULL);
		else
		{
			std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*a->w, v);
			if (!v.empty()) {boost::shared_ptr<srv_sock> s = v[sim_chooseT(SS_WORK, (unsigned) v.size())]; if (s->is_connected()) c02_tx(*s, of, mode, prior, (unsigned) s->send_buf_size(), NULL);}
		}
		if (a->gap_us && sim_chooseT(SS_WORK, 3)) sleep_us(1 + sim_chooseT(SS_WORK, a->gap_us));
	}
}
static void c02_popper(c02_arg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		sleep_us(1 + sim_chooseT(SS_WORK, a->gap_us));
		c02_pop(*a->w->clients[sim_chooseT(SS_WORK, (unsigned) a->w->clients.size())], !g_single_item || sim_chooseT(SS_WORK, 2));
	}
}
template<typename S> static void c02_final(S& s, const char* what)
{
	typename S::in_container_type can;
	size_t size = s.get_pending_send_msg_size(), sum = 0;
	s.pop_all_pending_send_msg(can);
	for (typename S::in_container_type::iterator i = can.begin(); i != can.end(); ++i) sum += i->size();
	if (sum != size) sim_fail("C02.pending_bytes", "%s: %u bytes reported pending, but the pending messages have %u bytes", what, (unsigned) size, (unsigned) sum);
	if (s.get_pending_send_msg_size()) sim_fail("C02.pending_bytes", "%s: %u bytes reported pending after all messages were popped", what, (unsigned) s.get_pending_send_msg_size());
	s.fates_once(FATE_POP, can);
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	if (m_unfated(s.chan)) sim_fail("C02.lost", "%s: %u of %u accepted messages were neither reported sent, failed, discarded, popped nor are they pending", what, m_unfated(s.chan), m_accepted(s.chan));
	sim_probe("c02.all_fates");
#endif
}
static bool c02_flushed(world* w)
{
	for (size_t i = 0; i < w->clients.size(); ++i) if (w->clients[i]->get_pending_send_msg_size() || w->clients[i]->is_sending()) return false;
	return true;
}
static void c02_offline(cli_sock& s, unsigned limit, unsigned steps)
{
	std::deque<unsigned> q; unsigned sum = 0;
	for (unsigned i = 0; i < steps; ++i)
	{
		if (g_single_item && 0 == K(8))
		{
			if (K(3)) {c02_pop(s, false); if (!q.empty()) {sum -= q.front(); q.pop_front();}}
			else {c02_pop(s, true); q.clear(); sum = 0;}
		}
		else
		{
			bool of = K(2) == 0, prior = 0 == K(5); int mode = pick_mode(of); unsigned size;
			bool expect = of || sum < limit;
			unsigned disc = m_fate_count(s.chan, FATE_DISCARD);
			bool ok = c02_tx(s, of, mode, prior, limit, &size);
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
			unsigned gone = m_fate_count(s.chan, FATE_DISCARD) - disc;
			if (!of && sum >= limit)
			{
				expect = sum / 3 > 0;
				unsigned want = 0, bytes = 0;
				if (expect) while (!q.empty()) {bytes += q.front(); sum -= q.front(); q.pop_front(); ++want; if (bytes >= (sum + bytes) / 3) break;}
				if (gone != want) sim_fail("C02.discard", "%u messages were discarded, expected %u", gone, want);
				sim_probe("c02.shrunk");
			}
			else if (gone) sim_fail("C02.discard", "%u messages were discarded although the buffer was not full or overflow was allowed", gone);
#else
			(void) disc;
#endif
			if (ok != expect) sim_fail(ok ? "C02.accepted_at_limit" : "C02.refused_below_limit", "with %u bytes pending and a limit of %u a message was %s", sum, limit, ok ? "accepted" : "refused");
			if (ok) {sum += size; if (prior) q.push_front(size); else q.push_back(size);}
		}
		if (sum != s.get_pending_send_msg_size()) sim_fail("C02.pending_bytes", "%u bytes reported pending, but the pending messages have %u bytes", (unsigned) s.get_pending_send_msg_size(), sum);
		if (s.is_send_buffer_available() != (sum < limit)) sim_fail("C02.pending_bytes", "the send buffer is reported %s with %u bytes pending and a limit of %u", s.is_send_buffer_available() ? "available" : "full", sum, limit);
	}
	sim_probe("c02.offline");
}
static void c02_fates()
{
	m_enable("C01,C02");
	tame_behaviour(); knob_framing(true); knob_net(false); knob_behaviour(false, true);
	world w; w.draw(2);
	static const unsigned sb[] = {1500, 300, 1, 5000};
	w.send_buf = sb[K(4)];
	B.reconnect_delay_ms = 20;
	g_single_item = K(2); // pop single items
	w.make();
	bool pops = K(2), faults = K(2), early = K(4) == 3;
	if (faults) knob_net_faults(1);
	for (size_t i = 0; i < w.clients.size(); ++i) if (K(2)) c02_offline(*w.clients[i], w.send_buf, 2 + K(25));
	srv_sock::keep_all() = true;
	w.start();
	if (K(2)) sleep_ms(K(200)); else wait_until(boost::bind(&world::all_connected, &w), 2000);
	{
		boost::thread_group tg; std::vector<c02_arg> a(w.nclients + 2); size_t n = 0; chaos_arg ch; unsigned gap = K(2) ? 20000 : 300;
		for (int i = 0; i < w.nclients; ++i, ++n) {a[n].w = &w; a[n].who = i; a[n].count = 1 + K(25); a[n].gap_us = gap; a[n].limit = w.send_buf; tg.create_thread(boost::bind(&c02_sender, &a[n]));}
		if (K(2)) {a[n].w = &w; a[n].who = -1; a[n].count = 1 + K(25); a[n].gap_us = gap; tg.create_thread(boost::bind(&c02_sender, &a[n])); ++n;}
		if (pops) {a[n].w = &w; a[n].count = 1 + K(12); a[n].gap_us = K(2) ? 20000 : 500; tg.create_thread(boost::bind(&c02_popper, &a[n])); ++n;}
		ch.w = &w; ch.steps = 1 + K(5); ch.gap_ms = K(2) ? 150 : 10; ch.mask = CH_RESET | CH_SRV_ONE | CH_CLI | CH_PART;
		if (faults) tg.create_thread(boost::bind(&chaos_main, &ch));
		tg.join_all();
	}
	if (!early)
	{
		quiet(w);
		check_recovered(w, "C02", 30000);
		if (!wait_progress(boost::bind(&c02_flushed, &w), total_delivered, 6000)) sim_fail("C02.pending_stuck", "messages are still pending after 6 s on a healthy link");
		sleep_ms(1300);
		for (size_t i = 0; i < w.clients.size(); ++i) if (w.clients[i]->get_pending_send_msg_size()) sim_fail("C02.pending_bytes", "%u bytes are reported pending after everything was sent", (unsigned) w.clients[i]->get_pending_send_msg_size());
		if (!faults && !wait_progress(all_chans_delivered, total_delivered, 6000)) sim_fail("C02.lost", "an accepted message was neither delivered, popped nor discarded although the links were healthy");
	}
	w.stop();
	for (size_t i = 0; i < w.clients.size(); ++i) c02_final(*w.clients[i], "client socket");
	for (size_t i = 0; i < srv_sock::kept().size(); ++i) c02_final(*srv_sock::kept()[i], "server socket");
	m_check_final(0);
	srv_sock::kept().clear();
	w.destroy();
}

#ifdef ST_ASIO_PASSIVE_RECV
struct c04p_arg {world* w; int who; unsigned gap_ms; volatile bool* stop; unsigned burst;};
static void c04p_main(c04p_arg* a)
{
	while (!*a->stop)
	{
		if (a->who >= 0) for (unsigned i = 0; i < a->burst; ++i) a->w->clients[a->who]->request();
		else
		{
			std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*a->w, v);
			for (size_t i = 0; i < v.size(); ++i) for (unsigned k = 0; k < a->burst; ++k) v[i]->request();
		}
		sleep_ms(1 + sim_chooseT(SS_WORK, a->gap_ms));
	}
}
template<typename S> static void c04p_check(S& s, const char* what)
{
	sim_nopreempt(1);
	boost::shared_ptr<any_unpacker> u = boost::dynamic_pointer_cast<any_unpacker>(s.unpacker());
	if (u->reads > s.requests) sim_fail("C04.extra_read", "%s: %u reads for %u requests", what, u->reads, s.requests);
	sim_nopreempt(-1);
}
static void c04_passive()
{
	m_enable("C01,C04");
	tame_behaviour(); knob_framing(true); knob_net(false); knob_behaviour(true, true);
	world w; w.draw(2); w.make();
	B.passive = 1 + (int) K(3); // 1: by the handler only, 2: by threads only, 3: both
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C04.never_connected", "clients not connected within 8 s although nothing fails");
	volatile bool stop = false;
	c04p_arg a[6]; unsigned n = 0; boost::thread_group tg;
	for (int i = -1; i < w.nclients; ++i) for (unsigned k = 0, m = 1 + K(2); k < m && n < 6; ++k) {a[n].w = &w; a[n].who = i; a[n].gap_ms = 1 + K(30); a[n].stop = &stop; a[n].burst = 1 + K(3); if (B.passive & 2) tg.create_thread(boost::bind(&c04p_main, &a[n])); ++n;}
	{senders ss; add_senders(ss, w, 15); ss.add(&w, 0, false, 1 + K(20), 2000, true); ss.join();}
	quiet(w);
	if (!wait_progress(all_chans_delivered, total_delivered, 6000))
		for (unsigned c = 0; c < m_chan_count(); ++c) if (!m_all_delivered(c))
			sim_fail("C04.passive_stuck", "channel %u: only %u of %u accepted messages were handed over although messages are being requested, nothing moves for 6 s", c, m_delivered(c), m_accepted(c));
	stop = true; tg.join_all();
	{
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
		for (size_t i = 0; i < v.size(); ++i) c04p_check(*v[i], "server socket");
		for (size_t i = 0; i < w.clients.size(); ++i) c04p_check(*w.clients[i], "client socket");
	}
	if (B.passive & 2) sim_probe("c04.requested_by_threads");
	m_check_final(1);
	w.stop(); w.destroy();
}
#endif

// ---------------------------------------------------------------- C07
enum {GRACE_MS = 1000 * ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION};
struct raw_closed {rawconn* c; unsigned n; bool operator()() const {return c->closes >= n;}};
static std::string c07_frame(unsigned i) {char b[40]; snprintf(b, sizeof b, "late message %u", i); return framed(b);}
struct c07_sock // the library's end of a scripted connection
{
	srv_sock* s; cli_sock* c; world* w;
	bool tx() {return s ? s->tx(pick_size(), true, pick_mode(true)) : c->tx(pick_size(), true, pick_mode(true));}
	int chan() {return s ? s->chan : c->chan;}
	bool flushed() {return s ? 0 == s->get_pending_send_msg_size() && !s->is_sending() : 0 == c->get_pending_send_msg_size() && !c->is_sending();}
	void grace(bool reconnect)
	{
		if (c) {c->graceful_shutdown(reconnect); return;}
		switch (P(3)) {case 0: s->graceful_shutdown(); break; case 1: w->server->graceful_shutdown(boost::dynamic_pointer_cast<srv_sock>(s->shared_from_this())); break; default: s->graceful_shutdown(); s->graceful_shutdown(); break;}
	}
	void force(bool reconnect) {if (c) c->force_shutdown(reconnect); else s->force_shutdown();}
};
// reads until the end of the stream, every frame must be a message of this channel; false: not ended in time
static void c07_parse(std::string& left, unsigned& got, int chan, bool* first)
{
	while (left.size() >= 2)
	{
		size_t n = (unsigned char) left[0] * 256u + (unsigned char) left[1];
		if (n < 2 || left.size() < n) break;
		int c; unsigned id;
		if (!m_id(left.data() + 2, n - 2, &c, &id) || c != chan) sim_fail("C07.corrupt", "the peer read something that is no message sent to it");
		if (*first && id < got) got = id; // was pending when the previous link ended
		*first = false;
		if (id != got) sim_fail("C07.corrupt", "the peer read message %u, expected %u", id, got);
		++got; left.erase(0, n);
	}
}
static bool c07_read_all(raw_peer& p, std::string& left, unsigned& got, unsigned ms, bool* reset, int chan, bool* first)
{
	char b[4096]; uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	for (;;)
	{
		ssize_t r = p.recv_(b, sizeof b, 20);
		if (r > 0) left.append(b, r);
		c07_parse(left, got, chan, first);
		if (0 == r || -1 == r) {if (-1 == r) *reset = true; return true;}
		if (sim_now_ns() - t0 > ms * 1000000ull + (sim_stall_ns() - s0)) return false;
	}
}
static void c07_script(world& w, raw_peer& p, rawconn* c, const char* side, bool reconnect)
{
	raw_up up = {c};
	if (!wait_until(up, 10000)) sim_fail("C07.broken", "%s connection %u is not announced", side, c->port);
	sleep_ms(1300); // the callback may be stalled
	c07_sock k = {c->srv, c->cli, &w};
	unsigned base = m_accepted(k.chan()), before = P(6);
	for (unsigned i = 0; i < before; ++i) {p.send_all(c07_frame(i), P(2) ? 7 : 0, 300);}
	unsigned nsend = P(12);
	for (unsigned i = 0; i < nsend; ++i) {k.tx(); if (P(2)) sleep_us(P(3000));}
	std::string left; unsigned got = base; bool reset = false, first = true;
	bool flushed = false, drain = P(2);
	if (P(4)) // everything has been written before the request
	{
		for (unsigned i = 0; i < 200 && !(flushed = k.flushed()); ++i) {sleep_ms(10); if (drain) {bool r = false; char b[4096]; ssize_t n = p.recv_(b, sizeof b, 0); if (n > 0) left.append(b, n); (void) r;}}
	}
	uint64_t t0 = sim_now_ns();
	k.grace(reconnect);
	unsigned total = m_accepted(k.chan());
	unsigned late = 0, plan = P(6);
	raw_closed closed = {c, 1};
	bool silent = 5 == plan || 4 == plan;
	if (0 == plan || 1 == plan || 4 == plan) // reads to the end first
	{
		if (!c07_read_all(p, left, got, 3000, &reset, k.chan(), &first)) sim_fail("C07.no_end", "%s connection %u: the peer sees no end of stream 3 s after the graceful shutdown request", side, c->port);
		if (reset) sim_fail("C07.reset", "%s connection %u: the peer's reading failed after the graceful shutdown request", side, c->port);
		if (flushed && got != total) sim_fail("C07.lost", "%s connection %u: the peer could read %u of %u messages which were written before the graceful shutdown request", side, c->port, got - base, total - base);
		if (flushed) sim_probe("c07.read_all");
	}
	switch (plan)
	{
	case 0: case 1: case 2: // the peer goes on sending, then closes
		{
			unsigned n = P(12), gap = P(2) ? 200 : 5;
			for (unsigned i = 0; i < n && sim_now_ns() - t0 < 3000000000ull; ++i, ++late)
			{
				if (!p.send_all(c07_frame(1000 + i), P(2) ? 9 : 0, 500)) sim_fail("C07.closed_early", "%s connection %u does not take the peer's data %u ms after the graceful shutdown request", side, c->port, (unsigned) ((sim_now_ns() - t0) / 1000000));
				sleep_ms(1 + P(gap));
			}
			if (c->closes && sim_now_ns() - t0 < 4500000000ull) sim_fail("C07.closed_early", "%s connection %u was closed %u ms after the graceful shutdown request although the peer has not closed", side, c->port, (unsigned) ((sim_now_ns() - t0) / 1000000));
			bool in_time = sim_now_ns() - t0 < 3500000000ull;
			unsigned g0 = got;
			if (P(2) || 2 != plan) p.half_close(); else {c07_read_all(p, left, got, 10, &reset, k.chan(), &first); p.half_close();}
			(void) g0;
			if (!wait_until(closed, 1700 + B.handle_delay_max_us * 50 / 1000, 5)) sim_fail("C07.not_closed", "%s connection %u is not closed after the peer has closed", side, c->port);
			if (in_time && c->msgs.size() < before + late) sim_fail("C07.received_lost", "%s connection %u: %u of %u messages were handed over which the peer sent before it closed", side, c->port, (unsigned) c->msgs.size(), before + late);
			if (late && in_time) sim_probe("c07.late_messages");
		}
		break;
	case 3: // forced while it is pending
		sleep_ms(P(2500));
		if (c->closes) sim_fail("C07.closed_early", "%s connection %u was closed %u ms after the graceful shutdown request although the peer has not closed", side, c->port, (unsigned) ((sim_now_ns() - t0) / 1000000));
		k.force(reconnect);
		if (!wait_until(closed, 1600 + B.handle_delay_max_us * 50 / 1000, 5)) sim_fail("C07.force_ignored", "%s connection %u is not closed 1.6 s after a forced shutdown during a graceful one", side, c->port);
		sim_probe("c07.forced");
		break;
	default: // the peer never closes
		if (wait_until(closed, GRACE_MS - 150, 20) && sim_now_ns() - t0 < (GRACE_MS - 100) * 1000000ull)
			sim_fail("C07.closed_early", "%s connection %u was closed %u ms after the graceful shutdown request although the peer has not closed", side, c->port, (unsigned) ((sim_now_ns() - t0) / 1000000));
		if (!wait_until(closed, 150 + 1700 + B.handle_delay_max_us * 50 / 1000, 20)) sim_fail("C07.not_terminated", "%s connection %u is not closed %u ms after the graceful shutdown request, the peer does not react", side, c->port, (unsigned) ((sim_now_ns() - t0) / 1000000));
		sim_probe("c07.max_duration");
		break;
	}
	(void) silent;
	for (size_t i = 0; i < c->msgs.size(); ++i) if (i < before + late && framed(c->msgs[i]) != c07_frame((unsigned) (i < before ? i : 1000 + i - before)))
		sim_fail("C07.corrupt", "%s connection %u handed over a wrong message %u", side, c->port, (unsigned) i);
	sleep_ms(100);
	if (1 != c->closes) sim_fail("C07.closes", "%s connection %u: %u close notifications", side, c->port, c->closes);
	p.close_();
}
struct c07_arg {world* w; unsigned port; bool reconnect; unsigned conns;};
static void c07_client_main(c07_arg* a)
{
	for (unsigned i = 0; i < a->conns; ++i)
	{
		rawconn* c = raw_get(a->port + i, true); raw_peer p;
		if (!p.connect_(PORT, (unsigned short) (a->port + i))) sim_fail("C07.broken", "the server does not accept");
		c07_script(*a->w, p, c, "server side", false);
	}
}
static void c07_server_main(c07_arg* a)
{
	raw_listener l;
	if (!l.listen_(5060)) sim_fail("harness", "raw listener");
	for (unsigned i = 0; i < a->conns; ++i)
	{
		unsigned port = 0; int fd = l.accept_(&port, 5000);
		if (fd < 0) sim_fail("C07.not_reconnected", "the client did not reconnect after a graceful shutdown with reconnecting");
		raw_peer p(fd);
		c07_script(*a->w, p, raw_get(port, true), "client side", i + 1 < a->conns);
	}
	int fd = l.accept_(NULL, 1500);
	if (fd >= 0) sim_fail("C07.reconnected", "the client connected again after a graceful shutdown without reconnecting");
}
static void c07_graceful()
{
	m_enable("C01,C06,C07");
	tame_behaviour(); knob_net(false); knob_behaviour(false, true);
	if (B.handle_delay_max_us > 2000) B.handle_delay_max_us = 2000;
	if (B.cb_delay_max_us > 2000) B.cb_delay_max_us = 2000;
	B.user_timer_ppm = B.user_post_ppm = 0; B.reconnect_delay_ms = 30;
	static const unsigned mx[] = {200, 900, 3000}; g_size_max = mx[K(3)];
	world w; w.draw(2); w.make();
	if (w.recv_buf && w.recv_buf < 200) w.recv_buf = 200;
	srv_sock::keep_all() = true;
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C07.broken", "clients not connected");
	sleep_ms(300);
	boost::shared_ptr<cli_sock> rc;
	{
		boost::thread_group tg; c07_arg a[3];
		unsigned n = K(3); if (0 == n && 0 == K(2)) n = 1;
		for (unsigned i = 0; i < n; ++i) {a[i].w = &w; a[i].port = 30000 + i * 100; a[i].conns = 1 + K(2); a[i].reconnect = false; tg.create_thread(boost::bind(&c07_client_main, &a[i]));}
		if (0 == n || K(2))
		{
			g_raw_cli = true;
			rc = w.pool->create_object(); rc->set_server_addr(5060, "127.0.0.1"); w.tune(*rc);
			a[2].w = &w; a[2].conns = 1 + K(2);
			tg.create_thread(boost::bind(&c07_server_main, &a[2]));
			sleep_ms(20); // listening
			w.pool->add_socket(rc);
		}
		tg.join_all();
	}
	g_raw_cli = false;
	B.refuse_ppm = 0; sleep_ms(100); // ordinary pairs
	if (K(2))
	{
		{senders ss; add_senders(ss, w, 10); ss.join();}
		quiet(w);
		wait_progress(boost::bind(&c17_sent_settled, &w, false), total_delivered, 6000);
		sleep_ms(1300);
		bool by_server = K(2);
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
		if (by_server)
		{
			for (size_t i = 0; i < w.clients.size(); ++i) w.clients[i]->set_reconnect(false);
			for (size_t i = 0; i < v.size(); ++i) v[i]->tx(pick_size(), true);
			wait_progress(boost::bind(&c17_sent_settled, &w, false), total_delivered, 6000);
			w.server->graceful_shutdown();
		}
		else for (size_t i = 0; i < w.clients.size(); ++i)
		{
			w.clients[i]->tx(pick_size(), true); while (!c02_flushed(&w)) sleep_ms(5);
			if (K(2)) w.clients[i]->graceful_shutdown(); else w.pool->graceful_shutdown(w.clients[i]);
		}
		if (!wait_until(boost::bind(&all_closed, &w), 1500)) {char b[200]; m_open_list(b, sizeof b); sim_fail("C07.not_closed", "1.5 s after a graceful shutdown both sides of which run this library: %s", b);}
		for (size_t i = 0; i < w.clients.size(); ++i) if (!m_all_delivered(w.clients[i]->chan)) sim_fail("C07.lost", "messages to the server written before a graceful shutdown were not handed over: %u of %u on channel %d", m_delivered(w.clients[i]->chan), m_accepted(w.clients[i]->chan), w.clients[i]->chan);
		for (size_t i = 0; i < v.size(); ++i) if (!m_all_delivered(v[i]->chan)) sim_fail("C07.lost", "messages to a client written before a graceful shutdown were not handed over: %u of %u on channel %d", m_delivered(v[i]->chan), m_accepted(v[i]->chan), v[i]->chan);
		sim_probe("c07.pairs");
	}
	quiet(w);
	rc.reset(); srv_sock::kept().clear();
	w.stop(); w.destroy();
}
#endif
