// C09: heartbeats.
#ifndef S_BEAT_H_
#define S_BEAT_H_

// every connection that got as far as on_connect
struct beat_conn {int mobj, fd, is_server; unsigned peer_port; uint64_t since, report_at, closed_at; unsigned reports;};
static std::vector<beat_conn> g_beat; // guarded by sim_nopreempt
static int g_beat_i = 2, g_beat_a = 3;
static bool g_beat_auto = false;      // the library starts heartbeats itself
static beat_conn* beat_find(int mobj)
{
	for (size_t i = g_beat.size(); i-- > 0;) if (g_beat[i].mobj == mobj && 0 == g_beat[i].closed_at) return &g_beat[i];
	return NULL;
}
template<typename Sock> static void beat_connect(Sock* s)
{
	boost::system::error_code ec;
	beat_conn c; c.mobj = s->mobj; c.fd = s->lowest_layer().native_handle(); c.is_server = s->is_server; c.since = sim_now_ns(); c.report_at = c.closed_at = 0; c.reports = 0;
	c.peer_port = s->lowest_layer().remote_endpoint(ec).port();
	sim_nopreempt(1); g_beat.push_back(c); sim_nopreempt(-1);
	if (!g_beat_auto) s->start_heartbeat(g_beat_i, g_beat_a);
}
// the peer has been condemned
template<typename Sock> static void beat_report(Sock* s)
{
	sim_probe("c09.reported");
	uint64_t now = sim_now_ns(), win = (uint64_t) (g_beat_i * g_beat_a - 1) * 1000000000ull + 1000000;
	sim_nopreempt(1);
	beat_conn* c = beat_find(s->mobj);
	uint64_t from = now > win ? now - win : 0;
	if (NULL == c) {sim_nopreempt(-1); return;} // reported while the link is being closed by others
	if (++c->reports > 1) sim_fail("C09.reported_twice", "a link has been reported twice although it is closed on the first report");
	c->report_at = now;
	uint64_t a = sim_net_arrival_since(c->fd, from, 1600000000ull), born = c->since;
	sim_nopreempt(-1);
	if (a) sim_fail("C09.live_condemned", "the %s condemned a peer whose bytes arrived %u ms before; %d s without any are allowed", s->is_server ? "server" : "client", (unsigned) ((now - a) / 1000000), g_beat_i * g_beat_a);
	if (born > from) sim_fail("C09.condemned_at_once", "a link is condemned %u ms after it has been established; %d s of silence are allowed", (unsigned) ((now - born) / 1000000), g_beat_i * g_beat_a);
}
static void beat_close(int mobj) {sim_nopreempt(1); beat_conn* c = beat_find(mobj); if (c) c->closed_at = sim_now_ns(); sim_nopreempt(-1);}

// while nothing is wrong with the network, something must arrive on every link every so often
static void beat_check_cadence(uint64_t t0, uint64_t s0)
{
	sim_nopreempt(1);
	uint64_t now = sim_now_ns(), allow = (uint64_t) (2 * g_beat_i + 1) * 1000000000ull + 1500000000ull + (sim_stall_ns() - s0);
	for (size_t i = 0; i < g_beat.size(); ++i)
	{
		beat_conn& c = g_beat[i];
		if (c.closed_at || c.report_at || (c.is_server && c.peer_port < 40000)) continue; // ended or scripted
		uint64_t a = sim_net_last_arrival(c.fd); if (a < t0) a = t0; if (a < c.since) a = c.since;
		if (now - a > allow) sim_fail("C09.no_heartbeat", "nothing has reached the %s of an idle link for %u ms, heartbeats are due every %d s", c.is_server ? "server" : "client", (unsigned) ((now - a) / 1000000), g_beat_i);
	}
	sim_nopreempt(-1);
}
static void beat_idle(unsigned ms)
{
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	while (sim_now_ns() - t0 < ms * 1000000ull) {sleep_ms(100 + K(2) * 400); beat_check_cadence(t0, s0);}
	sim_probe("c09.idle");
}
static unsigned beat_bound_ms() {return (unsigned) (g_beat_i * g_beat_a + g_beat_i) * 1000 + 1500;}

// one or both directions go silent; what does not hear anything any more must say so in time
static void beat_silence(world& w, int dirs)
{
	sleep_ms(1500); // whatever is being connected is connected now
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	sim_net_partition_port(PORT, dirs);
	sim_nopreempt(1); std::vector<beat_conn> v(g_beat); size_t n = v.size(); sim_nopreempt(-1);
	std::vector<size_t> todo;
	for (size_t i = 0; i < n; ++i) if (0 == v[i].closed_at && 0 == v[i].report_at && (1 == dirs || v[i].is_server == (2 == dirs)) && v[i].since + 500000000 < t0) todo.push_back(i);
	bool traffic = K(2) == 1;
	for (;;)
	{
		sleep_ms(200);
		if (traffic) for (size_t i = 0; i < w.clients.size(); ++i) if (w.clients[i]->is_connected()) w.clients[i]->tx(pick_size(), false);
		uint64_t now = sim_now_ns();
		bool all = true;
		sim_nopreempt(1);
		for (size_t k = 0; k < todo.size(); ++k)
		{
			beat_conn& c = g_beat[todo[k]];
			if (c.report_at || c.closed_at) {if (1 == dirs && !c.report_at && c.closed_at > t0 + 1500000000 + (sim_stall_ns() - s0)) /* not on its way to being closed before */ sim_fail("C09.closed_unreported", "a silent link ended without having been reported"); continue;}
			all = false;
			if (now - t0 > beat_bound_ms() * 1000000ull + (sim_stall_ns() - s0))
				sim_fail("C09.not_reported", "the %s has not heard anything for %u ms (interval %d s, %d absences) and does not report it", c.is_server ? "server" : "client", (unsigned) ((now - t0) / 1000000), g_beat_i, g_beat_a);
		}
		sim_nopreempt(-1);
		if (all) break;
	}
	if (!todo.empty()) sim_probe(1 == dirs ? "c09.silence_both" : "c09.silence_one_way");
	sim_net_partition_port(PORT, 0);
}
// a peer that is not the library: silent, talking or trickling, then silent
struct beat_peer_arg {unsigned port; int kind; unsigned steps; std::string beat;};
static void beat_peer_main(beat_peer_arg* a)
{
	raw_peer p;
	if (!p.connect_(PORT, (unsigned short) a->port)) return;
	unsigned lim_ms = (unsigned) (g_beat_i * g_beat_a - 1) * 1000;
	std::string msg;
	if (2 == a->kind || 3 == a->kind) // one message, byte by byte
	{
		any_packer pk; std::string body(40, 'x'); for (size_t i = 0; i < body.size(); ++i) body[i] = (char) ('a' + i % 26);
		if (F_PREFIX_SUFFIX == g_framing || F_PREFIX_ONLY_SUFFIX == g_framing || F_PS_UNSTRIPPED == g_framing) body[3] = 'x';
		const char* q[1] = {body.data()}; const size_t l[1] = {body.size()};
		pk.pack_msg(msg, q, l, 1, false);
	}
	size_t at = 0;
	char b[4096];
	for (unsigned i = 0; i < a->steps && a->kind; ++i)
	{
		std::string out;
		switch (a->kind)
		{
		case 1: out = a->beat; break;                                            // heartbeats
		case 2: if (at < msg.size()) out = msg.substr(at++, 1); else {out = msg.substr(0, 1); at = 1;} break;
		case 3: out = msg; break;
		case 4: out = i % 2 ? a->beat.substr(1) : a->beat.substr(0, 1); break;   // heartbeats in two pieces
		case 5: out = i % 3 ? a->beat : a->beat + a->beat + a->beat; break;
		}
		if (!p.send_all(out, 0, 0)) break;
		unsigned gap = lim_ms > 600 ? 200 + sim_chooseT(SS_PEER, lim_ms - 600) : 100;
		uint64_t t0 = sim_now_ns();
		while (sim_now_ns() - t0 < gap * 1000000ull) {ssize_t r = p.recv_(b, sizeof b, 50); if (0 == r || -1 == r) return;}
	}
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	sim_probe("c09.peer_silent");
	
	for (;;)
	{
		ssize_t r = p.recv_(b, sizeof b, 50);
		if (0 == r || -1 == r) break;
		
		sim_nopreempt(1);
		bool done = false; for (size_t i = 0; i < g_beat.size(); ++i) if (g_beat[i].is_server && g_beat[i].peer_port == a->port && (g_beat[i].report_at || g_beat[i].closed_at)) done = true;
		sim_nopreempt(-1);
		if (done) break; // the news may be held up by the network
		if (sim_now_ns() - t0 > (beat_bound_ms() + 1500) * 1000000ull + (sim_stall_ns() - s0))
			sim_fail("C09.not_reported", "a scripted peer has been silent for %u ms (interval %d s, %d absences) and the server still keeps the link", (unsigned) ((sim_now_ns() - t0) / 1000000), g_beat_i, g_beat_a);
	}
	sim_probe("c09.peer_dropped");
}

static void c09_beat()
{
	m_enable("C01,C09");
	tame_behaviour();
	g_framing = (int) K(F_RAW_COUNT); if (F_FIXED == g_framing || F_PS_UNSTRIPPED == g_framing) g_framing = F_DEFAULT;
	static const unsigned mx[] = {200, 40, 900, 3000}; g_size_max = mx[K(4)];
	knob_net(true); knob_behaviour(false, true);
#if ST_ASIO_HEARTBEAT_INTERVAL > 0
	g_beat_auto = true; g_beat_i = ST_ASIO_HEARTBEAT_INTERVAL; g_beat_a = ST_ASIO_HEARTBEAT_MAX_ABSENCE;
#else
	g_beat_auto = false; g_beat_i = 2 + (int) K(3) - (int) K(2); g_beat_a = 3 + (int) K(2) - (int) K(2);
	if (g_beat_i * g_beat_a < 3) g_beat_a = 3;
#endif
	bool raw = K(3) == 2;
	world w; w.draw(2); w.recv_buf = 0; w.make();
	sim_nopreempt(1); g_beat.reserve(256); sim_nopreempt(-1);
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C01.never_connected", "clients not connected within 8 s although nothing fails");
	boost::thread_group tg; std::vector<beat_peer_arg> pa;
	if (raw)
	{
		pa.resize(1 + K(3)); std::string beat;
		any_packer pk; pk.pack_heartbeat(beat);
		for (size_t i = 0; i < pa.size(); ++i)
		{
			pa[i].port = next_port(); pa[i].kind = (int) K(6); pa[i].beat = beat; pa[i].steps = 1 + K(20);
			raw_get(pa[i].port, true);
			tg.create_thread(boost::bind(&beat_peer_main, &pa[i]));
		}
		sim_probe("c09.raw");
	}
	unsigned phases = 1 + K(4);
	for (unsigned ph = 0; ph < phases; ++ph)
	{
		// with fewer than 3 absences an idle pair may be condemned: heartbeats may be two intervals apart
		bool idle_ok = g_beat_a >= 3;
		switch (K(5))
		{
		case 0: beat_idle(idle_ok ? (1 + K(3)) * (g_beat_i * g_beat_a) * 1000 : 500); break;
		case 1: // both sides talk, with pauses
		{
			senders ss; unsigned gap = K(2) ? 1500000 : 100000;
			for (int i = 0; i < w.nclients; ++i) ss.add(&w, i, false, 5 + K(20), gap, true);
			ss.add(&w, 0, true, 5 + K(20), gap, true);
			ss.join(); sim_probe("c09.talk");
		} break;
		case 2: // one side talks all the time, the other one never does
		{
			bool srv_side = K(2) == 1; uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns(), len = (uint64_t) (g_beat_i * g_beat_a + 2) * 1000000000ull;
			while (sim_now_ns() - t0 < len)
			{
				for (int i = 0; i < w.nclients && !srv_side; ++i) w.clients[i]->tx(pick_size(), true);
				if (srv_side) {sender_arg a; a.w = &w; a.who = 0; a.count = 1; a.server_side = true; a.gap_us = 0; a.overflow = true; sender_main(&a);}
				sleep_ms(300); beat_check_cadence(t0, s0);
			}
			sim_probe("c09.one_way");
		} break;
		case 3: // a short silence
		{
			unsigned ms = (unsigned) (g_beat_i * g_beat_a) * 1000;
			static const int d[] = {1, 2, 4};
			sim_net_partition_port(PORT, d[K(3)]); sleep_ms(1 + sim_chooseT(SS_WORK, ms)); sim_net_partition_port(PORT, 0);
			sim_probe("c09.short_silence");
		} break;
		case 4:
		{
			static const int d[] = {1, 2, 4};
			beat_silence(w, d[K(3)]);
		} break;
		}
		// clients come back, and with them the heartbeats
		if (!wait_until(boost::bind(&world::all_connected, &w), 30000)) sim_fail("C09.not_recovered", "clients do not come back within 30 s after the silence has ended");
	}
	tg.join_all();
	sim_net_quiet(); sim_stop_schedule_noise();
	if (g_beat_a >= 3)
	{
		if (!wait_until(boost::bind(&world::all_connected, &w), 30000)) sim_fail("C09.not_recovered", "clients do not come back within 30 s after the silence has ended");
		sleep_ms((2 * g_beat_i + 1) * 1000 + 1500); // links that have been silent for a while may still end
		sim_nopreempt(1); size_t n = 0; for (size_t i = 0; i < g_beat.size(); ++i) n += g_beat[i].reports; sim_nopreempt(-1);
		beat_idle((unsigned) (g_beat_i * g_beat_a) * 1000 + 2500);
		sim_nopreempt(1); size_t n2 = 0; for (size_t i = 0; i < g_beat.size(); ++i) n2 += g_beat[i].reports; sim_nopreempt(-1);
		if (n2 != n) sim_fail("C09.idle_condemned", "an idle and healthy link has been condemned");
	}
	m_check_final(0);
	w.stop(); w.destroy();
}
#endif
