// Links that come and go: close notifications (C06), refusals across reconnects (C03), reconnecting (C08)
#ifndef S_LIFE_H_
#define S_LIFE_H_

struct mini {mini() {}};
enum {CH_RESET = 1, CH_PART = 2, CH_SRV_ALL = 4, CH_SRV_ONE = 8, CH_CLI = 16, CH_CLI_GRACE = 32, CH_CLI_FINAL = 64, CH_POST = 128, CH_OUTAGE = 256, CH_SRV_GRACE = 512};
struct chaos_arg {world* w; unsigned mask, steps, gap_ms;};

static void srv_list(world& w, std::vector<boost::shared_ptr<srv_sock> >& v) {w.server->do_something_to_all(collector(&v));}
static void chaos_step(world& w, unsigned what, unsigned gap_ms)
{
	boost::shared_ptr<cli_sock> c = w.clients[sim_chooseT(SS_WORK, (unsigned) w.clients.size())];
	switch (what)
	{
	case CH_RESET: sim_probe("chaos.reset_all"); sim_net_reset_all(PORT); break;
	case CH_PART: sim_probe("chaos.partition"); sim_net_partition(1); sleep_ms(1 + sim_chooseT(SS_WORK, 400)); sim_net_partition(0); break;
	case CH_SRV_ALL: sim_probe("chaos.server_force_all"); w.server->force_shutdown(); break;
	case CH_SRV_GRACE: sim_probe("chaos.server_graceful_all"); w.server->graceful_shutdown(); break;
	case CH_SRV_ONE:
		{
			std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
			for (size_t i = 0; i < v.size();) if (v[i]->is_connected()) ++i; else v.erase(v.begin() + i); // a link that is not established yet cannot be shut down (the request is ignored)
			if (v.empty()) break;
			boost::shared_ptr<srv_sock> s = v[sim_chooseT(SS_WORK, (unsigned) v.size())];
			sim_probe("chaos.server_one");
			switch (sim_chooseT(SS_WORK, 4)) {case 0: s->force_shutdown(); break; case 1: w.server->force_shutdown(s); break; case 2: w.server->disconnect(s); break; default: s->disconnect(); s->force_shutdown(); break;}
		}
		break;
	case CH_CLI: if (!c->no_reconnect) {sim_probe("chaos.client_force"); c->shut2(false, true);} break;
	case CH_CLI_GRACE: if (!c->no_reconnect) {sim_probe("chaos.client_graceful"); c->shut2(true, true);} break;
	case CH_CLI_FINAL: if (!c->no_reconnect) {sim_probe("chaos.client_final"); c->shut2(0 == sim_chooseT(SS_WORK, 2), false);} break;
	case CH_POST: c->user_async(); break;
	case CH_OUTAGE:
		if (w.sps != w.spc)
		{
			sim_probe("chaos.outage");
			w.stop_server(); sleep_ms(1 + sim_chooseT(SS_WORK, 1500)); w.sps->start_service(w.sthreads); w.server_running = true;
		}
		break;
	}
	(void) gap_ms;
}
static void chaos_main(chaos_arg* a)
{
	unsigned acts[16], n = 0;
	for (unsigned b = 1; b <= CH_SRV_GRACE; b <<= 1) if (a->mask & b) acts[n++] = b;
	for (unsigned i = 0; i < a->steps; ++i)
	{
		if (a->gap_ms) sleep_us(1 + sim_chooseT(SS_WORK, a->gap_ms * 1000));
		chaos_step(*a->w, acts[sim_chooseT(SS_WORK, n)], a->gap_ms);
	}
}
static void knob_net_faults(unsigned weight)
{
	static const unsigned rs[] = {0, 0, 2000, 20000};
	if (weight) sim_net.reset_ppm = rs[K(4)];
	static const unsigned cr[] = {0, 0, 100000, 400000};
	sim_net.connect_refuse_ppm = cr[K(4)];
	static const unsigned ct[] = {0, 0, 0, 100000};
	sim_net.connect_timeout_ppm = ct[K(4)];
	static const unsigned ae[] = {0, 0, 0, 100000};
	sim_net.accept_err_ppm = ae[K(4)]; sim_net.accept_emfile_ppm = ae[K(4)] / 4;
}

static bool all_closed(world* w)
{
	for (size_t i = 0; i < w->clients.size(); ++i) if (m_obj_open(w->clients[i]->mobj)) return false;
	return !m_any_open(1);
}

static void quiet(world& w)
{
	sim_net_quiet(); sim_stop_schedule_noise();
	B.refuse_ppm = 0; B.handle_delay_ppm = 0; B.cb_delay_ppm = 0; B.shutdown_in_handler_ppm = 0; B.throw_ppm = 0; B.user_timer_ppm = B.user_post_ppm = 0; B.echo_ppm = 0; B.hello_ppm = 0; B.reconnect_limit = -1;
	(void) w;
}

static void add_senders(senders& ss, world& w, unsigned max_per)
{
	unsigned per = 1 + K(max_per), gap = K(2) ? 30000 : 500; bool overflow = K(2) == 0;
	int ns = 0;
	for (int i = 0; i < w.nclients; ++i) {unsigned n = K(2); for (unsigned j = 0; j < n && ns < 3; ++j, ++ns) ss.add(&w, i, false, 1 + K(per), gap, overflow);}
	unsigned n = K(3); for (unsigned j = 0; j < n; ++j) ss.add(&w, 0, true, 1 + K(per), gap, overflow);
}

static void c06_churn()
{
	m_enable("C06");
	tame_behaviour(); knob_framing(false); knob_net(true); knob_behaviour(true, true);
	if (B.refuse_ppm > 150000) B.refuse_ppm = 150000;
	world w; w.draw(3); w.make();
	static const unsigned ep[] = {0, 100000, 300000};
	B.echo_ppm = ep[K(3)]; B.hello_ppm = ep[K(3)]; B.budget = 30;
	static const unsigned sp[] = {0, 20000, 100000};
	B.shutdown_in_handler_ppm = sp[K(3)];
	B.reconnect_delay_ms = K(2) ? 20 : 300;
	knob_net_faults(1);
	w.start();
	if (K(2)) sleep_ms(K(100)); else wait_until(boost::bind(&world::all_connected, &w), 500);
	{
		senders ss; add_senders(ss, w, 12);
		boost::thread_group tg;
		std::vector<chaos_arg> a(1 + K(3));
		for (size_t i = 0; i < a.size(); ++i)
		{
			a[i].w = &w; a[i].steps = 1 + K(6); a[i].gap_ms = K(2) ? 300 : 40;
			// the graceful shutdown functions are documented as not thread safe: only one thread uses them
			a[i].mask = CH_RESET | CH_SRV_ALL | CH_SRV_ONE | CH_CLI;
			if (0 == i) a[i].mask |= CH_PART | CH_CLI_GRACE | CH_SRV_GRACE | CH_CLI_FINAL;
			tg.create_thread(boost::bind(&chaos_main, &a[i]));
		}
		ss.join(); tg.join_all();
	}
	bool end_by_stop = K(3) == 2;
	if (end_by_stop) {w.stop(); sim_probe("ended_by_stop");}
	quiet(w);
	if (!end_by_stop)
	{
		for (size_t i = 0; i < w.clients.size(); ++i) w.clients[i]->shut2(false, false);
		if (!wait_until(boost::bind(&all_closed, &w), 2000))
		{
			for (size_t i = 0; i < w.clients.size(); ++i) w.clients[i]->shut2(false, false);
			if (!wait_until(boost::bind(&all_closed, &w), 8000))
			{
				char b[200]; m_open_list(b, sizeof b);
				sim_fail("C06.not_closed", "no close notification 10 s after all links were shut down: %s", b);
			}
		}
		w.stop();
	}
	else if (!all_closed(&w)) {char b[200]; m_open_list(b, sizeof b); sim_fail("C06.not_closed", "service stopped without close notification: %s", b);}
	sim_probe_n("closes", m_total(CB_CLOSE)); sim_probe_n("connects", m_total(CB_CONNECT));
	w.destroy();
}

static bool none_refused(world* w) {for (size_t i = 0; i < w->clients.size(); ++i) if (m_refused_outstanding(w->clients[i]->robj)) return false; return true;}
static bool fresh_arrived(std::vector<std::pair<int, unsigned> >* f) {for (size_t i = 0; i < f->size(); ++i) if (!m_is_delivered((*f)[i].first, (*f)[i].second)) return false; return true;}
static size_t srv_up(world* w) {std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*w, v); size_t n = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i]->is_connected()) ++n; return n;}
static bool settled(world* w, size_t expect) {for (size_t i = 0; i < w->clients.size(); ++i) if (!w->clients[i]->no_reconnect && !w->clients[i]->is_connected()) return false; return srv_up(w) == expect;}

// after faults stopped: every client that is to reconnect is connected, and a fresh message each way gets through
static void check_recovered(world& w, const char* prop, unsigned limit_ms)
{
	char cls[40];
	sleep_ms(500); // what the last faults set in motion must have taken effect
	size_t expect = 0; for (size_t i = 0; i < w.clients.size(); ++i) if (!w.clients[i]->no_reconnect) ++expect;
	if (!wait_until(boost::bind(&settled, &w, expect), limit_ms))
	{
		snprintf(cls, sizeof cls, "%s.not_reconnected", prop);
		for (size_t i = 0; i < w.clients.size(); ++i) if (!w.clients[i]->no_reconnect && !w.clients[i]->is_connected()) sim_fail(cls, "client %d is not connected %u ms after the faults ended", (int) i, limit_ms);
		sim_fail(cls, "server has %d links, expected %d, %u ms after the faults ended", (int) srv_up(&w), (int) expect, limit_ms);
	}
	std::vector<std::pair<int, unsigned> > f;
	for (size_t i = 0; i < w.clients.size(); ++i) if (!w.clients[i]->no_reconnect) {if (w.clients[i]->tx(pick_size(), true)) f.push_back(std::make_pair(w.clients[i]->chan, w.clients[i]->last_id));}
	std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
	for (size_t i = 0; i < v.size(); ++i) if (v[i]->is_connected() && v[i]->tx(pick_size(), true)) f.push_back(std::make_pair(v[i]->chan, v[i]->last_id));
	v.clear();
	if (!wait_progress(boost::bind(&fresh_arrived, &f), total_delivered, 8000))
	{
		snprintf(cls, sizeof cls, "%s.dead_link", prop);
		for (size_t i = 0; i < f.size(); ++i) if (!m_is_delivered(f[i].first, f[i].second)) sim_fail(cls, "message %d/%u sent over a healthy re-established link is not handed over within 8 s", f[i].first, f[i].second);
	}
}

static void c03_refusals()
{
	m_enable("C01,C03");
	tame_behaviour(); knob_framing(false); knob_net(false); knob_behaviour(true, true);
	static const unsigned rp[] = {300000, 100000, 600000};
	B.refuse_ppm = rp[K(3)];
	world w; w.draw(2); w.make();
	static const unsigned ep[] = {0, 100000, 300000};
	B.echo_ppm = ep[K(3)]; B.hello_ppm = ep[K(3)]; B.budget = 30; B.reconnect_delay_ms = 20;
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C03.never_connected", "clients not connected within 8 s although nothing fails");
	{
		senders ss; add_senders(ss, w, 15); ss.add(&w, 0, true, 3 + K(12), 3000, true);
		boost::thread_group tg; chaos_arg a;
		a.w = &w; a.steps = K(4); a.gap_ms = 150; a.mask = CH_RESET | CH_SRV_ONE | CH_CLI;
		if (a.steps) tg.create_thread(boost::bind(&chaos_main, &a));
		ss.join(); tg.join_all();
	}
	quiet(w);
	if (!wait_progress(boost::bind(&none_refused, &w), total_delivered, 6000)) sim_fail("C03.refused_stuck", "a refused message is not offered again for 6 s although the link is up");
	check_recovered(w, "C03", 15000);
	m_check_final(0);
	w.stop(); w.destroy();
}

static void c08_monitor(world* w, volatile bool* stop)
{
	while (!*stop)
	{
		unsigned n = sim_net_client_open(PORT);
		if (n > (unsigned) w->nclients) sim_fail("C08.extra_connection", "%u connections or attempts for %d clients", n, w->nclients);
		sleep_ms(7);
	}
}
static void c08_reconnect()
{
	m_enable("C01,C06,C08");
	tame_behaviour(); knob_framing(true); knob_net(true); knob_behaviour(false, true);
	world w; w.draw(3); w.make();
	B.hello_ppm = K(2) ? 200000 : 0; B.budget = 20;
	static const int rd[] = {500, 20, 0, 100, 1500};
	B.reconnect_delay_ms = rd[K(5)];
	bool limited = K(5) == 4; if (limited) B.reconnect_limit = K(4);
	knob_net_faults(1);
	w.start();
	volatile bool stop = false;
	boost::thread mon(boost::bind(&c08_monitor, &w, &stop));
	{
		senders ss; add_senders(ss, w, 8);
		boost::thread_group tg; chaos_arg a;
		a.w = &w; a.steps = 1 + K(7); a.gap_ms = K(2) ? 900 : 120; a.mask = CH_RESET | CH_PART | CH_SRV_ALL | CH_SRV_ONE | CH_CLI | CH_CLI_GRACE | CH_CLI_FINAL | CH_OUTAGE | CH_SRV_GRACE;
		if (w.sps == w.spc) a.mask &= ~CH_OUTAGE;
		if (a.mask & CH_OUTAGE) {ss.join();} // senders use the server's table while it is being restarted: keep them apart
		tg.create_thread(boost::bind(&chaos_main, &a));
		ss.join(); tg.join_all();
	}
	quiet(w);
	check_recovered(w, "C08", 30000);
	unsigned live = 0; for (int i = 0; i < w.nclients; ++i) if (!w.clients[i]->no_reconnect) ++live;
	if (!wait_until(boost::lambda::bind(&sim_net_client_open, (unsigned short) PORT) == live, 3000))
		sim_fail("C08.stray_connection", "%u client connections are open, expected %u", sim_net_client_open(PORT), live);
	// now tell the rest to stop
	for (int i = 0; i < w.nclients; ++i) if (!w.clients[i]->no_reconnect) {w.clients[i]->shut2(false, false);}
	unsigned before = sim_net_connect_attempts(PORT);
	sleep_ms(3000);
	if (sim_net_connect_attempts(PORT) != before) sim_fail("C08.attempt_after_no", "%u connection attempts after reconnecting was disabled", sim_net_connect_attempts(PORT) - before);
	if (sim_net_client_open(PORT)) sim_fail("C08.stray_connection", "%u client connections still open after shutdown", sim_net_client_open(PORT));
	stop = true; mon.join();
	m_check_final(0);
	w.stop(); w.destroy();
}
#endif
