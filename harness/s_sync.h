// Synchronous sending and receiving (C14)
#ifndef S_SYNC_H_
#define S_SYNC_H_
struct sync_arg
{
	world* w; int who, n; bool clean; bool sole; volatile bool* stop;
	volatile bool done; volatile unsigned dur; volatile uint64_t since; const char* what;   // what it is doing
	unsigned count, gap_us; bool overflow;
	std::map<int, int> robj; // receiving object -> model
	sync_arg() : done(false), dur(0), since(0), what("") {}
};
template<typename S> static void sync_recv_once(sync_arg* a, S& s)
{
	static const unsigned durs[] = {0, 0, 1, 30, 500};
	unsigned dur = durs[sim_chooseT(SS_WORK2, 5)];
#ifdef ST_ASIO_PASSIVE_RECV
	if (s.is_server && 0 == dur && a->w->nclients > 1) dur = 200; // nobody reads what a connection receives while this thread waits on another one
#endif
	sim_nopreempt(1);
	int r = 0;
	std::map<int, int>::iterator i = a->robj.find(s.robj);
	if (i == a->robj.end()) {r = m_robj("sync receiver", s.is_server ? -2 : -1); m_robj_partial(r); a->robj[s.robj] = r; m_robj_partial(s.robj);} else r = i->second;
	sim_nopreempt(-1);
	st_asio_wrapper::list<std::string> can;
	unsigned closes = m_obj_closes(s.mobj);
	bool up = s.started() && s.is_connected();
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	a->dur = dur; a->since = t0; a->what = s.is_server ? "sync_recv_msg of a server socket" : "sync_recv_msg of a client socket";
	sync_call_result re = s.sync_recv_msg(can, dur);
	a->what = "";
	uint64_t dt = sim_now_ns() - t0;
	sim_state(0xC14 * 131 + re * 17 + can.empty() * 3 + up);
	switch (re)
	{
	case SUCCESS:
		sim_probe("c14.received");
		for (st_asio_wrapper::list<std::string>::iterator m = can.begin(); m != can.end(); ++m) m_deliver(r, m->data(), m->size());
#ifndef ST_ASIO_PASSIVE_RECV
		//if (can.empty()) sim_fail("C14.recv_nothing", "a synchronous receive succeeded without a message");
#endif
		break;
	case TIMEOUT:
		sim_probe("c14.recv_timeout");
		if (0 == dur || dt + 1000000 < dur * 1000000ull) sim_fail("C14.recv_early_timeout", "a synchronous receive with a limit of %u ms timed out after %u ms", dur, (unsigned) (dt / 1000000));
		break;
	case NOT_APPLICABLE:
		sim_probe("c14.recv_failed");
		if (a->clean && up && !*a->stop && s.is_connected() && closes == m_obj_closes(s.mobj)) sim_fail("C14.recv_failed_healthy", "a synchronous receive failed although the link is up");
		break;
	case DUPLICATE:
		sim_probe("c14.duplicate");
		if (a->sole) sim_fail("C14.duplicate", "a synchronous receive was refused as a duplicate, no other one is in progress");
		sleep_us(500);
		break;
	default: sim_fail("C14.recv_result", "a synchronous receive returned %d", (int) re);
	}
	if (SUCCESS != re && !can.empty()) sim_fail("C14.recv_failed_with_data", "a synchronous receive which did not succeed handed over %u messages", (unsigned) can.size());
	if (dur > 0 && dt > dur * 1000000ull + 1500000000ull + (sim_stall_ns() - s0)) sim_fail("C14.recv_late", "a synchronous receive with a limit of %u ms returned after %u ms", dur, (unsigned) (dt / 1000000));
	if (NOT_APPLICABLE == re) sleep_ms(2);
}
static boost::shared_ptr<srv_sock> sync_pick(world* w)
{
	std::vector<boost::shared_ptr<srv_sock> > v; boost::shared_ptr<srv_sock> s;
	w->server->do_something_to_all(collector(&v));
	static unsigned turn; // nobody is left out
	if (!v.empty()) {sim_nopreempt(1); unsigned n = turn++; sim_nopreempt(-1); s = v[n % v.size()];}
	return s;
}
static void sync_recv_main(sync_arg* a)
{
	while (!*a->stop)
	{
		if (a->who >= 0) sync_recv_once(a, *a->w->clients[a->who]);
		else
		{
			boost::shared_ptr<srv_sock> s = sync_pick(a->w);
			if (s && s->is_connected()) sync_recv_once(a, *s); else sleep_ms(5);
		}
		if (a->gap_us && 0 == sim_chooseT(SS_WORK2, 3)) sleep_us(1 + sim_chooseT(SS_WORK2, a->gap_us));
	}
	a->done = true;
}
static void sync_send_main(sync_arg* a)
{
	for (unsigned i = 0; i < a->count && !*a->stop; ++i)
	{
		bool of = a->overflow || 0 == sim_chooseT(SS_WORK, 3);
		int mode = 0 == sim_chooseT(SS_WORK, 4) ? pick_mode(of) : 8 + (int) sim_chooseT(SS_WORK, 6);
		if (10 == mode && of) mode = 8;
		if (!a->clean && (6 == mode || 10 == mode)) mode = 8; // "safe" sending goes on until the buffer has room
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
		if (10 == mode) mode = 8; // it sends discarded messages again
#endif
		a->since = sim_now_ns(); a->what = a->who < 0 ? "a synchronous send of a server socket" : "a synchronous send of a client socket";
		if (a->who < 0) {boost::shared_ptr<srv_sock> s = sync_pick(a->w); if (s && s->is_connected()) s->tx(pick_size(), of, mode);}
		else a->w->clients[a->who]->tx(pick_size(), of, mode);
		a->what = "";
		if (a->gap_us && sim_chooseT(SS_WORK, 3)) sleep_us(1 + sim_chooseT(SS_WORK, a->gap_us));
	}
	a->done = true;
}
static void sync_pop_main(sync_arg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		sleep_us(1 + sim_chooseT(SS_WORK4, a->gap_us + 1));
		boost::shared_ptr<cli_sock> c = a->w->clients[sim_chooseT(SS_WORK4, (unsigned) a->w->clients.size())];
		if (sim_chooseT(SS_WORK4, 2))
		{
			cli_sock::in_container_type can; sim_nopreempt(1); c->pop_all_pending_send_msg(can); c->fates(FATE_POP, can); sim_nopreempt(-1);
			if (!can.empty()) sim_probe("c14.popped");
		}
		else {cli_sock::in_msg m; sim_nopreempt(1); c->pop_first_pending_send_msg(m); if (!m.empty()) {c->fate_item(FATE_POP, m.data(), m.size()); sim_probe("c14.popped");} sim_nopreempt(-1);}
	}
	a->done = true;
}
static void c14_sync(bool clean)
{
	m_enable("C14,C01");
	tame_behaviour(); knob_framing(false); knob_net(clean); knob_behaviour(true, true);
	static const unsigned mx[] = {200, 40, 900, 3000, 3900}; g_size_max = mx[K(5)];
	world w; w.draw(3); w.make();
	g_sync_ok[0] = g_sync_ok[1] = 0;
	static const unsigned ep[] = {0, 100000, 300000};
	B.echo_ppm = ep[K(3)]; B.hello_ppm = ep[K(3)]; B.budget = 30;
#ifdef ST_ASIO_PASSIVE_RECV
	B.passive = 1 + (int) K(2);
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	B.sync_clean = false;
#else
	B.sync_clean = clean;
#endif
	if (!clean) knob_net_faults(1);
	w.start();
	if (clean)
	{
		if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C14.never_connected", "clients not connected within 8 s although nothing fails");
		wait_until(boost::lambda::bind(&srv::size, w.server.get()) == (size_t) w.nclients, 8000, 2);
	}
	else sleep_ms(K(300));
	volatile bool stop = false, stop2 = false;
	std::vector<sync_arg*> rx, tx;
	boost::thread_group tr, tt, tc;
	bool passive = false;
#ifdef ST_ASIO_PASSIVE_RECV
	passive = true;
#endif
	unsigned gap = K(2) ? 30000 : 0;
	for (int i = -1; i < w.nclients; ++i)
	{
		unsigned n = passive ? 1 + K(2) : K(3);
		if (passive && -1 == i) n = w.nclients; // each of them may be waiting on another connection
		for (unsigned j = 0; j < n && rx.size() < 9; ++j) {sync_arg* a = new sync_arg; a->w = &w; a->who = i; a->clean = clean; a->stop = &stop; a->gap_us = gap; a->sole = 1 == n; rx.push_back(a);}
	}
	unsigned per = 1 + K(20), sgap = K(2) ? 20000 : 200; bool overflow = K(2) == 0;
	for (int i = -1; i < w.nclients; ++i)
	{
		unsigned n = 0 == i ? 1 + K(2) : K(3);
		for (unsigned j = 0; j < n && tx.size() < 6; ++j) {sync_arg* a = new sync_arg; a->w = &w; a->who = i; a->clean = clean; a->stop = &stop2; a->gap_us = sgap; a->count = 1 + K(per); a->overflow = overflow; tx.push_back(a);}
	}
	sync_arg pop; chaos_arg ca; bool popping = !clean && 0 == K(2); g_single_item = popping;
	for (size_t i = 0; i < rx.size(); ++i) tr.create_thread(boost::bind(&sync_recv_main, rx[i]));
	for (size_t i = 0; i < tx.size(); ++i) tt.create_thread(boost::bind(&sync_send_main, tx[i]));
	if (clean)
	{
		tt.join_all();
		sim_net_quiet(); sim_stop_schedule_noise();
		B.refuse_ppm = 0; B.handle_delay_ppm = 0; B.cb_delay_ppm = 0;
		if (!wait_progress(all_chans_delivered, total_delivered, 6000))
			for (unsigned c = 0; c < m_chan_count(); ++c) if (!m_all_delivered(c))
				sim_fail("C14.stuck", "channel %u: only %u of %u accepted messages were received (%u discarded), nothing moves for 6 s on a healthy link", c, m_delivered(c), m_accepted(c), m_fate_count(c, FATE_DISCARD));
	}
	else
	{
		if (popping) {pop.w = &w; pop.count = 1 + K(10); pop.gap_us = 20000; tc.create_thread(boost::bind(&sync_pop_main, &pop));}
		ca.w = &w; ca.steps = K(6); ca.gap_ms = K(2) ? 400 : 60; ca.mask = CH_RESET | CH_PART | CH_SRV_ALL | CH_SRV_ONE | CH_CLI | CH_CLI_GRACE | CH_CLI_FINAL | CH_POST | CH_SRV_GRACE;
		tc.create_thread(boost::bind(&chaos_main, &ca));
		tc.join_all();
		if (K(2)) sleep_ms(K(2000));
		quiet(w);
	}
	stop2 = stop = true;
	w.stop();
	for (unsigned i = 0; i < 2; ++i)
	{
		std::vector<sync_arg*>& v = i ? tx : rx;
		for (size_t j = 0; j < v.size(); ++j)
		{
			for (unsigned k = 0; k < 400 && !v[j]->done; ++k) sleep_ms(50);
			if (!v[j]->done) sim_fail(i ? "C14.send_never_returns" : "C14.recv_never_returns", "%s (limit %u ms) has not returned 20 s after the link ended", v[j]->what, v[j]->dur);
		}
	}
	tr.join_all(); tt.join_all();
	m_check_final(clean);
	for (size_t i = 0; i < rx.size(); ++i) delete rx[i];
	for (size_t i = 0; i < tx.size(); ++i) delete tx[i];
	w.destroy();
}
#endif
