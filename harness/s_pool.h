// The server's table (C11), starting and stopping the service (C13), io_context references (C18), statistics (C17)
#ifndef S_POOL_H_
#define S_POOL_H_

// ---------------------------------------------------------------- C13
struct null_del {template<typename T> void operator()(T*) const {}};
typedef st_asio_wrapper::tcp::single_client_base<cli_sock> single_cli;
struct stopper {world* w; volatile bool done; bool separate; stopper(world* w_) : w(w_), done(false), separate(false) {}};
static void stop_main(stopper* s) {if (s->separate) {boost::thread a(boost::bind(&world::stop_clients, s->w)), b(boost::bind(&world::stop_server, s->w)); a.join(); b.join();} else s->w->stop(); s->done = true;}
static void stop_watched(world& w, unsigned limit_ms, bool separate)
{
	stopper s(&w); s.separate = separate && w.sps != w.spc;
	boost::thread t(boost::bind(&stop_main, &s));
	if (!wait_until(boost::lambda::var(s.done) == true, limit_ms, 10))
	{
		char b[200]; m_open_list(b, sizeof b);
		sim_fail("C13.stop_hangs", "stop_service has not returned after %u ms (faults and stalls excluded); open: %s", limit_ms, b);
	}
	t.join();
}
static int pump_threads(world& w) {return w.sps == w.spc ? w.sthreads + w.cthreads : (w.server_running ? w.sthreads : 0) + (w.client_running ? w.cthreads : 0);}
static void check_threads(int base, int expect, const char* when)
{
	int live = sim_thread_live() - base;
	if (live != expect) sim_fail("C13.thread_count", "%d service threads %s, expected %d", live, when, expect);
}
static void nop() {}
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
static bool threads_are(world* w, pump* p, int base, int expect_all, int expect)
{
	for (int i = 0; i < 4; ++i) {if (p == w->sps) w->server->post(&nop); if (p == w->spc) w->pool->post(&nop);} // a thread ends after its next handler only
	return p->service_thread_num() == expect && sim_thread_live() - base == expect_all;
}
#endif

static void c13_service()
{
	m_enable("C06,C13");
	tame_behaviour(); knob_framing(false); knob_net(true); knob_behaviour(true, true);
	if (B.refuse_ppm > 150000) B.refuse_ppm = 150000;
	world w; w.draw(3);
	int nclients = w.nclients; w.nclients = 0; w.make();
	boost::scoped_ptr<single_cli> sc;
	if (K(3) == 2) {sc.reset(new single_cli(*w.spc)); sc->set_server_addr(PORT, "127.0.0.1"); w.tune(*sc);}
	static const unsigned ep[] = {0, 100000, 300000};
	static const unsigned sp[] = {0, 0, 20000, 100000};
	static const unsigned tp[] = {0, 0, 50000, 300000};
	unsigned echo = ep[K(3)], hello = ep[K(3)], shut = sp[K(4)], thr = tp[K(4)];
	unsigned refuse = B.refuse_ppm, hd = B.handle_delay_ppm, cd = B.cb_delay_ppm, ut = B.user_timer_ppm, up = B.user_post_ppm;
	B.reconnect_delay_ms = K(2) ? 20 : 300;
	int base = sim_thread_live();
	unsigned cycles = 1 + K(3);
	for (unsigned cycle = 0; cycle < cycles; ++cycle)
	{
		bool last = cycle + 1 == cycles;
		m_no_callbacks(0); g_stopping = false;
		B.refuse_ppm = refuse; B.handle_delay_ppm = hd; B.cb_delay_ppm = cd; B.user_timer_ppm = ut; B.user_post_ppm = up;
		B.echo_ppm = echo; B.hello_ppm = hello; B.shutdown_in_handler_ppm = shut; B.throw_ppm = thr; B.budget = 20;
		knob_net_faults(1);
		w.nclients = nclients; w.add_clients();
		if (sc) {sc->no_reconnect = false; sc->set_reconnect(true); w.clients.push_back(boost::shared_ptr<cli_sock>(sc.get(), null_del())); ++w.nclients;}
		w.clients[0]->may_throw = true;
		unsigned exc0 = g_thrown;
		w.start();
		check_threads(base, pump_threads(w), "after start_service");
		if (K(4) == 3)
		{
			int n = 1 + K(3);
			if (K(2)) {w.sps->add_service_thread(n); w.sthreads += n;} else {w.spc->add_service_thread(n); w.cthreads += n;}
			check_threads(base, pump_threads(w), "after add_service_thread");
			sim_probe("c13.threads_added");
		}
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		if (K(4) != 0)
		{
			pump* p = K(2) ? w.sps : w.spc;
			int& have = p == w.sps ? w.sthreads : w.cthreads;
			int cur = w.sps == w.spc ? w.sthreads + w.cthreads : have, k = 1 + K(4);
			p->del_service_thread(k);
			int want = cur > k ? cur - k : 1;
			int all = pump_threads(w) - cur + want;
			if (!wait_until(boost::bind(&threads_are, &w, p, base, all, want), 8000, 5))
				sim_fail("C13.thread_count", "%d+ service threads live and service_thread_num() = %d after removing %d of %d, expected %d", sim_thread_live() - base, p->service_thread_num(), k, cur, want);
			// a request to remove more than can be removed remains outstanding: threads added later may be consumed by it
			have -= cur - want;
			if (cur > k) for (int i = 0; i < 10; ++i)
			{
				w.server->post(&nop); w.pool->post(&nop); sleep_ms(2);
				if (p->service_thread_num() != want || sim_thread_live() - base != all) sim_fail("C13.thread_count", "service_thread_num() = %d, %d threads live, expected %d/%d", p->service_thread_num(), sim_thread_live() - base, want, all);
			}
			sim_probe("c13.threads_removed");
		}
#endif
		if (K(3)) sleep_ms(K(100)); else wait_until(boost::bind(&world::all_connected, &w), 500);
		if (w.sps != w.spc && w.cthreads > 1 && 1 == w.spc->get_io_context_num() && K(2)) w.spc->end_budget = 1; // the application decides to end the thread with an exception
		bool stop_amid = !last && K(2);
		{
			senders cs; add_senders(cs, w, 10);
			boost::thread_group tg;
			chaos_arg a; a.w = &w; a.steps = K(6); a.gap_ms = K(2) ? 300 : 40; a.mask = CH_RESET | CH_SRV_ALL | CH_SRV_ONE | CH_CLI | CH_PART | CH_CLI_GRACE | CH_SRV_GRACE;
			if (a.steps) tg.create_thread(boost::bind(&chaos_main, &a));
			cs.join(); tg.join_all();
			if (stop_amid)
			{
				sim_probe("c13.stop_amid_traffic");
				senders more; // senders of clients go on while the service stops
				for (int i = 0; i < w.nclients; ++i) more.add(&w, i, false, 3 + K(10), 3000, true);
				sleep_us(K(5000));
				stop_watched(w, 15000, K(3) == 2);
				more.join();
			}
		}
		if (!stop_amid)
		{
			w.spc->end_budget = 0; if (w.spc->ended) sim_probe("c13.thread_ended_by_exception");
			sleep_ms(50);
			w.cthreads -= w.spc->ended; w.spc->ended = 0;
			B.throw_ppm = 0;
			for (int i = 0; i < 150 && sim_thread_live() - base > pump_threads(w); ++i) sleep_ms(10); // a thread that ends may be stalled
			check_threads(base, pump_threads(w), "after exceptions");
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
			if (w.sps != w.spc && w.spc->service_thread_num() != w.cthreads) sim_fail("C13.thread_count", "service_thread_num() = %d after exceptions, expected %d", w.spc->service_thread_num(), w.cthreads);
#endif
			if (last)
			{
				quiet(w);
				bool thrown = g_thrown != exc0;
				if (thrown)
				{	// the connection whose handler has thrown is not expected to work any more: replace it
					sim_probe("c13.recovered_after_exception");
					w.clients[0]->shut2(false, false);
					sleep_ms(300);
					w.clients.erase(w.clients.begin()); --w.nclients;
					if (w.nclients < 1 || K(2)) {w.add_client();}
				}
				check_recovered(w, "C13", 30000);
				check_threads(base, pump_threads(w), "in a running service");
			}
			stop_watched(w, 15000, K(3) == 2);
		}
		w.spc->end_budget = 0; w.cthreads -= w.spc->ended; w.spc->ended = 0;
		m_no_callbacks(1);
		check_threads(base, 0, "after stop_service returned");
		if (!all_closed(&w)) {char b[200]; m_open_list(b, sizeof b); sim_fail("C06.not_closed", "service stopped without close notification: %s", b);}
		sleep_ms(K(2) ? 200 : 5);
		w.clients.clear();
		sim_probe("c13.cycle");
	}
	if (sc) sc.reset();
	w.destroy();
}

// ---------------------------------------------------------------- C11
static unsigned short next_port() {static unsigned short p = 30000; sim_nopreempt(1); unsigned short r = ++p; sim_nopreempt(-1); return r;}
static std::string framed(const std::string& m) {std::string s; put_head(s, m.size() + ST_ASIO_HEAD_LEN); return s + m;}
static std::map<uint64_t, srv_sock*> g_none;

// 1: admitted, 0: refused (closed by the server), -1: could not connect, -2: neither within the time
static int raw_join(raw_peer& p, unsigned ms)
{
	unsigned short from = next_port();
	raw_get(from, true);
	if (!p.connect_(PORT, from)) return -1;
	char b[16];
	int r = p.recv_exact(b, ST_ASIO_HEAD_LEN + 3, ms);
	return 1 == r ? 1 : -2 == r ? -2 : 0;
}
static bool raw_echo(raw_peer& p, const char* text, unsigned ms)
{
	std::string f = framed(text), back(f.size(), 0);
	return p.send_all(f, 0, 0) && 1 == p.recv_exact(&back[0], f.size(), ms) && back == f;
}
struct c11_arg {world* w; unsigned n; bool echo_must; volatile bool* stop; unsigned admitted;};
static void c11_client(c11_arg* a)
{
	for (unsigned i = 0; i < a->n; ++i)
	{
		raw_peer p; unsigned short from = next_port(); raw_get(from, true);
		if (!p.connect_(PORT, from)) {sim_probe("c11.refused_connect"); sleep_us(1 + P(20000)); continue;}
		if (0 == P(6)) {if (P(2)) p.reset_(); continue;} // gone before the server has seen it
		char b[16]; int r = p.recv_exact(b, ST_ASIO_HEAD_LEN + 3, 400);
		if (1 != r) {sim_probe("c11.not_admitted"); continue;}
		sim_probe("c11.admitted"); ++a->admitted;
		unsigned e = P(4);
		for (unsigned k = 0; k < e; ++k) if (!raw_echo(p, "0123456789", 5000)) break;
		sleep_us(1 + P(P(4) ? 20000 : 600000));
		switch (P(4)) {case 0: p.reset_(); break; case 1: p.half_close(); p.wait_end(6000); break; default: break;}
	}
}
static void c11_monitor(c11_arg* a)
{
	while (!*a->stop)
	{
		size_t n = a->w->server->size(), m = a->w->server->max_size();
		if (n > m) sim_fail("C11.too_many", "%u connections in the table, the maximum is %u", (unsigned) n, (unsigned) m);
		sim_state(n * 1000 + a->w->server->invalid_object_size());
		sleep_us(500 + P(20000));
	}
}
static void c11_holder(c11_arg* a) // refers to random objects for a while
{
	for (unsigned i = 0; i < a->n && !*a->stop; ++i)
	{
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*a->w, v);
		if (v.empty()) {sleep_us(1 + P(30000)); continue;}
		boost::shared_ptr<srv_sock> s = v[P((unsigned) v.size())]; v.clear();
		sim_nopreempt(1); ++s->held; sim_nopreempt(-1);
		sim_probe("c11.held");
		uint64_t id = s->id();
		sleep_us(1 + P(P(8) ? 400000 : 12000000));
		if (s->id() != id) sim_fail("C11.reused_too_early", "an object the application refers to got another id");
		sim_nopreempt(1); --s->held; sim_nopreempt(-1);
	}
}
static void c11_kicker(c11_arg* a)
{
	for (unsigned i = 0; i < a->n; ++i)
	{
		sleep_us(1 + P(150000));
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*a->w, v);
		if (v.empty()) continue;
		boost::shared_ptr<srv_sock> s = v[P((unsigned) v.size())]; v.clear();
		sim_probe("c11.kicked");
		switch (P(5))
		{
		case 0: s->force_shutdown(); break;
		case 1: s->removed = true; a->w->server->force_shutdown(s); break;
		case 2: s->removed = true; a->w->server->disconnect(s); break;
		case 3: s->removed = true; a->w->server->del_socket(s, true); break;
		default: a->w->server->force_shutdown(); break;
		}
	}
}
static bool table_empty(world* w) {return 0 == w->server->size();}
static bool table_is(world* w, size_t n) {return n == w->server->size();}
static bool objects_balanced(world* w, int accepting)
{
	sim_nopreempt(1); int alive = srv_sock::alive(); sim_nopreempt(-1);
	return alive == accepting + (int) w->server->size() + (int) w->server->invalid_object_size();
}
static void check_balance(world& w, int accepting, const char* when)
{
	if (!wait_until(boost::bind(&objects_balanced, &w, accepting), 1500, 20))
		sim_fail("C11.accepts_outstanding", "%s: %d connection objects exist, %d are in the table and %d are finished: %d accepts are outstanding instead of %d", when, srv_sock::alive(),
			(int) w.server->size(), (int) w.server->invalid_object_size(), srv_sock::alive() - (int) w.server->size() - (int) w.server->invalid_object_size(), accepting);
}
static void c11_table()
{
	m_enable("C11");
	tame_behaviour(); knob_framing(false); g_framing = F_DEFAULT; knob_net(true); knob_behaviour(false, true);
	sim_net.max_seg = 0;
	srv_sock::echo_raw() = true; srv_sock::alive() = 0;
	world w; w.draw(1); w.nclients = 0; w.make();
	static const unsigned mx[] = {3, 1, 2, 5, 1000};
	unsigned maxn = mx[K(5)]; w.server->max_size(maxn);
	int an = 1 + K(3); w.server->accept_num = an;
	static const unsigned rj[] = {0, 0, 100000, 400000};
	w.server->reject_ppm = rj[K(4)];
	static const unsigned ae[] = {0, 0, 100000, 300000};
	sim_net.accept_err_ppm = ae[K(4)]; sim_net.accept_emfile_ppm = ae[K(4)] / 4;
	w.sps->start_service(w.sthreads); w.server_running = true;
	{
		volatile bool stop = false;
		boost::thread_group tg, mg;
		unsigned nthr = 1 + K(4);
		std::vector<c11_arg> a(nthr + 3);
		for (size_t i = 0; i < a.size(); ++i) {a[i].w = &w; a[i].n = 1 + K(8); a[i].stop = &stop; a[i].admitted = 0;}
		for (unsigned i = 0; i < nthr; ++i) tg.create_thread(boost::bind(&c11_client, &a[i]));
		mg.create_thread(boost::bind(&c11_monitor, &a[nthr]));
		if (K(2)) mg.create_thread(boost::bind(&c11_holder, &a[nthr + 1]));
		if (K(2)) tg.create_thread(boost::bind(&c11_kicker, &a[nthr + 2]));
		tg.join_all(); stop = true; mg.join_all();
	}
	quiet(w); w.server->reject_ppm = 0; sleep_ms(500); // connections their peers gave up at once may still arrive
	if (!wait_until(boost::bind(&table_empty, &w), 4000)) sim_fail("C11.not_removed", "%d connections are still in the table 4 s after all peers have gone", (int) w.server->size());
	check_balance(w, an, "after the clients have gone");
	// sequential admission is exact
	unsigned m = maxn > 5 ? 3 : maxn, extra = maxn > 5 ? 0 : 1 + K(2);
	{
		std::vector<boost::shared_ptr<raw_peer> > in;
		for (unsigned i = 0; i < m; ++i)
		{
			in.push_back(boost::make_shared<raw_peer>());
			int r = raw_join(*in.back(), 2000);
			if (1 != r) sim_fail("C11.refused_below_max", "connection %u of at most %u is %s", i + 1, maxn, r == -2 ? "accepted but not announced" : "refused");
		}
		if (!wait_until(boost::bind(&table_is, &w, m), 2000)) sim_fail("C11.table_size", "%u connections are up, the table has %d", m, (int) w.server->size());
		for (unsigned i = 0; i < extra; ++i)
		{
			raw_peer p; int r = raw_join(p, 2000);
			if (1 == r) sim_fail("C11.too_many", "connection %u is admitted although the maximum is %u", m + i + 1, maxn);
			if (0 != r) sim_fail("C11.excess_not_refused", "an excess connection is neither admitted nor closed within 2 s (%d)", r);
			sim_probe("c11.excess_refused");
		}
		for (unsigned i = 0; i < in.size(); ++i) if (!raw_echo(*in[i], "undisturbed?", 2000)) sim_fail("C11.disturbed", "an admitted connection does not work any more after others were refused");
		check_balance(w, an, "at the maximum");
		if (K(2))
		{
			sim_probe("c11.relisten");
			w.server->stop_listen();
			sleep_ms(100);
			raw_peer p; int r = raw_join(p, 1000);
			if (1 == r || -2 == r) sim_fail("C11.accepted_after_stop", "a connection is %s after stop_listen()", 1 == r ? "admitted" : "accepted and left alone");
			check_balance(w, 0, "after stop_listen()");
			for (unsigned i = 0; i < in.size(); ++i) if (!raw_echo(*in[i], "still here?", 2000)) sim_fail("C11.disturbed", "an admitted connection does not work any more after stop_listen()");
			if (K(2))
			{
				bool b = K(2); (b ? sim_net.bind_err_ppm : sim_net.listen_err_ppm) = 1000000;
				bool ok = w.server->start_listen();
				sim_net.bind_err_ppm = sim_net.listen_err_ppm = 0;
				if (ok || w.server->is_listening()) sim_fail("C11.listen_failure", "%s failed but start_listen() = %d, is_listening() = %d", b ? "bind" : "listen", ok, w.server->is_listening());
				
			}
			if (!w.server->start_listen()) sim_fail("C11.not_listening_again", "start_listen() fails although nothing is in the way");
			sleep_ms(50);
			check_balance(w, an, "after start_listen()");
		}
		unsigned victim = K(m);
		if (K(2)) in[victim]->reset_(); else in[victim]->close_();
		in.erase(in.begin() + victim);
		if (!wait_until(boost::bind(&table_is, &w, (size_t) m - 1), 2000)) sim_fail("C11.not_removed", "a connection whose peer has closed is still in the table after 2 s");
		in.push_back(boost::make_shared<raw_peer>());
		int r = raw_join(*in.back(), 2000);
		if (1 != r) sim_fail("C11.refused_below_max", "a connection is not admitted (%d) although one of %u has ended", r, maxn);
		for (unsigned i = 0; i < in.size(); ++i) if (!raw_echo(*in[i], "fine", 2000)) sim_fail("C11.disturbed", "an admitted connection does not work");
	}
	if (!wait_until(boost::bind(&table_empty, &w), 4000)) sim_fail("C11.not_removed", "%d connections are still in the table 4 s after all peers have gone", (int) w.server->size());
	check_balance(w, an, "at the end");
#if !defined(ST_ASIO_REUSE_OBJECT) && !defined(ST_ASIO_RESTORE_OBJECT)
	if (K(2))
	{
		sleep_ms(2 * ST_ASIO_FREE_OBJECT_INTERVAL * 1000 + 1000);
		if (w.server->invalid_object_size()) sim_fail("C11.not_freed", "%d finished objects nobody refers to are still kept after two freeing intervals", (int) w.server->invalid_object_size());
		check_balance(w, an, "after freeing");
	}
#endif
	w.stop_server(); w.destroy();
	if (srv_sock::alive()) sim_fail("C11.leak", "%d connection objects still exist after the server was destroyed", srv_sock::alive());
}

// ---------------------------------------------------------------- C18
static unsigned refs_sum(pump& p, std::vector<unsigned>* each = NULL)
{
	boost::container::list<unsigned> r; p.get_io_context_refs(r);
	unsigned n = 0;
	for (boost::container::list<unsigned>::iterator i = r.begin(); i != r.end(); ++i)
	{
		if (*i > 1000000) sim_fail("C18.underflow", "an io_context has %u references", *i);
		n += *i; if (each) each->push_back(*i);
	}
	return n;
}
struct refs_model {world* w; unsigned server_extra, pool_extra; std::vector<unsigned> cli_extra;};
static unsigned srv_expect(refs_model* m)
{
	std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*m->w, v);
	unsigned n = 2 + m->server_extra + (m->w->server->is_listening() ? m->w->server->accept_num : 0);
	for (size_t i = 0; i < v.size(); ++i) n += 1 + v[i]->extra_refs;
	return n;
}
static unsigned cli_expect(refs_model* m)
{
	unsigned n = 1 + m->pool_extra;
	for (size_t i = 0; i < m->w->clients.size(); ++i) if (!m->w->clients[i]->no_reconnect) n += 1 + m->cli_extra[i];
	return n;
}
static bool refs_match(refs_model* m) {return refs_sum(*m->w->sps) == srv_expect(m) && refs_sum(*m->w->spc) == cli_expect(m);}
static void check_refs(refs_model& m, const char* when)
{
	if (!wait_until(boost::bind(&refs_match, &m), 3000, 20))
		sim_fail("C18.refs", "%s: io_contexts of the server have %u references in total, expected %u; those of the clients %u, expected %u", when, refs_sum(*m.w->sps), srv_expect(&m), refs_sum(*m.w->spc), cli_expect(&m));
}
static void c18_add_client(refs_model& m, bool check)
{
	world& w = *m.w;
	std::vector<unsigned> a, b;
	if (check) refs_sum(*w.spc, &a);
	bool fresh = 0 == w.pool->invalid_object_size();
	boost::shared_ptr<cli_sock> c = w.pool->create_object();
	if (check && fresh)
	{
		refs_sum(*w.spc, &b);
		unsigned diff = 0; size_t at = 0;
		for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) {++diff; at = i;}
		if (1 != diff || b[at] != a[at] + 1) sim_fail("C18.refs", "creating an object changed the references of %u io_contexts", diff);
		for (size_t i = 0; i < a.size(); ++i) if (a[i] < a[at]) sim_fail("C18.spread", "a new object went to an io_context with %u references although another one has %u", a[at], a[i]);
		sim_probe("c18.spread_checked");
	}
	unsigned extra = K(3) == 2 ? 1 + K(4) : 0;
	c->set_server_addr(PORT, "127.0.0.1"); w.tune(*c);
	if (!w.pool->add_socket(c, extra)) sim_fail("C18.harness", "client not added");
	w.clients.push_back(c); ++w.nclients; m.cli_extra.push_back(extra);
}
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
static void c18_contexts()
{
	m_enable("C18");
	tame_behaviour(); knob_framing(false); knob_net(true); knob_behaviour(false, true);
	world w; w.draw(4);
	w.spc = &w.sp2;
	int nclients = w.nclients; w.nclients = 0;
	int sctx = 2 + K(2), cctx = 2 + K(2);
	if (1 == w.sps->get_io_context_num()) w.sps->set_io_context_num(sctx);
	if (1 == w.spc->get_io_context_num()) w.spc->set_io_context_num(cctx);
	sctx = w.sps->get_io_context_num(); cctx = w.spc->get_io_context_num();
	w.sthreads = sctx + K(3); w.cthreads = cctx + K(3);
	w.make();
	static const unsigned sp[] = {0, 0, 20000, 100000};
	unsigned hello = K(2) ? 200000 : 0, shut = sp[K(4)];
	B.reconnect_delay_ms = K(2) ? 20 : 300;
	refs_model m; m.w = &w; m.server_extra = m.pool_extra = 0;
	srv_sock::extra_ppm() = K(2) ? 400000 : 0;
	unsigned cycles = 1 + K(2);
	int base = sim_thread_live();
	for (unsigned cycle = 0; cycle < cycles; ++cycle)
	{
		g_stopping = false;
		B.hello_ppm = hello; B.budget = 20; B.shutdown_in_handler_ppm = shut;
		for (int i = 0; i < nclients; ++i) c18_add_client(m, true);
		check_refs(m, "before the service is started");
		if (K(3) == 2)
		{
			w.sps->start_service(sctx - 1);
			if (w.sps->is_service_started() || sim_thread_live() != base) sim_fail("C18.threads", "the service starts with %d threads for %d io_contexts", sctx - 1, sctx);
		}
		knob_net_faults(1);
		w.start();
		if (K(3) == 2) {unsigned n = 1 + K(5); w.server->add_io_context_refs(n); m.server_extra += n;}
		if (m.server_extra && K(2)) {unsigned n = 1 + K(m.server_extra); w.server->sub_io_context_refs(n); m.server_extra -= n;}
		{
			senders ss; add_senders(ss, w, 8);
			boost::thread_group tg; chaos_arg a;
			a.w = &w; a.steps = 1 + K(8); a.gap_ms = K(2) ? 400 : 60; a.mask = CH_RESET | CH_SRV_ALL | CH_SRV_ONE | CH_CLI | CH_CLI_GRACE | CH_CLI_FINAL | CH_SRV_GRACE;
			tg.create_thread(boost::bind(&chaos_main, &a));
			ss.join(); tg.join_all();
		}
		quiet(w);
		check_recovered(w, "C18", 30000);
		check_refs(m, "with all links up");
		if (K(2)) // contexts and threads are added while it runs
		{
			int nc = 1 + K(2), nt = nc + K(2);
			w.spc->add_service_thread(nt, false, nc);
			w.cthreads += nt; cctx += nc;
			if (w.spc->get_io_context_num() != cctx) sim_fail("C18.threads", "%d io_contexts instead of %d", w.spc->get_io_context_num(), cctx);
			for (int i = 0; i < nc + 1; ++i) c18_add_client(m, false);
			sim_probe("c18.contexts_added");
			check_recovered(w, "C18", 5000); // objects in the new contexts are served
			check_refs(m, "after io_contexts were added");
		}
		if (K(2))
		{
			for (size_t i = 0; i < w.clients.size(); ++i) if (!w.clients[i]->no_reconnect) w.clients[i]->shut2(false, false);
			check_refs(m, "after all links were closed");
			if (K(2)) {c18_add_client(m, true); check_recovered(w, "C18", 5000); check_refs(m, "with a link added later");}
		}
		w.stop();
		w.clients.clear(); w.nclients = 0; m.cli_extra.clear();
		check_refs(m, "after the service was stopped");
		sim_probe("c18.cycle");
	}
	w.destroy();
	if (refs_sum(*w.sps) || refs_sum(*w.spc)) sim_fail("C18.refs", "%u and %u references are left after everything was destroyed", refs_sum(*w.sps), refs_sum(*w.spc));
}
#endif

// ---------------------------------------------------------------- C17
struct stat_row {boost::uint_fast64_t v[4]; stat_row() {memset(v, 0, sizeof v);} stat_row(const statistic& s) {v[0] = s.send_msg_sum; v[1] = s.send_byte_sum; v[2] = s.recv_msg_sum; v[3] = s.recv_byte_sum;}
	void operator+=(const stat_row& o) {for (int i = 0; i < 4; ++i) v[i] += o.v[i];}};
static const char* const stat_names[] = {"messages sent", "bytes sent", "messages received", "bytes received"};
static void stat_same(const char* what, const stat_row& got, const stat_row& want)
{
	for (int i = 0; i < 4; ++i) if (got.v[i] != want.v[i])
		sim_fail("C17.counter", "%s: %s %llu, really %llu", what, stat_names[i], (unsigned long long) got.v[i], (unsigned long long) want.v[i]);
}
static void stat_sane(const char* what, const statistic& s)
{
#ifdef ST_ASIO_FULL_STATISTIC
	const statistic::stat_duration* d[] = {&s.send_delay_sum, &s.send_time_sum, &s.pack_time_sum, &s.dispatch_delay_sum, &s.recv_idle_sum, &s.handle_time_sum, &s.unpack_time_sum};
	static const char* const n[] = {"send_delay_sum", "send_time_sum", "pack_time_sum", "dispatch_delay_sum", "recv_idle_sum", "handle_time_sum", "unpack_time_sum"};
	for (int i = 0; i < 7; ++i)
	{
		boost::int_fast64_t v = boost::chrono::duration_cast<boost::chrono::microseconds>(*d[i]).count();
		if (v < 0 || v > 3600000000ll || d[i]->num < 0) sim_fail("C17.duration", "%s: %s is %lld us", what, n[i], (long long) v);
		if (i != 2 && i != 5 && d[i]->num > 0 && (d[i]->min_duration > d[i]->max_duration || d[i]->max_duration > *d[i])) sim_fail("C17.duration", "%s: %s has min %lld, max %lld, sum %lld", what, n[i], (long long) d[i]->min_duration.count(), (long long) d[i]->max_duration.count(), (long long) d[i]->count());
	}
	if (s.send_msg_sum && 0 == s.send_time_sum.num) sim_fail("C17.duration", "%s: %u messages sent, but no sending time was accumulated", what, (unsigned) s.send_msg_sum);
#else
	(void) what; (void) s;
#endif
}
struct c17_link {statistic s; int chan, robj; time_t tx_at, peer_tx_at; std::string name;};
template<typename S> static c17_link c17_row(S& s, const char* n) {c17_link l; l.s = s.get_statistic(); l.chan = s.chan; l.robj = s.robj; l.tx_at = s.last_tx; l.peer_tx_at = 0; l.name = n; return l;}
static bool c17_sent_settled(world* w, bool clean)
{
	std::vector<boost::shared_ptr<srv_sock> > v; srv_list(*w, v);
	for (size_t i = 0; i < v.size(); ++i) if (v[i]->get_pending_send_msg_size() || v[i]->is_sending() || v[i]->get_pending_recv_msg_size() || v[i]->is_dispatching()) return false;
	for (size_t i = 0; i < w->clients.size(); ++i) if (w->clients[i]->get_pending_send_msg_size() || w->clients[i]->is_sending() || w->clients[i]->get_pending_recv_msg_size() || w->clients[i]->is_dispatching()) return false;
	return !clean || all_chans_delivered();
}
static void c17_statistics()
{
	m_enable("C01,C17");
	tame_behaviour(); knob_framing(true); knob_net(false); knob_behaviour(true, true);
	world w; w.draw(3); w.make();
	static const unsigned ep[] = {0, 100000, 300000};
	B.echo_ppm = ep[K(3)]; B.hello_ppm = ep[K(3)]; B.budget = 40; B.reconnect_delay_ms = 20;
	g_single_item = true;
	bool clean = K(3) != 2;
	time_t began = time(NULL);
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C17.never_connected", "clients not connected within 8 s although nothing fails");
	wait_until(boost::lambda::bind(&srv::size, w.server.get()) == (size_t) w.nclients, 8000, 2);
	for (unsigned round = 0, rounds = clean ? 1 + K(2) : 1; round < rounds; ++round)
	{
		{
			senders ss; add_senders(ss, w, 20); ss.add(&w, 0, false, 1 + K(10), 500, true);
			boost::thread_group tg; chaos_arg a;
			a.w = &w; a.steps = 1 + K(3); a.gap_ms = 100; a.mask = CH_RESET | CH_SRV_ONE | CH_CLI;
			if (!clean) tg.create_thread(boost::bind(&chaos_main, &a));
			ss.join(); tg.join_all();
		}
		unsigned rf = B.refuse_ppm, e = B.echo_ppm, h = B.hello_ppm, ut = B.user_timer_ppm, up = B.user_post_ppm; B.refuse_ppm = B.echo_ppm = B.hello_ppm = B.user_timer_ppm = B.user_post_ppm = 0;
		if (round + 1 == rounds) quiet(w);
		if (!clean) check_recovered(w, "C17", 15000);
		if (!wait_progress(boost::bind(&c17_sent_settled, &w, clean), total_delivered, 6000)) sim_fail("C17.stuck", "traffic does not settle within 6 s");
		sleep_ms(1300); // injected stalls of the last callbacks
		time_t quiet_at = time(NULL);
		std::vector<boost::shared_ptr<srv_sock> > v; srv_list(w, v);
		std::vector<c17_link> rows;
		for (size_t i = 0; i < v.size(); ++i) rows.push_back(c17_row(*v[i], "server socket"));
		size_t ns = rows.size();
		for (size_t i = 0; i < w.clients.size(); ++i) rows.push_back(c17_row(*w.clients[i], "client socket"));
		stat_row sum[2], wire;
		for (size_t i = 0; i < rows.size(); ++i)
		{
			const c17_link& l = rows[i]; const statistic& s = l.s; stat_row r(s), want(s);
			sum[i >= ns] += r;
			want.v[2] = m_robj_delivered(l.robj); want.v[3] = m_robj_bytes(l.robj);
			if (clean) want.v[0] = m_accepted(l.chan) - m_fate_count(l.chan, FATE_DISCARD);
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
			else {want.v[0] = m_fate_count(l.chan, FATE_SENT); sim_probe("c17.reported_sent");}
#endif
			stat_same(l.name.c_str(), r, want);
			if (s.send_msg_sum > m_accepted(l.chan)) sim_fail("C17.counter", "%s: %u messages sent, but only %u were accepted", l.name.c_str(), (unsigned) s.send_msg_sum, m_accepted(l.chan));
			stat_sane(l.name.c_str(), s);
			if (s.establish_time < began || s.establish_time > quiet_at) sim_fail("C17.times", "%s: establish_time is off by %d s", l.name.c_str(), (int) (s.establish_time < began ? began - s.establish_time : s.establish_time - quiet_at));
			if (s.send_msg_sum)
			{
				if (s.last_send_time > quiet_at) sim_fail("C17.times", "%s: last_send_time is %d s ahead of the last sending", l.name.c_str(), (int) (s.last_send_time - quiet_at));
				if (clean && s.last_send_time < l.tx_at) sim_fail("C17.times", "%s: last_send_time is %d s before the last message was sent", l.name.c_str(), (int) (l.tx_at - s.last_send_time));
			}
			if (s.recv_msg_sum && (s.last_recv_time > quiet_at || s.last_recv_time < began)) sim_fail("C17.times", "%s: last_recv_time is off", l.name.c_str());
		}
		if (clean)
		{
			for (int side = 0; side < 2; ++side) if (sum[side].v[1] != sim_net_stream_bytes_sent(PORT, 0 == side))
				sim_fail("C17.wire_bytes", "%s sockets count %llu bytes sent, but %llu were written", side ? "client" : "server", (unsigned long long) sum[side].v[1], (unsigned long long) sim_net_stream_bytes_sent(PORT, 0 == side));
			// one client, one server socket: what one sent last the other received after that
			if (1 == w.nclients && 1 == ns)
				for (int i = 0; i < 2; ++i) if (rows[i].s.recv_msg_sum && rows[i].s.last_recv_time < rows[1 - i].tx_at)
					sim_fail("C17.times", "%s: last_recv_time is %d s before the peer's last message was sent", rows[i].name.c_str(), (int) (rows[1 - i].tx_at - rows[i].s.last_recv_time));
			sim_probe("c17.clean");
		}
		stat_same("server's table", stat_row(w.server->get_statistic()), sum[0]);
		stat_same("client pool", stat_row(w.pool->get_statistic()), sum[1]);
		if (clean)
		{
			// nothing happens: nothing is counted, no activity is recorded
			sleep_ms(2500);
			for (size_t i = 0; i < rows.size(); ++i)
			{
				statistic s = i < ns ? v[i]->get_statistic() : w.clients[i - ns]->get_statistic();
				stat_same("idle connection", stat_row(s), stat_row(rows[i].s));
				if (s.last_send_time != rows[i].s.last_send_time || s.last_recv_time != rows[i].s.last_recv_time) sim_fail("C17.times", "activity recorded on an idle connection");
			}
		}
		B.refuse_ppm = rf; B.echo_ppm = e; B.hello_ppm = h; B.user_timer_ppm = ut; B.user_post_ppm = up;
		if (round + 1 == rounds)
		{
			time_t t0 = time(NULL);
			std::vector<statistic> before; for (size_t i = 0; i < v.size(); ++i) before.push_back(v[i]->get_statistic());
			for (size_t i = 0; i < w.clients.size(); ++i) w.clients[i]->shut2(false, false);
			wait_until(boost::bind(&all_closed, &w), 5000);
			sleep_ms(1300);
			for (size_t i = 0; i < w.clients.size(); ++i)
			{
				time_t b = w.clients[i]->get_statistic().break_time;
				if (b < t0 || b > time(NULL)) sim_fail("C17.times", "break_time of a closed link is not the time it was closed");
			}
			for (size_t i = 0; i < v.size(); ++i) if (v[i]->get_statistic().break_time < t0) sim_fail("C17.times", "break_time of a link closed by the peer is not set");
			if (clean) for (size_t i = 0; i < v.size(); ++i) stat_same("closed connection", stat_row(v[i]->get_statistic()), stat_row(before[i]));
		}
		if (round) {B.refuse_ppm = B.echo_ppm = B.hello_ppm = B.user_timer_ppm = B.user_post_ppm = 0;}
	}
	w.stop(); w.destroy();
}
#endif
