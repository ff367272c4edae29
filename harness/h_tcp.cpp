#include "world.h"
#include <deque>

#ifndef VARIANT
#define VARIANT "tcpA"
#endif
const char* sim_harness_name() {return VARIANT;}

struct sender_arg {world* w; int who; unsigned count; bool server_side; unsigned gap_us; bool overflow;};

struct collector
{
	std::vector<boost::shared_ptr<srv_sock> >* v;
	collector(std::vector<boost::shared_ptr<srv_sock> >* v_) : v(v_) {}
	void operator()(const boost::shared_ptr<srv_sock>& s) const {v->push_back(s);}
};
static int pick_mode(bool overflow) {int m = (int) sim_chooseT(SS_WORK, 12); if (m > 7) m = 0; if (6 == m && overflow) m = 0; return m;}

static void sender_main(sender_arg* a)
{
	for (unsigned i = 0; i < a->count; ++i)
	{
		bool of = a->overflow || 0 == sim_chooseT(SS_WORK, 3);
		int mode = pick_mode(of);
		if (a->server_side)
		{
			// pick by id under a reference, as applications do
			std::vector<boost::shared_ptr<srv_sock> > v;
			size_t n = a->w->server->size();
			if (n > 0)
			{
				a->w->server->do_something_to_all(collector(&v));
				if (!v.empty()) {boost::shared_ptr<srv_sock> s = v[sim_chooseT(SS_WORK, (unsigned) v.size())]; if (s->is_connected()) s->tx(pick_size(), of, mode);}
			}
		}
		else
			a->w->clients[a->who]->tx(pick_size(), of, mode);
		if (a->gap_us && sim_chooseT(SS_WORK, 3)) sleep_us(1 + sim_chooseT(SS_WORK, a->gap_us));
	}
}

struct senders
{
	std::vector<sender_arg*> args; boost::thread_group tg;
	void add(world* w, int who, bool server_side, unsigned count, unsigned gap_us, bool overflow)
	{
		sender_arg* a = new sender_arg; a->w = w; a->who = who; a->count = count; a->server_side = server_side; a->gap_us = gap_us; a->overflow = overflow;
		args.push_back(a); tg.create_thread(boost::bind(&sender_main, a));
	}
	void join() {tg.join_all();}
	~senders() {for (size_t i = 0; i < args.size(); ++i) delete args[i];}
};
static bool all_chans_delivered() {for (unsigned c = 0; c < m_chan_count(); ++c) if (!m_all_delivered(c)) return false; return true;}

static void knob_framing(bool any)
{
	g_framing = any ? (int) K(F_COUNT) : (int) F_DEFAULT;
	if (F_FIXED == g_framing) g_fixed_len = 17 + K(200);
	static const unsigned mx[] = {200, 40, 900, 3000, 3900};
	g_size_max = mx[K(5)];
}

// ---- C01: links stay up, everything accepted must arrive
static void c01_clean()
{
	m_enable("C01,C03");
	tame_behaviour(); knob_framing(true); knob_net(true); knob_behaviour(true, true);
	world w; w.draw(3); w.make();
	static const unsigned ep[] = {0, 100000, 300000};
	B.echo_ppm = ep[K(3)]; B.hello_ppm = ep[K(3)]; B.budget = 40;
	w.start();
	bool up = wait_until(boost::bind(&world::all_connected, &w), 8000);
	if (!up) sim_fail("C01.never_connected", "clients not connected within 8 s although nothing fails");
	if (B.hello_ppm) sleep_ms(K(3));
	else wait_until(boost::lambda::bind(&srv::size, w.server.get()) == (size_t) w.nclients, 8000, 2);
	{
		senders ss;
		unsigned per = 1 + K(25), gap = K(2) ? 20000 : 200; bool overflow = K(2) == 0;
		int ns = 0;
		for (int i = 0; i < w.nclients; ++i) {unsigned n = K(3); if (0 == i && 0 == n) n = 1; for (unsigned j = 0; j < n && ns < 4; ++j, ++ns) ss.add(&w, i, false, 1 + K(per), gap, overflow);}
		unsigned n = K(3); for (unsigned j = 0; j < n; ++j) ss.add(&w, 0, true, 1 + K(per), gap, overflow);
		ss.join();
	}
	sim_net_quiet(); sim_stop_schedule_noise();
	B.refuse_ppm = 0; B.handle_delay_ppm = 0; B.cb_delay_ppm = 0;
	if (!wait_progress(all_chans_delivered, total_delivered, 6000))
	{
		for (unsigned c = 0; c < m_chan_count(); ++c) if (!m_all_delivered(c))
			sim_fail("C01.stuck", "channel %u: only %u of %u accepted messages were handed over (%u discarded), nothing moves for 6 s on a healthy link", c, m_delivered(c), m_accepted(c), m_fate_count(c, FATE_DISCARD));
	}
	m_check_final(1);
	sim_probe_n("messages", (unsigned) total_delivered());
	w.stop(); w.destroy();
}

#include "s_life.h"
#include "s_frame.h"
#include "s_pool.h"
#include "s_flow.h"
#include "s_reuse.h"
#include "s_beat.h"
#if defined(ST_ASIO_SYNC_SEND) && defined(ST_ASIO_SYNC_RECV)
#include "s_sync.h"
#endif

const char* const sim_harness_scenarios = "c01 c06 c03 c08 c05 c13 c11 c18 c17 c04 c04p c02 c07 c12 c12r c14 c14x c09";
void sim_harness_run()
{
	std::string s = sim_scenario();
	if (s == "c01") c01_clean();
	else if (s == "c06") c06_churn();
	else if (s == "c03") c03_refusals();
	else if (s == "c08") c08_reconnect();
	else if (s == "c05") c05_streams();
	else if (s == "c09") c09_beat();
	else if (s == "c13") c13_service();
	else if (s == "c11") c11_table();
	else if (s == "c12") c12_reuse();
#ifdef ST_ASIO_RESTORE_OBJECT
	else if (s == "c12r") c12_restore();
#endif
#if defined(ST_ASIO_SYNC_SEND) && defined(ST_ASIO_SYNC_RECV)
	else if (s == "c14") c14_sync(true);
	else if (s == "c14x") c14_sync(false);
#endif
	else if (s == "c07") c07_graceful();
	else if (s == "c02") c02_fates();
#ifdef ST_ASIO_PASSIVE_RECV
	else if (s == "c04p") c04_passive();
#else
	else if (s == "c04") c04_flow();
#endif
	else if (s == "c17") c17_statistics();
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
	else if (s == "c18") c18_contexts();
#endif
	else sim_fail("harness", "unknown scenario %s", s.c_str());
}
