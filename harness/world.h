// One simulated deployment: a server and a few clients in one process, plus the knobs drawn for it.
#ifndef WORLD_H_
#define WORLD_H_
#include "stream.h"

#define PORT 5051
static unsigned K(unsigned n) {return sim_choose(SS_KNOB, n);}            // 0 is always the tame choice
static bool Kp(unsigned pct) {return sim_choose(SS_KNOB, 100) >= 100 - pct;}
static void sleep_ms(unsigned ms) {boost::this_thread::sleep_for(boost::chrono::milliseconds(ms));}
static void sleep_us(unsigned us) {boost::this_thread::sleep_for(boost::chrono::microseconds(us));}

static void tame_behaviour()
{
	memset(&B, 0, sizeof B); g_stopping = g_single_item = false;
	B.reconnect_limit = -1; B.reconnect_delay_ms = 500; B.on_msg_take_all = true;
}

static void knob_net(bool slow_links)
{
	static const unsigned lats[] = {0, 50, 500, 5000, 40000};
	unsigned l = lats[K(slow_links ? 5 : 4)];
	sim_net.lat_min_us = K(2) ? 0 : l / 2; sim_net.lat_max_us = l;
	static const unsigned sr[] = {0, 0, 100000, 400000};
	sim_net.short_read_ppm = sr[K(4)]; sim_net.short_write_ppm = sr[K(4)];
	static const unsigned segs[] = {0, 0, 1, 3, 17, 100, 1000};
	sim_net.max_seg = segs[K(7)];
	static const unsigned bufs[] = {65536, 65536, 16384, 4096, 1024, 200};
	sim_net.sndbuf = bufs[K(6)]; sim_net.rcvbuf = bufs[K(6)];
	sim_net.connect_lat_max_us = K(2) ? 20000 : 200;
}

static void knob_behaviour(bool refusals, bool delays)
{
	static const unsigned rp[] = {0, 0, 30000, 150000, 400000};
	if (refusals) B.refuse_ppm = rp[K(5)];
	static const unsigned dp[] = {0, 0, 50000, 300000};
	if (delays) {B.handle_delay_ppm = dp[K(4)]; B.handle_delay_max_us = K(2) ? 30000 : 2000; B.cb_delay_ppm = dp[K(4)]; B.cb_delay_max_us = K(2) ? 20000 : 1000;}
	static const unsigned up[] = {0, 100000, 400000};
	B.user_timer_ppm = up[K(3)]; B.user_post_ppm = up[K(3)];
	B.on_msg_take_all = 0 == K(2);
}

struct world
{
	pump sp1, sp2;
	pump* sps; pump* spc;
	boost::scoped_ptr<srv> server;
	boost::scoped_ptr<cli_pool> pool;
	std::vector<boost::shared_ptr<cli_sock> > clients;
	int nclients, sthreads, cthreads;
	bool server_running, client_running;
	unsigned send_buf, recv_buf;

	world() : sps(&sp1), spc(&sp2), nclients(1), sthreads(1), cthreads(1), server_running(false), client_running(false), send_buf(0), recv_buf(0) {}
	void draw(int max_clients)
	{
		nclients = 1 + K(max_clients); sthreads = 1 + K(4); cthreads = 1 + K(3);
		if (K(3) == 2) spc = &sp1; // one pump for both sides
		static const unsigned sb[] = {0, 0, 300, 1500, 8000};
		send_buf = sb[K(5)];
		static const unsigned rb[] = {0, 0, 1, 200, 1000, 6000};
		recv_buf = rb[K(6)];
#if !defined(ST_ASIO_DECREASE_THREAD_AT_RUNTIME)
		unsigned ctx = K(4);
#ifndef ST_ASIO_AVOID_AUTO_STOP_SERVICE
		ctx = 0; // config.h: an io_context without pending operations ends its threads, use the macro with several io_contexts
#endif
		if (ctx == 2 && sthreads > 1) sps->set_io_context_num(2);
		if (ctx == 3 && cthreads > 1 && spc != sps) spc->set_io_context_num(2);
#endif
	}
	void make()
	{
		server.reset(new srv(*sps));
		server->set_server_addr(PORT, "127.0.0.1");
		pool.reset(new cli_pool(*spc));
		add_clients();
	}
	boost::shared_ptr<cli_sock> new_client()
	{
		boost::shared_ptr<cli_sock> c = pool->create_object();
		c->set_server_addr(PORT, "127.0.0.1");
		tune(*c);
		pool->add_socket(c);
		return c;
	}
	void add_client() {clients.push_back(new_client()); ++nclients;}
	void add_clients() {for (int i = 0; i < nclients; ++i) clients.push_back(new_client());}
	template<typename S> void tune(S& s)
	{
		if (send_buf) s.send_buf_size(send_buf);
		if (recv_buf) s.recv_buf_size(recv_buf);
		s.msg_handling_interval(20);
	}
	void start()
	{
		if (sps == spc) {sps->start_service(sthreads + cthreads); server_running = client_running = true; return;}
		bool client_first = K(3) == 2;
		if (client_first) {spc->start_service(cthreads); client_running = true; sleep_ms(K(200));}
		sps->start_service(sthreads); server_running = true;
		if (!client_first) {spc->start_service(cthreads); client_running = true;}
	}
	void stop()
	{
		if (K(2)) {stop_clients(); stop_server();} else {stop_server(); stop_clients();}
	}
	void stop_clients() {g_stopping = true; spc->stop_service(); client_running = false; if (sps == spc) server_running = false;}
	void stop_server() {if (sps == spc) g_stopping = true; sps->stop_service(); server_running = false; if (sps == spc) client_running = false;}
	void destroy() {clients.clear(); pool.reset(); server.reset();}
	bool all_connected() {for (size_t i = 0; i < clients.size(); ++i) if (!clients[i]->is_connected()) return false; return true;}
};

// wait until pred() holds; gives up when *progress() has not changed for limit_ms of simulated time (stalls do not count)
template<typename Pred, typename Progress> static bool wait_progress(Pred pred, Progress progress, unsigned limit_ms, unsigned step_ms = 20)
{
	uint64_t last = progress(), t0 = sim_now_ns() - sim_stall_ns();
	while (!pred())
	{
		sleep_ms(step_ms);
		uint64_t p = progress(), now = sim_now_ns() - sim_stall_ns();
		if (p != last) {last = p; t0 = now;}
		else if ((int64_t) (now - t0) > (int64_t) limit_ms * 1000000) return pred(); // stalls are credited when they begin: 'now' may step back
	}
	return true;
}
template<typename Pred> static bool wait_until(Pred pred, unsigned limit_ms, unsigned step_ms = 20)
{
	uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
	while (!pred())
	{
		if (sim_now_ns() - t0 > limit_ms * 1000000ull + (sim_stall_ns() - s0)) return false;
		sleep_ms(step_ms);
	}
	return true;
}
static uint64_t total_delivered() {uint64_t n = 0; for (unsigned c = 0; c < m_chan_count(); ++c) n += m_delivered(c); return n;}
#endif
