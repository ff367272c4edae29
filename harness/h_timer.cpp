// C10: the timers of the library, driven directly
#ifndef ST_ASIO_SERVICE_THREAD_NUM
#define ST_ASIO_SERVICE_THREAD_NUM 2
#endif
#include "common.h"
#include "ext/tcp.h"
#include <boost/thread.hpp>
#include <vector>
#include "model.h"
using namespace st_asio_wrapper;
const char* sim_harness_name() {return VARIANT;}
static unsigned K(unsigned n) {return sim_choose(SS_KNOB, n);}
static void sleep_us(unsigned us) {boost::this_thread::sleep_for(boost::chrono::microseconds(us));}
static void sleep_ms(unsigned ms) {sleep_us(ms * 1000);}

enum {MAXT = 6};
struct tm_model // what the application knows about one timer
{
	bool created, armed, in_cb, cb_restarted, aligned; uint64_t armed_at, limit; unsigned interval; unsigned runs, gen;
	uint64_t grace_until; unsigned grace; // stopped or restarted by another thread while an expiry was due: one run may still begin
	boost::mutex op; // operations on one timer are not thread safe, the application serialises them
	unsigned version;
	tm_model() : created(false), armed(false), in_cb(false), cb_restarted(false), aligned(false), armed_at(0), limit(0), interval(0), runs(0), gen(0), grace_until(0), grace(0), version(0) {}
};
static bool exact; // one service thread, every operation in its execution context
static bool quiet_phase;
static unsigned cb_delay_us, cb_delay_ppm, decline_ppm, restart_ppm, stop_ppm, cross_ppm, changes;
static unsigned maxt;
static unsigned W(unsigned n) {return sim_chooseT(SS_WORK, n);}
static bool Wp(unsigned ppm) {return ppm && sim_chanceT(SS_WORK, ppm);}
static const unsigned ivs[] = {50, 1, 0, 7, 13, 200, 1000, 50, 20};

struct nopre {nopre() {sim_nopreempt(1);} ~nopre() {sim_nopreempt(-1);}};

template<typename Exec> class tobj : public st_asio_wrapper::timer<Exec>
{
public:
	typedef st_asio_wrapper::timer<Exec> base;
	typedef typename base::tid tid;
	tobj(boost::asio::io_context& c, int no_) : base(c), no(no_) {}
	~tobj() {}
	int no; tm_model m[MAXT];
	static tid id_of(unsigned k) {return (tid) (base::TIMER_END + 3 + 7 * k);}
	unsigned idx(tid id) {for (unsigned k = 0; k < MAXT; ++k) if (id_of(k) == id) return k; sim_fail("C10.wrong_id", "callback with unknown timer id %u", (unsigned) id);}

	bool cb(tid id, unsigned k, unsigned version)
	{
		uint64_t now = sim_now_ns(), st = sim_stall_ns();
		tm_model& t = m[k];
		{
			nopre n;
			if (id_of(k) != id) sim_fail("C10.wrong_id", "callback of timer %u called for id %u", k, (unsigned) id);
			if (t.in_cb) sim_fail("C10.concurrent", "timer %u of object %d: callback entered while it is running", k, no);
			bool excused = t.grace > 0 && t.armed_at + 1 > 0;
			uint64_t early = 0;
#ifdef ST_ASIO_ALIGNED_TIMER // a continued timer is aligned with the begin of its callback
			if (t.aligned) early = quiet_phase ? 3000000 : t.interval * 1000000ull;
#endif
			if (!t.armed || now + early < t.armed_at + t.interval * 1000000ull)
			{
				if (!exact && excused) {--t.grace; sim_probe("c10.graced");}
				else if (!t.armed) sim_fail("C10.ran_after_stop", "timer %u of object %d: callback runs although it was stopped or had declined", k, no);
				else sim_fail("C10.early", "timer %u of object %d: callback %llu us early (interval %u ms)", k, no, (unsigned long long) ((t.armed_at + t.interval * 1000000ull - now) / 1000), t.interval);
			}
			if (exact && version != t.version) sim_fail("C10.old_callback", "timer %u of object %d: a replaced callback function was called", k, no);
			if (exact && !base::is_timer(id)) sim_fail("C10.is_timer", "timer %u of object %d is not reported as started in its own callback", k, no);
			if (quiet_phase && t.armed && now > t.armed_at + t.interval * 1000000ull + t.limit + 100000000ull) sim_fail("C10.late", "timer %u of object %d: callback %llu ms late", k, no, (unsigned long long) ((now - t.armed_at) / 1000000 - t.interval));
			t.in_cb = true; ++t.runs; t.cb_restarted = false;
			(void) st;
		}
		sim_probe("c10.callback");
		if (Wp(cb_delay_ppm)) sleep_us(1 + W(cb_delay_us));
		if (exact) ops(k);
		bool re = !Wp(decline_ppm);
		if (0 == t.interval && 0 == W(2)) re = false; // a timer without interval would keep its thread busy forever
		nopre n;
		t.in_cb = false;
		if (exact)
		{
			if (re && t.armed) {t.armed_at = sim_now_ns(); t.aligned = true; sim_probe("c10.continued");} else if (!t.cb_restarted) t.armed = false;
		}
		else
		{
			if (re) {if (t.armed) {t.armed_at = sim_now_ns(); t.aligned = true; sim_probe("c10.continued");}}
			else {boost::unique_lock<boost::mutex> l(t.op, boost::try_to_lock); t.armed = false;}
		}
		return re;
	}

	// operations; in exact mode they run in the only service thread
	void op(unsigned k, unsigned what)
	{
		tm_model& t = m[k];
		tid id = id_of(k);
		sim_state(k * 64 + what * 4 + t.armed * 2 + t.in_cb);
		switch (what)
		{
		case 0: case 1: // set: new interval and callback, start
			{
				unsigned iv = ivs[W(9)];
				boost::function<bool(tid)> f(boost::bind(&tobj::cb, this, boost::placeholders::_1, k, t.version + 1));
				begin_start(t, iv); ++t.version;
				if (!(what ? this->set_timer(id, iv, f) : this->create_or_update_timer(id, iv, f, true))) sim_fail("C10.set_failed", "set_timer failed");
				end_start(t);
			}
			break;
		case 2: // start again
			if (t.created) {begin_start(t, t.interval); if (!this->start_timer(id)) sim_fail("C10.set_failed", "start_timer failed"); end_start(t);}
			else if (this->start_timer(id)) sim_fail("C10.unknown_started", "starting a timer which does not exist succeeded");
			break;
		case 3: this->stop_timer(id); stopped(t); break;
		case 4: if (exact) {this->stop_all_timer(); for (unsigned i = 0; i < maxt; ++i) stopped(m[i]);} break;
		case 5: if (exact) {this->stop_all_timer(id); for (unsigned i = 0; i < maxt; ++i) if (i != k) stopped(m[i]);} break;
		case 6: if (exact && t.created && !t.armed) {unsigned iv = ivs[W(9)]; this->change_timer_interval(id, iv); t.interval = iv;} break;
		case 7: if (exact && t.created) {++t.version; boost::function<bool(tid)> f(boost::bind(&tobj::cb, this, boost::placeholders::_1, k, t.version)); this->change_timer_call_back(id, f);} break;
		case 8: // create without starting
			if (exact)
			{
				unsigned iv = t.armed ? t.interval : ivs[W(9)]; ++t.version;
				boost::function<bool(tid)> f(boost::bind(&tobj::cb, this, boost::placeholders::_1, k, t.version));
				this->create_or_update_timer(id, iv, f); t.created = true; t.interval = iv;
			}
			break;
		}
		if (exact) for (unsigned i = 0; i < maxt; ++i) if (this->is_timer(id_of(i)) != m[i].armed) sim_fail("C10.is_timer", "timer %u of object %d: is_timer() says %d after operation %u on timer %u", i, no, !m[i].armed, what, k);
	}
	void begin_start(tm_model& t, unsigned iv)
	{
		nopre n;
		if (t.armed && !exact) {t.grace = 1;} // an expiry of the previous start may be under way
		t.armed = true; t.created = true; t.interval = iv; t.armed_at = sim_now_ns(); t.aligned = false; if (t.in_cb) t.cb_restarted = true; ++t.gen;
	}
	void end_start(tm_model& t) {nopre n; t.limit = 0; if (quiet_phase) t.limit = sim_now_ns() - t.armed_at;}
	void stopped(tm_model& t) {nopre n; if (t.armed && !exact) t.grace = 1; t.armed = false; if (t.in_cb) t.cb_restarted = false;}
	void ops(unsigned self)
	{
		if (Wp(restart_ppm)) {sim_probe("c10.op_in_callback"); op(self, W(3));}
		if (Wp(stop_ppm)) {sim_probe("c10.stop_in_callback"); op(self, 3);}
		if (Wp(cross_ppm)) {sim_probe("c10.cross_op"); op(W(maxt), W(9));}
	}
	void posted_op(unsigned k, unsigned what) {nested n(this); op(k, what);}
	void posted_two(unsigned k, unsigned a, unsigned b, unsigned busy_us) {op(k, a); if (busy_us) sleep_us(busy_us); op(k, b);}
	struct nested {nested(tobj*) {}};
};

template<typename T> static void controller(std::vector<T*>* o, unsigned steps, unsigned gap_us)
{
	for (unsigned i = 0; i < steps; ++i)
	{
		T* t = (*o)[W((unsigned) o->size())];
		unsigned k = W(maxt), what = W(9);
		if (W(3) == 0) t->post(boost::bind(&T::posted_two, t, k, W(9), W(9), W(2) ? W(60000) : 0));
		else t->post(boost::bind(&T::posted_op, t, k, what));
		if (gap_us) sleep_us(1 + W(gap_us));
	}
}
// multi threaded: each controller owns the timers of one object, callbacks only continue or decline
template<typename T> static void owner(T* t, unsigned steps, unsigned gap_us)
{
	for (unsigned i = 0; i < steps; ++i)
	{
		unsigned k = W(maxt);
		tm_model& m = t->m[k];
		switch (W(3))
		{
		case 0: case 1:
			if (!m.armed && !m.in_cb && !m.grace) t->op(k, W(2)); // restarting a running callback could make it run concurrently
			break;
		default: t->op(k, 3); break;
		}
		sleep_us(1 + W(gap_us));
		// an expiry which was under way has run by now, or never will
		if (!m.armed && m.grace && 1 == W(4)) {sleep_ms(4000); nopre n; if (!m.armed) m.grace = 0;}
	}
}
template<typename T> static void stop_those(T* t) {for (unsigned k = 0; k < maxt; ++k) t->op(k, 3);}
template<typename T> static void quiet_set(T* t, unsigned k, unsigned iv)
{
	boost::function<bool(typename T::tid)> f(boost::bind(&T::cb, t, boost::placeholders::_1, k, t->m[k].version + 1));
	t->begin_start(t->m[k], iv); ++t->m[k].version; t->set_timer(T::id_of(k), iv, f); t->end_start(t->m[k]);
}

static void jumper(volatile bool* stop)
{
	while (!*stop) {sleep_ms(1 + W(400)); int64_t d = (int64_t) W(20000) - 10000; if (W(4) == 0) d *= 1000; sim_clock_jump_ms(d); sim_probe("fault.clock_jump");}
}

template<typename T> static void run()
{
	m_enable("C10");
	service_pump sp;
	exact = K(3) != 2; maxt = 1 + K(MAXT); quiet_phase = false;
	static const unsigned ppm[] = {0, 100000, 400000};
	cb_delay_us = K(2) ? 60000 : 800; cb_delay_ppm = ppm[K(3)]; decline_ppm = ppm[K(3)];
	restart_ppm = ppm[K(3)]; stop_ppm = ppm[K(3)] / 2; cross_ppm = ppm[K(3)];
	std::vector<T*> o; unsigned no = 1 + K(2);
	for (unsigned i = 0; i < no; ++i) o.push_back(new T(sp.assign_io_context(), i));
	unsigned threads = exact ? 1 : 2 + K(3);
	sp.start_service(threads);
	volatile bool stop = false;
	boost::thread_group tg, jg;
#ifdef ST_ASIO_USE_STEADY_TIMER
	if (K(2)) jg.create_thread(boost::bind(&jumper, &stop));
#endif
	unsigned steps = 3 + K(40), gap = K(2) ? 60000 : 4000;
	if (exact) for (unsigned i = 1 + K(2); i; --i) tg.create_thread(boost::bind(&controller<T>, &o, steps, gap));
	else for (unsigned i = 0; i < no; ++i) tg.create_thread(boost::bind(&owner<T>, o[i], steps < 15 ? steps : 15, gap));
	tg.join_all();
	sleep_ms(K(300));
	// faults and noise end: every armed timer runs on, in time
	sim_stop_schedule_noise(); cb_delay_ppm = restart_ppm = stop_ppm = cross_ppm = decline_ppm = 0;
	sleep_ms(500);
	for (unsigned i = 0; i < no; ++i) if (exact) o[i]->post(boost::bind(&stop_those<T>, o[i])); else stop_those(o[i]);
	sleep_ms(1500);
	quiet_phase = true;
	unsigned base[2][MAXT]; static const unsigned qi[] = {100, 10, 33, 250, 500, 1};
	unsigned ch = K(6);
	for (unsigned i = 0; i < no; ++i) for (unsigned k = 0; k < maxt; ++k)
	{
		{nopre n; o[i]->m[k].grace = 0; base[i][k] = o[i]->m[k].runs; if (o[i]->m[k].armed) sim_fail("harness", "still armed");}
		if (k != ch) {if (exact) o[i]->post(boost::bind(&quiet_set<T>, o[i], k, qi[k])); else quiet_set(o[i], k, qi[k]);}
	}
	sleep_ms(2000);
	for (unsigned i = 0; i < no; ++i) for (unsigned k = 0; k < maxt; ++k)
	{
		nopre n;
		unsigned r = o[i]->m[k].runs - base[i][k];
		if (k == ch) {if (r) sim_fail("C10.ran_after_stop", "timer %u of object %u ran %u times although it was stopped", k, i, r);}
		else if (r < 1900 / (qi[k] + 3) / 2 || r > 2100 / qi[k]) sim_fail("C10.rate", "timer %u of object %u with interval %u ms ran %u times within 2 s", k, i, qi[k], r);
	}
	if (exact) {decline_ppm = 1000000; sleep_ms(700); unsigned r0[2][MAXT]; for (unsigned i = 0; i < no; ++i) for (unsigned k = 0; k < maxt; ++k) r0[i][k] = o[i]->m[k].runs; sleep_ms(1200);
		for (unsigned i = 0; i < no; ++i) for (unsigned k = 0; k < maxt; ++k) if (o[i]->m[k].runs != r0[i][k]) sim_fail("C10.declined", "timer %u of object %u runs on although its callback declined", k, i);}
	else {for (unsigned i = 0; i < no; ++i) stop_those(o[i]);}
	stop = true; jg.join_all();
	sp.stop_service();
	for (unsigned i = 0; i < no; ++i) delete o[i];
}
const char* const sim_harness_scenarios = "c10e c10t";
void sim_harness_run()
{
	std::string s = sim_scenario();
	if (s == "c10e") run<tobj<executor> >();
	else run<tobj<tracked_executor> >();
}
