// In-process kernel: sockets (TCP, UDP, unix), epoll, eventfd, timerfd, poll. Compiled without instrumentation.
#include "sim_int.h"
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <netdb.h>
#include <deque>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

struct sim_net_cfg sim_net;

namespace simi {

static const int FD0 = 1000, NFD = 2000;
static const int KPOLL = 1; // address used as a wait object for poll()

enum Kind {K_EPOLL, K_EVENT, K_TIMER, K_STREAM, K_DGRAM};
enum SState {S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_DEAD};

struct Addr {int fam; uint32_t ip; uint16_t port; std::string path; bool v6; Addr() : fam(0), ip(0), port(0), v6(false) {}};
static bool same(const Addr& a, const Addr& b) {return (a.fam == AF_UNIX) == (b.fam == AF_UNIX) && (a.fam == AF_UNIX ? a.path == b.path : a.port == b.port);}

struct File;
struct Watch {int fd; File* f; struct epoll_event ev; bool queued; struct Epoll* ep;};
struct File
{
	Kind kind; int fd; bool nonblock; bool closed;
	std::vector<Watch*> watchers;
	File(Kind k) : kind(k), fd(-1), nonblock(false), closed(false) {}
	virtual ~File() {}
	virtual unsigned poll() = 0;
};
struct Epoll : File
{
	std::map<int, Watch*> w; std::deque<Watch*> ready;
	Epoll() : File(K_EPOLL) {}
	unsigned poll() {return 0;}
};
struct EventFd : File {uint64_t n; EventFd() : File(K_EVENT), n(0) {} unsigned poll() {return (n ? EPOLLIN : 0) | EPOLLOUT;}};
struct TimerFd : File {int clk; uint64_t at, interval, exp, gen; TimerFd() : File(K_TIMER), clk(1), at(0), interval(0), exp(0), gen(0) {} unsigned poll() {return exp ? EPOLLIN : 0;}};

struct Seg {int type; uint64_t at; std::string data;}; // type 0 data 1 fin 2 rst 3 syn(enqueue to listener) 4 acknowledgement of a fin
struct Stream;
struct Stream : File
{
	SState st; int fam; bool server_side; unsigned short sport; // sport: server port of the connection
	Addr local, remote; bool bound;
	Stream* peer; Stream* listener;
	std::deque<Stream*> acceptq; int backlog;
	std::deque<Seg> in; uint64_t in_last; bool in_armed; // inbound segments in flight
	std::string rq; size_t rpos;
	bool fin_rcvd, rst_rcvd, shut_rd, shut_wr, fin_sent, full_closed, linger0, nospace, done_flag;
	int so_error; size_t outstanding; uint64_t conn_gen; uint64_t conn_deadline;
	bool reset_by_us; std::deque<std::pair<uint64_t, uint64_t> > hist; /* arrivals of data: time, stalls so far */ uint64_t wblock_until; // send buffer counts as full until then (injected short write)
	Stream(int f) : File(K_STREAM), st(S_NEW), fam(f), server_side(false), sport(0), bound(false), peer(0), listener(0), backlog(0), in_last(0), in_armed(false), rpos(0),
		fin_rcvd(false), rst_rcvd(false), shut_rd(false), shut_wr(false), fin_sent(false), full_closed(false), linger0(false), nospace(false), done_flag(false), so_error(0), outstanding(0),
		conn_gen(0), conn_deadline(0), reset_by_us(false), wblock_until(0) {}
	size_t avail() const {return rq.size() - rpos;}
	size_t cap() const {return (size_t) sim_net.sndbuf + sim_net.rcvbuf;}
	bool writable() const {return outstanding < cap() && now_ns >= wblock_until;}
	unsigned poll()
	{
		unsigned m = 0;
		switch (st)
		{
		case S_NEW: return EPOLLOUT | EPOLLHUP;
		case S_LISTEN: return acceptq.empty() ? 0 : EPOLLIN;
		case S_CONNECTING: return so_error ? EPOLLERR | EPOLLIN | EPOLLOUT : 0;
		case S_DEAD: m = EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP; if (so_error) m |= EPOLLERR; return m;
		case S_CONNECTED:
			if (avail() || fin_rcvd || shut_rd) m |= EPOLLIN;
			if (fin_rcvd || shut_rd) m |= EPOLLRDHUP;
			if ((fin_rcvd || shut_rd) && shut_wr) m |= EPOLLHUP;
			if (writable() || shut_wr) m |= EPOLLOUT;
			if (so_error) m |= EPOLLERR;
			return m;
		}
		return m;
	}
};
struct Dgram {std::string data; Addr src;};
struct DSock : File
{
	int fam; Addr local, remote; bool bound, connected, shut_rd, shut_wr; std::deque<Dgram> rq; size_t rbytes; int so_error; DSock* full_on; bool wblock; // not writable: the receiver's queue is full (local sockets), the device queue is full (injected)
	DSock(int f) : File(K_DGRAM), full_on(0), wblock(false), fam(f), bound(false), connected(false), shut_rd(false), shut_wr(false), rbytes(0), so_error(0) {}
	unsigned poll() {unsigned m = full_on || wblock ? 0 : EPOLLOUT; if (!rq.empty() || shut_rd) m |= EPOLLIN; if (so_error) m |= EPOLLERR | EPOLLIN; if (shut_rd && shut_wr) m |= EPOLLHUP; return m;}
};

static File* fds[NFD];
static std::vector<Stream*>* streams;     // every stream endpoint ever created
static std::vector<DSock*>* dsocks;       // open datagram sockets
static unsigned short eph;
static bool part_all;
static std::map<unsigned short, int>* part_port; // 1: both directions, 2: toward the server, 4: toward the client
static std::map<unsigned short, unsigned>* conn_attempts;
static std::map<unsigned, uint64_t>* rbytes_; static std::map<unsigned, uint64_t>* sbytes_;
static sim_dgram_tap dtap;
static bool quiet_;

void net_init()
{
	streams = new std::vector<Stream*>(); dsocks = new std::vector<DSock*>();
	part_port = new std::map<unsigned short, int>(); conn_attempts = new std::map<unsigned short, unsigned>();
	rbytes_ = new std::map<unsigned, uint64_t>(); sbytes_ = new std::map<unsigned, uint64_t>();
	eph = 40000;
	memset(&sim_net, 0, sizeof sim_net);
	sim_net.seg_budget = 1000; sim_net.lat_min_us = 20; sim_net.lat_max_us = 20; sim_net.sndbuf = 65536; sim_net.rcvbuf = 65536; sim_net.connect_lat_max_us = 100;
	sim_net.dgram_lat_min_us = 20; sim_net.dgram_lat_max_us = 20; sim_net.dgram_rcvbuf = 212992;
}
static bool cut(unsigned short port, int dirs = 7) {if (part_all) return true; auto i = part_port->find(port); return i != part_port->end() && (i->second & dirs);}
static bool cut_in(Stream* s) {return cut(s->sport, s->server_side ? 3 : 5);}

static File* get(int fd) {return fd >= FD0 && fd < FD0 + NFD ? fds[fd - FD0] : 0;}
static int install(File* f)
{
	for (int i = 0; i < NFD; ++i) if (!fds[i]) {fds[i] = f; f->fd = FD0 + i; return f->fd;}
	errno = EMFILE; return -1;
}
static void notify(File* f)
{
	for (Watch* w : f->watchers)
		if (!w->queued && (f->poll() & (w->ev.events | EPOLLERR | EPOLLHUP))) {w->queued = true; w->ep->ready.push_back(w); wake_all(w->ep);}
		else if (w->queued) wake_all(w->ep);
	wake_all(f);
	wake_all(&KPOLL);
}
static int wait_file(File* f, uint64_t deadline, const char* what) {return block(f, deadline, what);}

static Addr parse(const struct sockaddr* sa, socklen_t len)
{
	Addr a; a.fam = sa->sa_family;
	if (sa->sa_family == AF_INET) {const sockaddr_in* i = (const sockaddr_in*) sa; a.ip = ntohl(i->sin_addr.s_addr); a.port = ntohs(i->sin_port);}
	else if (sa->sa_family == AF_INET6)
	{
		const sockaddr_in6* i = (const sockaddr_in6*) sa; a.port = ntohs(i->sin6_port); a.v6 = true;
		if (IN6_IS_ADDR_V4MAPPED(&i->sin6_addr)) a.ip = ntohl(((const uint32_t*) &i->sin6_addr)[3]);
		else if (IN6_IS_ADDR_LOOPBACK(&i->sin6_addr)) a.ip = 0x7f000001;
	}
	else if (sa->sa_family == AF_UNIX) {const sockaddr_un* u = (const sockaddr_un*) sa; size_t m = len > offsetof(sockaddr_un, sun_path) ? len - offsetof(sockaddr_un, sun_path) : 0; a.path.assign(u->sun_path, strnlen(u->sun_path, m));}
	return a;
}
static void store(const Addr& a, int fam, struct sockaddr* sa, socklen_t* len)
{
	if (!sa || !len) return;
	union {sockaddr_in i; sockaddr_in6 s; sockaddr_un u;} x; memset(&x, 0, sizeof x); socklen_t n;
	if (fam == AF_UNIX) {x.u.sun_family = AF_UNIX; memcpy(x.u.sun_path, a.path.c_str(), std::min(a.path.size(), sizeof x.u.sun_path - 1)); n = offsetof(sockaddr_un, sun_path) + (a.path.empty() ? 0 : a.path.size() + 1);}
	else if (fam == AF_INET6) {x.s.sin6_family = AF_INET6; x.s.sin6_port = htons(a.port); if (a.ip == 0x7f000001) x.s.sin6_addr.s6_addr[15] = 1; else if (a.ip) {x.s.sin6_addr.s6_addr[10] = x.s.sin6_addr.s6_addr[11] = 0xff; ((uint32_t*) &x.s.sin6_addr)[3] = htonl(a.ip);} n = sizeof x.s;}
	else {x.i.sin_family = AF_INET; x.i.sin_port = htons(a.port); x.i.sin_addr.s_addr = htonl(a.ip); n = sizeof x.i;}
	memcpy(sa, &x, std::min<size_t>(*len, n)); *len = n;
}

static uint64_t lat()
{
	unsigned lo = sim_net.lat_min_us, hi = sim_net.lat_max_us;
	return (uint64_t) (lo + (hi > lo ? choose(SS_LATENCY, hi - lo + 1) : 0)) * 1000;
}
static void arrive(void* p, uint64_t);
static void arm_in(Stream* s)
{
	if (s->in_armed || s->in.empty()) return;
	s->in_armed = true;
	add_event(s->in.front().at, arrive, s, 0);
}
static void push_seg(Stream* to, int type, std::string data)
{
	uint64_t at = now_ns + lat();
	if (at < to->in_last) at = to->in_last;
	to->in_last = at;
	Seg g; g.type = type; g.at = at; g.data.swap(data);
	to->in.push_back(std::move(g));
	arm_in(to);
}
static void got_rst(Stream* s)
{
	if (s->st == S_DEAD || s->rst_rcvd) return;
	s->rst_rcvd = true;
	if (s->full_closed) return;
	s->so_error = s->fin_rcvd && !s->avail() ? EPIPE : ECONNRESET;
	s->fin_rcvd = s->fin_rcvd; s->shut_rd = true; s->shut_wr = true; s->fin_sent = true;
	s->outstanding = 0;
	probe("net.rst_received");
	notify(s);
}
static void send_rst(Stream* from)
{
	if (from->peer && !from->reset_by_us) {from->reset_by_us = true; push_seg(from->peer, 2, std::string());}
}
static void arrive(void* p, uint64_t)
{
	Stream* s = (Stream*) p;
	s->in_armed = false;
	if (cut_in(s)) {probe("fault.partition_held_segment"); return;} // re-armed when the partition heals
	while (!s->in.empty() && s->in.front().at <= now_ns)
	{
		Seg g = Seg(); std::swap(g, s->in.front()); s->in.pop_front();
		hash_ev(0x2000 + g.type, g.data.size());
		switch (g.type)
		{
		case 3:
			if (!s->listener || s->listener->full_closed || s->listener->st != S_LISTEN) {s->full_closed = true; send_rst(s);}
			else {s->listener->acceptq.push_back(s); notify(s->listener);}
			break;
		case 0:
			if (s->rst_rcvd) break;
			if (s->full_closed) {probe("net.data_after_close"); send_rst(s); break;}
			s->rq.append(g.data);
			s->hist.push_back(std::make_pair(sim_now_ns(), sim_stall_ns())); if (s->hist.size() > 64) s->hist.pop_front();
			notify(s);
			break;
		case 1:
			if (s->rst_rcvd) break;
			s->fin_rcvd = true;
			if (!s->full_closed) notify(s);
			if (s->peer && s->fam != AF_UNIX) push_seg(s->peer, 4, std::string());
			break;
		case 4: // Linux wakes the pollers once more (FIN_WAIT1 -> FIN_WAIT2, CLOSING -> TIME_WAIT, LAST_ACK -> CLOSE)
			if (!s->full_closed && !s->rst_rcvd) notify(s);
			break;
		case 2:
			got_rst(s);
			break;
		}
	}
	arm_in(s);
}
static void stream_close(Stream* s) // the application closed the descriptor
{
	if (s->full_closed) return;
	s->full_closed = true;
	if (s->st == S_LISTEN)
	{
		for (Stream* q : s->acceptq) {q->full_closed = true; send_rst(q);}
		s->acceptq.clear();
		s->st = S_DEAD;
		return;
	}
	if (s->st == S_CONNECTING) {++s->conn_gen; s->st = S_DEAD; return;}
	if (s->st != S_CONNECTED) {s->st = S_DEAD; return;}
	if (s->rst_rcvd) return;
	if (s->avail() || s->linger0) {probe("net.close_with_unread_data"); send_rst(s);}
	else if (!s->fin_sent) {s->fin_sent = true; push_seg(s->peer, 1, std::string());}
}
static void heal_arm() {for (Stream* s : *streams) if (!s->in.empty() && !s->in_armed && !cut_in(s)) {s->in_armed = true; add_event(std::max<uint64_t>(now_ns + 1000, s->in.front().at), arrive, s, 0);}}

// ---- connect
static Stream* find_listener(const Addr& a)
{
	for (Stream* s : *streams) if (s->st == S_LISTEN && !s->full_closed && same(s->local, a)) return s;
	return 0;
}
static void fail_connect(Stream* s, int err) {s->so_error = err; notify(s);}
static void do_connect(void* p, uint64_t gen)
{
	Stream* s = (Stream*) p;
	if (s->st != S_CONNECTING || s->conn_gen != gen || s->so_error) return;
	hash_ev(0x2100, s->fd);
	if (cut(s->remote.port))
	{
		if (now_ns >= s->conn_deadline) {probe("fault.connect_timeout"); fail_connect(s, ETIMEDOUT);}
		else add_event(std::min<uint64_t>(s->conn_deadline, now_ns + 700000000ull), do_connect, s, gen);
		return;
	}
	Stream* l = find_listener(s->remote);
	if (!l) {probe("net.connect_refused"); fail_connect(s, ECONNREFUSED); return;}
	if (sim_net.connect_refuse_ppm && chance(SS_CONNECT, sim_net.connect_refuse_ppm)) {probe("fault.connect_refused"); fail_connect(s, ECONNREFUSED); return;}
	if (sim_net.connect_timeout_ppm && chance(SS_CONNECT, sim_net.connect_timeout_ppm))
	{
		probe("fault.connect_stalled");
		s->conn_deadline = 0; // becomes ETIMEDOUT later
		struct L {static void f(void* p, uint64_t gen) {Stream* s = (Stream*) p; if (s->st == S_CONNECTING && s->conn_gen == gen && !s->so_error) fail_connect(s, ETIMEDOUT);}};
		add_event(now_ns + 2000000000ull + (uint64_t) choose(SS_CONNECT, 20000) * 1000000, L::f, s, gen);
		return;
	}
	size_t waiting = l->acceptq.size();
	if ((int) waiting > l->backlog) {probe("net.backlog_full"); add_event(now_ns + 1000000000ull, do_connect, s, gen); return;}
	Stream* v = new Stream(s->fam);
	v->st = S_CONNECTED; v->server_side = true; v->local = l->local; v->remote = s->local; v->listener = l; v->peer = s; v->sport = l->local.port; v->bound = true;
	if (v->local.fam != AF_UNIX && !v->local.ip) v->local.ip = s->remote.ip ? s->remote.ip : 0x7f000001;
	streams->push_back(v);
	s->peer = v; s->st = S_CONNECTED;
	v->in_last = now_ns;
	push_seg(v, 3, std::string());
	notify(s);
}
static void ensure_bound(Addr& a, bool& bound, int fam)
{
	if (bound) return;
	bound = true; a.fam = fam;
	if (fam != AF_UNIX) {a.ip = a.ip ? a.ip : 0x7f000001; a.port = ++eph;}
}

// ---- timerfd
static void tfd_fire(void* p, uint64_t gen)
{
	TimerFd* t = (TimerFd*) p;
	if (t->gen != gen || t->closed) return;
	++t->exp;
	if (t->interval) {t->at += t->interval; add_event(t->at, tfd_fire, t, gen);} else t->at = 0;
	notify(t);
}

static size_t iov_len(const struct iovec* v, size_t n) {size_t s = 0; for (size_t i = 0; i < n; ++i) s += v[i].iov_len; return s;}
static std::string gather(const struct iovec* v, size_t n, size_t max)
{
	std::string s;
	for (size_t i = 0; i < n && s.size() < max; ++i)
	{
		size_t k = std::min(v[i].iov_len, max - s.size());
		check_range(v[i].iov_base, k, false);
		s.append((const char*) v[i].iov_base, k);
	}
	return s;
}
static void scatter(const char* d, size_t n, const struct iovec* v, size_t nv)
{
	for (size_t i = 0; i < nv && n; ++i)
	{
		size_t k = std::min(v[i].iov_len, n);
		check_range(v[i].iov_base, k, true);
		memcpy(v[i].iov_base, d, k); d += k; n -= k;
	}
}

// injected cuts are limited per run so that one run cannot degenerate into endless one-byte transfers
static bool cut_ok() {if (!sim_net.seg_budget) return false; --sim_net.seg_budget; return true;}
static ssize_t stream_send(Stream* s, const struct iovec* v, size_t nv, int flags)
{
	for (;;)
	{
		if (s->st == S_NEW || s->st == S_CONNECTING || s->st == S_LISTEN || s->st == S_DEAD)
		{
			if (s->st == S_CONNECTING && !s->so_error) {errno = EAGAIN; return -1;}
			if (s->so_error) {errno = s->so_error; s->so_error = 0; return -1;}
			errno = s->st == S_NEW ? ENOTCONN : EPIPE; return -1;
		}
		if (s->so_error) {errno = s->so_error; s->so_error = 0; return -1;}
		if (s->shut_wr) {errno = EPIPE; return -1;}
		size_t want = iov_len(v, nv);
		if (!want) return 0;
		if (sim_net.reset_ppm && chance(SS_RESET, sim_net.reset_ppm))
		{
			probe("fault.reset");
			// both directions die: whatever is in flight to us is lost, the peer gets a reset after what we already sent
			got_rst(s); s->so_error = 0; send_rst(s);
			errno = ECONNRESET; return -1;
		}
		if (!s->writable())
		{
			s->nospace = true;
			if (s->nonblock || (flags & MSG_DONTWAIT)) {probe("net.send_would_block"); errno = EAGAIN; return -1;}
			wait_file(s, 0, "send"); continue;
		}
		size_t room = s->cap() - s->outstanding, n = std::min(want, room);
		if (n < want) s->nospace = true;
		size_t lim = n;
		if (sim_net.max_seg && n > sim_net.max_seg && cut_ok()) n = sim_net.max_seg;
		if (n > 1 && sim_net.short_write_ppm && cut_ok() && chance(SS_SHORT_WRITE, sim_net.short_write_ppm)) {n = 1 + choose(SS_SHORT_WRITE, (unsigned) n - 1); probe("fault.short_write");}
		if (n < lim && n < want) // the kernel reports writability again once there is room
		{
			s->wblock_until = now_ns + 3000 + 1000ull * choose(SS_LATENCY, 40);
			add_event(s->wblock_until, [](void* q, uint64_t) {Stream* s = (Stream*) q; if (!s->full_closed && now_ns >= s->wblock_until) notify(s);}, s, 0);
		}
		std::string d = gather(v, nv, n);
		s->outstanding += n;
		(*sbytes_)[s->sport * 2 + s->server_side] += n;
		hash_ev(0x2200, n);
		// may be split into several segments on the wire
		if (n > 1 && sim_net.short_read_ppm && cut_ok() && chance(SS_SHORT_READ, sim_net.short_read_ppm / 2))
		{
			size_t k = 1 + choose(SS_SHORT_READ, (unsigned) n - 1);
			push_seg(s->peer, 0, d.substr(0, k)); push_seg(s->peer, 0, d.substr(k));
		}
		else push_seg(s->peer, 0, d);
		return (ssize_t) n;
	}
}
static ssize_t stream_recv(Stream* s, const struct iovec* v, size_t nv, int flags)
{
	for (;;)
	{
		if (s->st == S_NEW || s->st == S_LISTEN || (s->st == S_CONNECTING && !s->so_error)) {errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; return -1;}
		if (s->avail())
		{
			size_t n = std::min(s->avail(), iov_len(v, nv));
			if (sim_net.max_seg && n > sim_net.max_seg && cut_ok()) n = sim_net.max_seg;
			if (n > 1 && sim_net.short_read_ppm && cut_ok() && chance(SS_SHORT_READ, sim_net.short_read_ppm)) {n = 1 + choose(SS_SHORT_READ, (unsigned) n - 1); probe("fault.short_read");}
			scatter(s->rq.data() + s->rpos, n, v, nv);
			hash_ev(0x2300, n);
			if (!(flags & MSG_PEEK))
			{
				s->rpos += n;
				if (s->rpos == s->rq.size()) {s->rq.clear(); s->rpos = 0;} else if (s->rpos > 65536) {s->rq.erase(0, s->rpos); s->rpos = 0;}
				(*rbytes_)[s->sport * 2 + s->server_side] += n;
				Stream* p = s->peer;
				p->outstanding -= std::min(p->outstanding, n);
				if (p->nospace && p->outstanding <= p->cap() * 2 / 3 && !p->full_closed) {p->nospace = false; notify(p);}
				// edge triggered readers that stop early are told again (data is still there): same as Linux only when new data arrives, so nothing here
			}
			return (ssize_t) n;
		}
		if (s->so_error) {errno = s->so_error; s->so_error = 0; return -1;}
		if (s->fin_rcvd || s->shut_rd || s->st == S_DEAD) return 0;
		if (!iov_len(v, nv)) return 0;
		if (s->nonblock || (flags & MSG_DONTWAIT)) {errno = EAGAIN; return -1;}
		wait_file(s, 0, "recv");
	}
}

static void tap(const std::string& d, unsigned sp, unsigned dp, int what)
{
	if (!dtap) return;
	int64_t sv[2]; callout_begin(sv); dtap(d.data(), d.size(), sp, dp, what); callout_end(sv);
}
struct DFly {Dgram d; Addr dst; DSock* from;};
static DSock* find_dsock(const Addr& dst, const Addr& src)
{
	for (DSock* s : *dsocks) if (!s->closed && s->bound && same(s->local, dst) && (!s->connected || same(s->remote, src))) return s;
	return 0;
}
static unsigned tap_id(const Addr& a) // local sockets are told apart by the number at the end of their path
{
	if (AF_UNIX != a.fam) return a.port;
	unsigned n = 0, m = 1; for (size_t i = a.path.size(); i-- > 0 && isdigit((unsigned char) a.path[i]) && m < 1000000; m *= 10) n += (a.path[i] - '0') * m;
	return n;
}
static void dgram_space(DSock* t) {for (DSock* s : *dsocks) if (s->full_on == t) {s->full_on = 0; notify(s);}}
static void dgram_arrive(void* p, uint64_t)
{
	DFly* f = (DFly*) p;
	DSock* to = find_dsock(f->dst, f->d.src);
	hash_ev(0x2400, f->d.data.size());
	if (cut(f->dst.port)) probe("fault.dgram_partitioned");
	else if (to && !to->shut_rd)
	{
		if (to->rbytes + f->d.data.size() + 64 > sim_net.dgram_rcvbuf) probe("net.dgram_rcvbuf_full");
		else
		{
			to->rbytes += f->d.data.size() + 64;
			tap(f->d.data, f->d.src.port, f->dst.port, 1);
			to->rq.push_back(f->d);
			notify(to);
		}
	}
	else if (f->from && !f->from->closed && f->from->connected) {f->from->so_error = ECONNREFUSED; probe("net.dgram_icmp_refused"); notify(f->from);}
	delete f;
}
static ssize_t dgram_send(DSock* s, const struct iovec* v, size_t nv, const struct sockaddr* sa, socklen_t sl)
{
	Addr dst;
	if (s->so_error) {errno = s->so_error; s->so_error = 0; return -1;}
	if (s->shut_wr) {errno = EPIPE; return -1;}
	if (sa && sl) dst = parse(sa, sl);
	else if (s->connected) dst = s->remote;
	else {errno = EDESTADDRREQ; return -1;}
	size_t n = iov_len(v, nv);
	if (n > 65507) {errno = EMSGSIZE; return -1;}
	if (sim_net.dgram_block_ppm && s->nonblock && chance(SS_DGRAM_ERR, sim_net.dgram_block_ppm))
	{
		struct U {static void f(void* p, uint64_t) {DSock* s = (DSock*) p; s->wblock = false; if (!s->closed) notify(s);}};
		probe("fault.dgram_send_blocked"); s->wblock = true; add_event(now_ns + 1000 * (1 + choose(SS_DGRAM_ERR, 20000)), U::f, s, 0); errno = EAGAIN; return -1;
	}
	if (sim_net.dgram_err_ppm && chance(SS_DGRAM_ERR, sim_net.dgram_err_ppm))
	{
		static const int e[] = {ENOBUFS, EPERM, ENETUNREACH, EHOSTUNREACH};
		errno = e[choose(SS_DGRAM_ERR, 4)]; probe("fault.dgram_send_error"); return -1;
	}
	ensure_bound(s->local, s->bound, s->fam);
	std::string d = gather(v, nv, n);
	hash_ev(0x2500, n);
	if (AF_UNIX == s->fam) // local: in order, without loss, the sender waits for a slow receiver
	{
		DSock* to = find_dsock(dst, s->local);
		if (!to) {probe("net.dgram_no_receiver"); errno = ECONNREFUSED; return -1;}
		if (to->shut_rd) {errno = EPIPE; return -1;}
		if (to->rbytes && to->rbytes + n + 64 > sim_net.dgram_rcvbuf) {probe("net.dgram_receiver_full"); s->full_on = to; errno = EAGAIN; return -1;}
		Dgram g; g.data = d; g.src = s->local;
		tap(d, tap_id(s->local), tap_id(dst), 0); tap(d, tap_id(s->local), tap_id(dst), 1);
		to->rbytes += n + 64; to->rq.push_back(g); notify(to);
		return (ssize_t) n;
	}
	tap(d, s->local.port, dst.port, 0);
	if (sim_net.dgram_loss_ppm && chance(SS_DGRAM_LOSS, sim_net.dgram_loss_ppm)) {probe("fault.dgram_lost"); return (ssize_t) n;}
	int copies = sim_net.dgram_dup_ppm && chance(SS_DGRAM_DUP, sim_net.dgram_dup_ppm) ? 2 : 1;
	if (copies == 2) probe("fault.dgram_duplicated");
	for (int i = 0; i < copies; ++i)
	{
		DFly* f = new DFly; f->d.data = d; f->d.src = s->local; f->dst = dst; f->from = s;
		if (f->d.src.fam != AF_UNIX && !f->d.src.ip) f->d.src.ip = 0x7f000001;
		unsigned lo = sim_net.dgram_lat_min_us, hi = sim_net.dgram_lat_max_us;
		add_event(now_ns + (uint64_t) (lo + (hi > lo ? choose(SS_DGRAM_LAT, hi - lo + 1) : 0)) * 1000, dgram_arrive, f, 0);
	}
	return (ssize_t) n;
}
static ssize_t dgram_recv(DSock* s, const struct iovec* v, size_t nv, int flags, struct sockaddr* sa, socklen_t* sl, int* mflags)
{
	for (;;)
	{
		if (s->so_error) {errno = s->so_error; s->so_error = 0; return -1;}
		if (!s->rq.empty())
		{
			Dgram g = s->rq.front();
			if (!(flags & MSG_PEEK)) {s->rq.pop_front(); s->rbytes -= g.data.size() + 64; tap(g.data, tap_id(g.src), tap_id(s->local), 2); if (AF_UNIX == s->fam) dgram_space(s);}
			size_t n = std::min(g.data.size(), iov_len(v, nv));
			scatter(g.data.data(), n, v, nv);
			if (n < g.data.size()) {probe("net.dgram_truncated"); if (mflags) *mflags |= MSG_TRUNC;}
			if (sa) store(g.src, s->fam, sa, sl);
			hash_ev(0x2600, n);
			return (ssize_t) n;
		}
		if (s->shut_rd) return 0;
		if (s->nonblock || (flags & MSG_DONTWAIT)) {errno = EAGAIN; return -1;}
		wait_file(s, 0, "recvfrom");
	}
}
static int do_close(int fd)
{
	File* f = get(fd);
	if (!f) {errno = EBADF; return -1;}
	hash_ev(0x2700, fd);
	f->closed = true;
	fds[fd - FD0] = 0;
	for (Watch* w : f->watchers) {w->ep->w.erase(w->fd); if (w->queued) {auto& r = w->ep->ready; r.erase(std::remove(r.begin(), r.end(), w), r.end());} delete w;}
	f->watchers.clear();
	if (f->kind == K_STREAM) stream_close((Stream*) f);
	else if (f->kind == K_DGRAM) {dsocks->erase(std::remove(dsocks->begin(), dsocks->end(), (DSock*) f), dsocks->end()); dgram_space((DSock*) f);}
	else if (f->kind == K_EPOLL) {for (auto& kv : ((Epoll*) f)->w) {auto& ws = kv.second->f->watchers; ws.erase(std::remove(ws.begin(), ws.end(), kv.second), ws.end()); delete kv.second;} ((Epoll*) f)->w.clear();}
	else if (f->kind == K_TIMER) ++((TimerFd*) f)->gen;
	wake_all(f); wake_all(&KPOLL);
	return 0; // File objects live until the end of the run
}
static ssize_t file_read(File* f, void* b, size_t n)
{
	if (f->kind == K_EVENT)
	{
		EventFd* e = (EventFd*) f;
		if (n < 8) {errno = EINVAL; return -1;}
		while (!e->n) {if (e->nonblock) {errno = EAGAIN; return -1;} wait_file(e, 0, "eventfd");}
		memcpy(b, &e->n, 8); e->n = 0; return 8;
	}
	if (f->kind == K_TIMER)
	{
		TimerFd* t = (TimerFd*) f;
		if (n < 8) {errno = EINVAL; return -1;}
		while (!t->exp) {if (t->nonblock) {errno = EAGAIN; return -1;} wait_file(t, 0, "timerfd");}
		memcpy(b, &t->exp, 8); t->exp = 0; return 8;
	}
	struct iovec v = {b, n};
	if (f->kind == K_STREAM) return stream_recv((Stream*) f, &v, 1, 0);
	if (f->kind == K_DGRAM) return dgram_recv((DSock*) f, &v, 1, 0, 0, 0, 0);
	errno = EINVAL; return -1;
}
static ssize_t file_write(File* f, const void* b, size_t n)
{
	if (f->kind == K_EVENT) {uint64_t x; if (n < 8) {errno = EINVAL; return -1;} memcpy(&x, b, 8); ((EventFd*) f)->n += x; notify(f); return 8;}
	struct iovec v = {(void*) b, n};
	if (f->kind == K_STREAM) return stream_send((Stream*) f, &v, 1, 0);
	if (f->kind == K_DGRAM) return dgram_send((DSock*) f, &v, 1, 0, 0);
	errno = EINVAL; return -1;
}
} // namespace
using namespace simi;

#define BADFD(f) if (!f) {errno = EBADF; return -1;}
#define SYS(what, a) InSim i_; sync_point(what, a)
static inline bool outside(int fd) {return !active || fd < FD0;}

EXPORT int socket(int fam, int type, int proto)
{
	(void) proto;
	if (!active) {errno = EAFNOSUPPORT; return -1;}
	SYS("socket", 0x101);
	if (sim_net.socket_err_ppm && chance(SS_SYSERR, sim_net.socket_err_ppm)) {probe("fault.socket_emfile"); errno = EMFILE; return -1;}
	int t = type & 0xff;
	File* f;
	if (t == SOCK_STREAM) {Stream* s = new Stream(fam); streams->push_back(s); f = s;}
	else if (t == SOCK_DGRAM) {DSock* d = new DSock(fam); dsocks->push_back(d); f = d;}
	else {errno = EPROTONOSUPPORT; return -1;}
	f->nonblock = (type & SOCK_NONBLOCK) != 0;
	int fd = install(f);
	tracef("socket -> %d", fd);
	return fd;
}
EXPORT int socketpair(int, int, int, int*) {errno = EOPNOTSUPP; return -1;}
EXPORT int bind(int fd, const struct sockaddr* sa, socklen_t len)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("bind", 0x102);
	File* f = get(fd); BADFD(f);
	Addr a = parse(sa, len);
	if (sim_net.bind_err_ppm && (sim_net.bind_err_ppm >= 1000000 || chance(SS_SYSERR, sim_net.bind_err_ppm))) {probe("fault.bind_error"); errno = EADDRINUSE; return -1;}
	if (a.fam != AF_UNIX && !a.port) a.port = ++eph;
	if (f->kind == K_STREAM) {Stream* s = (Stream*) f; if (s->bound) {errno = EINVAL; return -1;} if (find_listener(a)) {errno = EADDRINUSE; return -1;} s->local = a; s->bound = true;}
	else if (f->kind == K_DGRAM)
	{
		DSock* d = (DSock*) f;
		for (DSock* x : *dsocks) if (x != d && x->bound && same(x->local, a)) {errno = EADDRINUSE; return -1;}
		d->local = a; d->bound = true;
	}
	else {errno = EINVAL; return -1;}
	return 0;
}
EXPORT int listen(int fd, int backlog)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("listen", 0x103);
	File* f = get(fd); BADFD(f);
	if (f->kind != K_STREAM) {errno = EOPNOTSUPP; return -1;}
	Stream* s = (Stream*) f;
	if (sim_net.listen_err_ppm && (sim_net.listen_err_ppm >= 1000000 || chance(SS_SYSERR, sim_net.listen_err_ppm))) {probe("fault.listen_error"); errno = EADDRINUSE; return -1;}
	if (!s->bound) ensure_bound(s->local, s->bound, s->fam);
	if (s->st != S_LISTEN && find_listener(s->local)) {errno = EADDRINUSE; return -1;}
	if (s->st != S_NEW && s->st != S_LISTEN) {errno = EINVAL; return -1;}
	s->st = S_LISTEN; s->backlog = backlog < 1 ? 1 : backlog; s->sport = s->local.port;
	return 0;
}
EXPORT int accept(int fd, struct sockaddr* sa, socklen_t* len)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("accept", 0x104);
	File* f = get(fd); BADFD(f);
	Stream* s = (Stream*) f;
	if (f->kind != K_STREAM || s->st != S_LISTEN) {errno = EINVAL; return -1;}
	while (s->acceptq.empty())
	{
		if (s->nonblock) {errno = EAGAIN; return -1;}
		wait_file(s, 0, "accept");
		if (s->closed) {errno = EBADF; return -1;}
	}
	if (sim_net.accept_emfile_ppm && chance(SS_ACCEPT, sim_net.accept_emfile_ppm))
	{
		static const int e[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};
		errno = e[choose(SS_ACCEPT, 4)]; probe("fault.accept_resource_error");
		return -1;
	}
	Stream* c = s->acceptq.front(); s->acceptq.pop_front();
	if (sim_net.accept_err_ppm && chance(SS_ACCEPT, sim_net.accept_err_ppm))
	{
		static const int e[] = {ECONNABORTED, EPROTO};
		int er = e[choose(SS_ACCEPT, 2)]; probe("fault.accept_aborted");
		c->full_closed = true; send_rst(c); errno = er;
		if (!s->acceptq.empty()) notify(s);
		return -1;
	}
	int nfd = install(c);
	store(c->remote, s->fam, sa, len);
	tracef("accept on port %u -> fd %d (peer port %u)", s->local.port, nfd, c->remote.port);
	hash_ev(0x2800, nfd);
	return nfd;
}
EXPORT int accept4(int fd, struct sockaddr* sa, socklen_t* len, int fl) {int r = accept(fd, sa, len); if (r >= 0 && (fl & SOCK_NONBLOCK)) get(r)->nonblock = true; return r;}
EXPORT int connect(int fd, const struct sockaddr* sa, socklen_t len)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("connect", 0x105);
	File* f = get(fd); BADFD(f);
	Addr a = parse(sa, len);
	if (f->kind == K_DGRAM)
	{
		DSock* d = (DSock*) f;
		if (sa->sa_family == AF_UNSPEC) {d->connected = false; return 0;}
		ensure_bound(d->local, d->bound, d->fam); d->remote = a; d->connected = true; return 0;
	}
	Stream* s = (Stream*) f;
	if (s->st == S_CONNECTED) {errno = EISCONN; return -1;}
	if (s->st == S_CONNECTING)
	{
		if (s->so_error) {errno = s->so_error; s->so_error = 0; s->st = S_NEW; return -1;}
		errno = EALREADY; return -1;
	}
	if (s->st != S_NEW) {errno = EINVAL; return -1;}
	ensure_bound(s->local, s->bound, s->fam);
	s->remote = a; s->st = S_CONNECTING; s->sport = a.port; s->so_error = 0;
	++(*conn_attempts)[a.port];
	s->conn_deadline = now_ns + 21000000000ull;
	uint64_t gen = ++s->conn_gen;
	add_event(now_ns + lat() + (sim_net.connect_lat_max_us ? (uint64_t) choose(SS_CONNECT, sim_net.connect_lat_max_us) * 1000 : 0), do_connect, s, gen);
	tracef("connect fd %d to port %u", fd, a.port);
	if (s->nonblock) {errno = EINPROGRESS; return -1;}
	while (s->st == S_CONNECTING && !s->so_error) {wait_file(s, 0, "connect"); if (s->closed) {errno = EBADF; return -1;}}
	if (s->so_error) {errno = s->so_error; s->so_error = 0; s->st = S_NEW; return -1;}
	return s->st == S_CONNECTED ? 0 : (errno = ECONNABORTED, -1);
}
EXPORT int shutdown(int fd, int how)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("shutdown", 0x106);
	File* f = get(fd); BADFD(f);
	tracef("shutdown fd %d how %d", fd, how);
	hash_ev(0x2900, how);
	if (f->kind == K_DGRAM)
	{
		DSock* d = (DSock*) f;
		if (how != SHUT_WR) d->shut_rd = true;
		if (how != SHUT_RD) d->shut_wr = true;
		notify(d);
		if (!d->connected) {errno = ENOTCONN; return -1;}
		return 0;
	}
	if (f->kind != K_STREAM) {errno = ENOTSOCK; return -1;}
	Stream* s = (Stream*) f;
	if (s->st == S_LISTEN)
	{
		if (how != SHUT_WR) {for (Stream* q : s->acceptq) {q->full_closed = true; send_rst(q);} s->acceptq.clear(); s->st = S_NEW;}
		notify(s); return 0;
	}
	if (s->st == S_CONNECTING) {if (how != SHUT_WR) {++s->conn_gen; s->st = S_DEAD; s->so_error = ECONNRESET; notify(s);} return 0;}
	// Linux reports ENOTCONN for a closed (e.g. reset) connection, but records the shutdown and wakes the pollers all the same
	if (s->st != S_CONNECTED || s->rst_rcvd)
	{
		if (how != SHUT_WR) s->shut_rd = true;
		if (how != SHUT_RD) s->shut_wr = true;
		notify(s); errno = ENOTCONN; return -1;
	}
	if (how != SHUT_WR) s->shut_rd = true;
	if (how != SHUT_RD) {s->shut_wr = true; if (!s->fin_sent) {s->fin_sent = true; push_seg(s->peer, 1, std::string());}}
	notify(s);
	return 0;
}
EXPORT int close(int fd)
{
	if (fd < FD0) return (int) syscall(SYS_close, fd);
	if (!active) return 0;
	SYS("close", 0x107);
	tracef("close fd %d", fd);
	return do_close(fd);
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
	if (outside(fd)) return syscall(SYS_sendmsg, fd, m, flags);
	SYS("sendmsg", 0x108);
	File* f = get(fd); BADFD(f);
	ssize_t r;
	if (f->kind == K_STREAM) r = stream_send((Stream*) f, m->msg_iov, m->msg_iovlen, flags);
	else if (f->kind == K_DGRAM) r = dgram_send((DSock*) f, m->msg_iov, m->msg_iovlen, (const sockaddr*) m->msg_name, m->msg_namelen);
	else {errno = ENOTSOCK; return -1;}
	tracef("send fd %d -> %zd", fd, r);
	return r;
}
EXPORT ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* sa, socklen_t sl)
{
	struct iovec v = {(void*) b, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_name = (void*) sa; m.msg_namelen = sl;
	return sendmsg(fd, &m, flags);
}
EXPORT ssize_t send(int fd, const void* b, size_t n, int flags) {return sendto(fd, b, n, flags, 0, 0);}
EXPORT ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
	if (outside(fd)) return syscall(SYS_recvmsg, fd, m, flags);
	SYS("recvmsg", 0x109);
	File* f = get(fd); BADFD(f);
	ssize_t r; m->msg_flags = 0;
	if (f->kind == K_STREAM) r = stream_recv((Stream*) f, m->msg_iov, m->msg_iovlen, flags);
	else if (f->kind == K_DGRAM) {socklen_t l = m->msg_namelen; r = dgram_recv((DSock*) f, m->msg_iov, m->msg_iovlen, flags, (sockaddr*) m->msg_name, &l, &m->msg_flags); m->msg_namelen = l;}
	else {errno = ENOTSOCK; return -1;}
	tracef("recv fd %d -> %zd", fd, r);
	return r;
}
EXPORT ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* sa, socklen_t* sl)
{
	struct iovec v = {b, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_name = sa; m.msg_namelen = sl ? *sl : 0;
	ssize_t r = recvmsg(fd, &m, flags); if (sl) *sl = m.msg_namelen; return r;
}
EXPORT ssize_t recv(int fd, void* b, size_t n, int flags) {return recvfrom(fd, b, n, flags, 0, 0);}
EXPORT ssize_t read(int fd, void* b, size_t n)
{
	if (outside(fd)) return syscall(SYS_read, fd, b, n);
	SYS("read", 0x10a); File* f = get(fd); BADFD(f); return file_read(f, b, n);
}
EXPORT ssize_t write(int fd, const void* b, size_t n)
{
	if (outside(fd)) return syscall(SYS_write, fd, b, n);
	SYS("write", 0x10b); File* f = get(fd); BADFD(f); return file_write(f, b, n);
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int n)
{
	if (outside(fd)) return syscall(SYS_readv, fd, v, n);
	struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*) v; m.msg_iovlen = n; return recvmsg(fd, &m, 0);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (outside(fd)) return syscall(SYS_writev, fd, v, n);
	struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*) v; m.msg_iovlen = n; return sendmsg(fd, &m, 0);
}
EXPORT int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l)
{
	if (outside(fd)) return (int) syscall(SYS_getsockopt, fd, lvl, opt, v, l);
	SYS("getsockopt", 0x10c);
	File* f = get(fd); BADFD(f);
	int x = 0;
	if (lvl == SOL_SOCKET && opt == SO_ERROR)
	{
		if (f->kind == K_STREAM) {Stream* s = (Stream*) f; x = s->so_error; s->so_error = 0; if (x && s->st == S_CONNECTING) s->st = S_NEW;}
		else if (f->kind == K_DGRAM) {x = ((DSock*) f)->so_error; ((DSock*) f)->so_error = 0;}
	}
	else if (lvl == SOL_SOCKET && opt == SO_TYPE) x = f->kind == K_STREAM ? SOCK_STREAM : SOCK_DGRAM;
	else if (lvl == SOL_SOCKET && (opt == SO_SNDBUF || opt == SO_RCVBUF)) x = 65536;
	if (v && l && *l >= sizeof(int)) {*(int*) v = x; *l = sizeof(int);}
	return 0;
}
EXPORT int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l)
{
	if (outside(fd)) return (int) syscall(SYS_setsockopt, fd, lvl, opt, v, l);
	SYS("setsockopt", 0x10d);
	File* f = get(fd); BADFD(f);
	if (lvl == SOL_SOCKET && opt == SO_LINGER && f->kind == K_STREAM && l >= sizeof(struct linger)) {const struct linger* g = (const struct linger*) v; ((Stream*) f)->linger0 = g->l_onoff && !g->l_linger;}
	return 0;
}
EXPORT int getsockname(int fd, struct sockaddr* sa, socklen_t* l)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("getsockname", 0x10e); File* f = get(fd); BADFD(f);
	if (f->kind == K_STREAM) store(((Stream*) f)->local, ((Stream*) f)->fam, sa, l); else if (f->kind == K_DGRAM) store(((DSock*) f)->local, ((DSock*) f)->fam, sa, l);
	return 0;
}
EXPORT int getpeername(int fd, struct sockaddr* sa, socklen_t* l)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("getpeername", 0x10f); File* f = get(fd); BADFD(f);
	if (f->kind == K_STREAM)
	{
		Stream* s = (Stream*) f;
		if (s->st != S_CONNECTED || s->rst_rcvd) {errno = ENOTCONN; return -1;}
		store(s->remote, s->fam, sa, l);
	}
	else if (f->kind == K_DGRAM) {DSock* d = (DSock*) f; if (!d->connected) {errno = ENOTCONN; return -1;} store(d->remote, d->fam, sa, l);}
	return 0;
}
EXPORT int ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
	if (outside(fd)) return (int) syscall(SYS_ioctl, fd, req, a);
	SYS("ioctl", 0x110); File* f = get(fd); BADFD(f);
	if (req == FIONBIO) f->nonblock = *(int*) a != 0;
	else if (req == FIONREAD) *(int*) a = f->kind == K_STREAM ? (int) ((Stream*) f)->avail() : f->kind == K_DGRAM && !((DSock*) f)->rq.empty() ? (int) ((DSock*) f)->rq.front().data.size() : 0;
	return 0;
}
EXPORT int fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	if (outside(fd)) return (int) syscall(SYS_fcntl, fd, cmd, a);
	InSim i; File* f = get(fd); BADFD(f);
	if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) f->nonblock = (a & O_NONBLOCK) != 0;
	return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) {va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a);}

EXPORT int epoll_create1(int) {InSim i; if (!active) {errno = ENOSYS; return -1;} return install(new Epoll());}
EXPORT int epoll_create(int) {return epoll_create1(0);}
EXPORT int epoll_ctl(int efd, int op, int fd, struct epoll_event* ev)
{
	if (outside(efd)) {errno = EBADF; return -1;}
	SYS("epoll_ctl", 0x111);
	File* ef = get(efd); File* f = get(fd); BADFD(ef); BADFD(f);
	Epoll* e = (Epoll*) ef;
	auto it = e->w.find(fd);
	if (op == EPOLL_CTL_DEL)
	{
		if (it == e->w.end()) {errno = ENOENT; return -1;}
		Watch* w = it->second; e->w.erase(it);
		if (w->queued) e->ready.erase(std::remove(e->ready.begin(), e->ready.end(), w), e->ready.end());
		f->watchers.erase(std::remove(f->watchers.begin(), f->watchers.end(), w), f->watchers.end());
		delete w; return 0;
	}
	Watch* w;
	if (op == EPOLL_CTL_ADD)
	{
		if (it != e->w.end()) {errno = EEXIST; return -1;}
		w = new Watch(); w->fd = fd; w->f = f; w->queued = false; w->ep = e;
		e->w[fd] = w; f->watchers.push_back(w);
	}
	else {if (it == e->w.end()) {errno = ENOENT; return -1;} w = it->second;}
	w->ev = *ev;
	if (!w->queued && (f->poll() & (w->ev.events | EPOLLERR | EPOLLHUP))) {w->queued = true; e->ready.push_back(w); wake_all(e);}
	return 0;
}
EXPORT int epoll_wait(int efd, struct epoll_event* out, int max, int timeout)
{
	if (outside(efd)) {errno = EBADF; return -1;}
	SYS("epoll_wait", 0x112);
	File* ef = get(efd); BADFD(ef);
	Epoll* e = (Epoll*) ef;
	uint64_t dl = timeout > 0 ? now_ns + (uint64_t) timeout * 1000000 : 0;
	for (;;)
	{
		int n = 0;
		std::vector<Watch*> again;
		while (!e->ready.empty() && n < max)
		{
			Watch* w = e->ready.front(); e->ready.pop_front(); w->queued = false;
			unsigned m = w->f->poll() & (w->ev.events | EPOLLERR | EPOLLHUP);
			if (!m) continue;
			out[n] = w->ev; out[n].events = m; ++n;
			if (!(w->ev.events & EPOLLET)) again.push_back(w);
		}
		for (Watch* w : again) {w->queued = true; e->ready.push_back(w);}
		if (n || !timeout) {hash_ev(0x2a00, n); return n;}
		if (block(e, dl, "epoll_wait") == W_TIMEOUT && e->ready.empty()) return 0;
		if (e->closed) {errno = EBADF; return -1;}
	}
}
EXPORT int epoll_pwait(int efd, struct epoll_event* out, int max, int timeout, const sigset_t*) {return epoll_wait(efd, out, max, timeout);}
EXPORT int eventfd(unsigned n, int fl) {if (!active) {errno = ENOSYS; return -1;} InSim i; EventFd* e = new EventFd(); e->n = n; e->nonblock = fl & EFD_NONBLOCK; return install(e);}
EXPORT int timerfd_create(int clk, int fl) {if (!active) {errno = ENOSYS; return -1;} InSim i; TimerFd* t = new TimerFd(); t->clk = clk; t->nonblock = fl & TFD_NONBLOCK; return install(t);}
EXPORT int timerfd_settime(int fd, int fl, const struct itimerspec* nv, struct itimerspec* old)
{
	if (outside(fd)) {errno = EBADF; return -1;}
	SYS("timerfd_settime", 0x113);
	File* f = get(fd); BADFD(f);
	TimerFd* t = (TimerFd*) f;
	if (old) memset(old, 0, sizeof *old);
	++t->gen; t->exp = 0;
	uint64_t v = (uint64_t) nv->it_value.tv_sec * 1000000000ull + nv->it_value.tv_nsec;
	t->interval = (uint64_t) nv->it_interval.tv_sec * 1000000000ull + nv->it_interval.tv_nsec;
	t->at = 0;
	if (v) {t->at = fl & TFD_TIMER_ABSTIME ? v : now_ns + v; add_event(t->at, tfd_fire, t, t->gen);}
	return 0;
}
EXPORT int timerfd_gettime(int, struct itimerspec* v) {memset(v, 0, sizeof *v); return 0;}
EXPORT int poll(struct pollfd* p, nfds_t n, int timeout)
{
	if (!active || (n && p[0].fd < FD0)) return (int) syscall(SYS_poll, p, n, timeout);
	SYS("poll", 0x114);
	uint64_t dl = timeout > 0 ? now_ns + (uint64_t) timeout * 1000000 : 0;
	for (;;)
	{
		int c = 0;
		for (nfds_t k = 0; k < n; ++k)
		{
			p[k].revents = 0;
			File* f = get(p[k].fd);
			if (!f) {p[k].revents = POLLNVAL; ++c; continue;}
			unsigned m = f->poll();
			short r = 0;
			r = (m & EPOLLIN ? POLLIN : 0) | (m & EPOLLOUT ? POLLOUT : 0) | (m & EPOLLERR ? POLLERR : 0) | (m & EPOLLHUP ? POLLHUP : 0);
			r &= p[k].events | POLLERR | POLLHUP;
			p[k].revents = r; if (r) ++c;
		}
		if (c || !timeout) return c;
		if (block(&KPOLL, dl, "poll") == W_TIMEOUT) {timeout = 0;}
	}
}
EXPORT int unlink(const char* path)
{
	if (active && !strncmp(path, "/sim/", 5)) return 0;
	return (int) syscall(SYS_unlink, path);
}
EXPORT int getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res)
{
	InSim i;
	struct X {addrinfo ai; sockaddr_in sa;};
	X* x = (X*) calloc(1, sizeof(X));
	x->sa.sin_family = AF_INET; x->sa.sin_addr.s_addr = htonl(0x7f000001); x->sa.sin_port = htons(service ? (unsigned short) atoi(service) : 0);
	if (node) inet_pton(AF_INET, node, &x->sa.sin_addr);
	x->ai.ai_family = AF_INET; x->ai.ai_socktype = SOCK_STREAM; x->ai.ai_protocol = IPPROTO_TCP; x->ai.ai_addr = (sockaddr*) &x->sa; x->ai.ai_addrlen = sizeof x->sa;
	*res = &x->ai; return 0;
}
EXPORT void freeaddrinfo(struct addrinfo* a) {InSim i; free(a);}

// ---------------------------------------------------------------- harness side
EXPORT void sim_net_partition(int on) {InSim i; part_all = on; hash_ev(0x2b00, on); if (on) probe("fault.partition"); else heal_arm();}
EXPORT void sim_net_partition_port(unsigned short p, int on) {InSim i; (*part_port)[p] = on; hash_ev(0x2b01, on); if (on) probe("fault.partition"); else heal_arm();}
EXPORT void sim_net_reset_all(unsigned short port)
{
	InSim i;
	for (size_t k = 0; k < streams->size(); ++k)
	{
		Stream* s = (*streams)[k];
		if (s->st == S_CONNECTED && s->sport == port && s->server_side && !s->full_closed && s->peer && !s->rst_rcvd)
		{
			probe("fault.link_reset");
			s->in.clear(); s->peer->in.clear(); // in-flight data is lost in both directions
			got_rst(s); got_rst(s->peer);
		}
	}
}
EXPORT void sim_net_quiet(void)
{
	InSim i; quiet_ = true;
	sim_net.connect_refuse_ppm = sim_net.connect_timeout_ppm = sim_net.accept_err_ppm = sim_net.accept_emfile_ppm = sim_net.reset_ppm = 0;
	sim_net.dgram_loss_ppm = sim_net.dgram_dup_ppm = sim_net.dgram_err_ppm = sim_net.dgram_block_ppm = sim_net.bind_err_ppm = sim_net.listen_err_ppm = sim_net.socket_err_ppm = 0;
	part_all = false; part_port->clear(); heal_arm();
}
EXPORT uint64_t sim_net_last_arrival(int fd) {InSim i; File* f = get(fd); return f && K_STREAM == f->kind && !((Stream*) f)->hist.empty() ? ((Stream*) f)->hist.back().first : 0;}
EXPORT uint64_t sim_net_arrival_since(int fd, uint64_t from, uint64_t slack)
{
	InSim i; File* f = get(fd);
	if (f && K_STREAM == f->kind) for (auto& a : ((Stream*) f)->hist) if (a.first > from && sim_now_ns() > a.first + slack + (sim_stall_ns() - a.second)) return a.first;
	return 0;
}
EXPORT unsigned sim_net_connect_attempts(unsigned short p) {InSim i; return (*conn_attempts)[p];}
EXPORT unsigned sim_net_established(unsigned short p) {InSim i; unsigned n = 0; for (Stream* s : *streams) if (s->server_side && s->sport == p && s->st == S_CONNECTED && !s->full_closed && !s->rst_rcvd) ++n; return n;}
EXPORT unsigned sim_net_client_open(unsigned short p) {InSim i; unsigned n = 0; for (Stream* s : *streams) if (!s->server_side && s->sport == p && !s->closed && (s->st == S_CONNECTED || s->st == S_CONNECTING)) ++n; return n;}
EXPORT int sim_net_listening(unsigned short p) {InSim i; Addr a; a.fam = AF_INET; a.port = p; return find_listener(a) != 0;}
EXPORT unsigned sim_net_pending_accepts(unsigned short p) {InSim i; Addr a; a.fam = AF_INET; a.port = p; Stream* l = find_listener(a); return l ? (unsigned) l->acceptq.size() : 0;}
EXPORT uint64_t sim_net_stream_bytes_read(unsigned short p, int srv) {InSim i; return (*rbytes_)[p * 2u + (srv ? 1 : 0)];}
EXPORT uint64_t sim_net_stream_bytes_sent(unsigned short p, int srv) {InSim i; return (*sbytes_)[p * 2u + (srv ? 1 : 0)];}
EXPORT void sim_net_set_dgram_tap(sim_dgram_tap t) {dtap = t;}
EXPORT int sim_net_open_sockets(void) {InSim i; int n = 0; for (int k = 0; k < NFD; ++k) if (fds[k] && (fds[k]->kind == K_STREAM || fds[k]->kind == K_DGRAM)) ++n; return n;}
