// Scripted peers: plain POSIX sockets of the simulated network, and what the library made of their bytes.
#ifndef RAW_H_
#define RAW_H_
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>

class srv_sock; class cli_sock;
struct rawconn // a connection of the library whose peer is scripted, found by the peer-side or own port
{
	unsigned port; std::vector<std::string> msgs; std::vector<std::string> hist; // messages handed over
	unsigned connects, unpack_errors, closes; uint64_t stat_msgs, stat_bytes; srv_sock* srv; cli_sock* cli;
	rawconn() : srv(NULL), cli(NULL), port(0), connects(0), unpack_errors(0), closes(0), stat_msgs(0), stat_bytes(0) {}
};
static std::map<unsigned, rawconn*> g_raws;
static bool g_raw_cli = false;
static rawconn* raw_get(unsigned port, bool create)
{
	sim_nopreempt(1);
	std::map<unsigned, rawconn*>::iterator i = g_raws.find(port); rawconn* r = i == g_raws.end() ? NULL : i->second;
	if (NULL == r && create) {r = new rawconn; r->port = port; g_raws[port] = r;}
	sim_nopreempt(-1);
	return r;
}

class raw_peer // one end of a stream
{
public:
	int fd; unsigned short local;
	raw_peer() : fd(-1), local(0) {}
	explicit raw_peer(int f) : fd(f), local(0) {}
	~raw_peer() {close_();}
	bool connect_(unsigned short port, unsigned short from)
	{
		fd = ::socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return false;
		sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		local = from; a.sin_port = htons(from); if (from && 0 != ::bind(fd, (sockaddr*) &a, sizeof a)) return false;
		a.sin_port = htons(port);
		return 0 == ::connect(fd, (sockaddr*) &a, sizeof a);
	}
	bool send_all(const std::string& s, unsigned max_chunk, unsigned gap_us) // random chunks; false: the other side is gone
	{
		size_t at = 0;
		while (at < s.size())
		{
			size_t n = s.size() - at;
			if (max_chunk && n > max_chunk) n = max_chunk;
			if (max_chunk) n = 1 + sim_chooseT(SS_PEER, (unsigned) n);
			ssize_t w = ::send(fd, s.data() + at, n, MSG_NOSIGNAL);
			if (w <= 0) return false;
			at += w;
			if (gap_us && at < s.size() && 0 == sim_chooseT(SS_PEER, 3)) boost::this_thread::sleep_for(boost::chrono::microseconds(1 + sim_chooseT(SS_PEER, gap_us)));
		}
		return true;
	}
	// >0 bytes, 0: end of stream, -1: error, -2: timeout
	ssize_t recv_(char* b, size_t n, int timeout_ms)
	{
		pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0;
		if (timeout_ms >= 0 && 0 == ::poll(&p, 1, timeout_ms)) return -2;
		ssize_t r = ::recv(fd, b, n, 0);
		return r < 0 ? -1 : r;
	}
	int recv_exact(char* b, size_t n, int timeout_ms) // 1 ok
	{
		size_t at = 0;
		while (at < n) {ssize_t r = recv_(b + at, n - at, timeout_ms); if (r <= 0) return (int) r; at += r;}
		return 1;
	}
	// discard what arrives until the other side ends the connection; true: ended in time
	bool wait_end(unsigned ms)
	{
		char b[4096];
		uint64_t t0 = sim_now_ns(), s0 = sim_stall_ns();
		for (;;)
		{
			ssize_t r = recv_(b, sizeof b, 20);
			if (0 == r || -1 == r) return true;
			if (sim_now_ns() - t0 > ms * 1000000ull + (sim_stall_ns() - s0)) return false;
		}
	}
	void reset_() {if (fd >= 0) {struct linger l; l.l_onoff = 1; l.l_linger = 0; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);} close_();}
	void half_close() {::shutdown(fd, SHUT_WR);}
	void close_() {if (fd >= 0) ::close(fd); fd = -1;}
private:
	raw_peer(const raw_peer&); raw_peer& operator=(const raw_peer&);
};

class raw_listener
{
public:
	int fd;
	raw_listener() : fd(-1) {}
	~raw_listener() {close_();}
	bool listen_(unsigned short port)
	{
		fd = ::socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
		return 0 == ::bind(fd, (sockaddr*) &a, sizeof a) && 0 == ::listen(fd, 8);
	}
	int accept_(unsigned* peer_port, int timeout_ms)
	{
		pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0;
		if (timeout_ms >= 0 && 0 == ::poll(&p, 1, timeout_ms)) return -2;
		sockaddr_in a; socklen_t l = sizeof a; memset(&a, 0, sizeof a);
		int c = ::accept(fd, (sockaddr*) &a, &l);
		if (c >= 0 && peer_port) *peer_port = ntohs(a.sin_port);
		return c;
	}
	void close_() {if (fd >= 0) ::close(fd); fd = -1;}
};
#endif
