// C05: scripted peers send valid, malformed and truncated streams, cut at random; the result is compared with a reference framing
#ifndef S_FRAME_H_
#define S_FRAME_H_

struct ref_result {std::vector<std::string> msgs; bool error; ref_result() : error(false) {}};
static void ref_framing(int framing, const std::string& s, ref_result& r)
{
	const size_t BUF = ST_ASIO_MSG_BUFFER_SIZE;
	size_t at = 0;
	if (F_FIXED == framing) {for (; s.size() - at >= g_fixed_len; at += g_fixed_len) r.msgs.push_back(s.substr(at, g_fixed_len)); return;}
	if (F_PREFIX_SUFFIX == framing || F_PREFIX_ONLY_SUFFIX == framing || F_PS_UNSTRIPPED == framing)
	{
		std::string pre = F_PREFIX_ONLY_SUFFIX == framing ? "" : "<<[", suf = F_PREFIX_ONLY_SUFFIX == framing ? "\r\n" : "]>>>";
		while (at < s.size())
		{
			size_t left = s.size() - at;
			if (left >= pre.size() && 0 != s.compare(at, pre.size(), pre)) {r.error = true; return;}
			if (left < pre.size()) return;
			size_t e = s.find(suf, at + pre.size());
			if (std::string::npos == e) {r.error = left >= BUF; return;}
			size_t total = e + suf.size() - at;
			if (total > BUF) {r.error = true; return;}
			if (total > pre.size() + suf.size()) r.msgs.push_back(s.substr(at + pre.size(), e - at - pre.size()));
			at += total;
		}
		return;
	}
	while (s.size() - at >= ST_ASIO_HEAD_LEN)
	{
		size_t total = 0; for (size_t k = 0; k < ST_ASIO_HEAD_LEN; ++k) total = total << 8 | (unsigned char) s[at + k];
		if (total < ST_ASIO_HEAD_LEN || total > BUF) {r.error = true; return;}
		if (s.size() - at < total) return;
		if (total > ST_ASIO_HEAD_LEN) r.msgs.push_back(s.substr(at + ST_ASIO_HEAD_LEN, total - ST_ASIO_HEAD_LEN));
		at += total;
	}
}
static void put_head(std::string& s, size_t total) {for (int k = ST_ASIO_HEAD_LEN - 1; k >= 0; --k) s += (char) (total >> (8 * k) & 255);}
static unsigned P(unsigned n) {return sim_chooseT(SS_PEER, n);}
static std::string rand_body(size_t n, int framing)
{
	std::string s;
	bool ps = F_PREFIX_SUFFIX == framing || F_PS_UNSTRIPPED == framing || F_PREFIX_ONLY_SUFFIX == framing;
	unsigned style = P(4);
	static const char* bits[] = {"]", "]>", "]>>", "<<[", ">>>", "\r", "\n", "\r\r", "x"};
	while (s.size() < n)
		if (ps && style != 0 && P(2)) s += bits[P(9)]; else if (style == 1) s += '\0'; else if (style == 2) s += (char) (P(256)); else {s += (char) ('a' + s.size() % 23);}
	s.resize(n);
	if (ps) for (;;) // the body must not contain the suffix, not even together with the suffix itself
	{
		std::string suf = F_PREFIX_ONLY_SUFFIX == framing ? "\r\n" : "]>>>";
		size_t e = (s + suf).find(suf);
		if (e == s.size()) break;
		s[e] = 'y';
	}
	return s;
}
static std::string make_stream(int framing, unsigned frames)
{
	const size_t BUF = ST_ASIO_MSG_BUFFER_SIZE;
	std::string s;
	bool ps = F_PREFIX_SUFFIX == framing || F_PS_UNSTRIPPED == framing || F_PREFIX_ONLY_SUFFIX == framing, ls = !ps && F_FIXED != framing;
	std::string pre = F_PREFIX_ONLY_SUFFIX == framing ? "" : "<<[", suf = F_PREFIX_ONLY_SUFFIX == framing ? "\r\n" : "]>>>";
	size_t over = ps ? pre.size() + suf.size() : ST_ASIO_HEAD_LEN;
	for (unsigned i = 0; i < frames; ++i)
	{
		size_t n;
		switch (P(8)) {case 0: n = 0; break; case 1: n = 1 + P(3); break; case 2: n = BUF - over; break; case 3: n = BUF - over - 1 - P(4); break; case 4: n = 1 + P((unsigned) (BUF - over)); break; case 5: n = 3990 + P(20); if (n > BUF - over) n = 7; break; default: n = 1 + P(60); break;}
		if (F_FIXED == framing) {s += rand_body(g_fixed_len, framing); continue;}
		std::string b = rand_body(n, framing);
		if (ls) put_head(s, n + over), s += b; else s += pre + b + suf;
	}
	unsigned end = P(4);
	if (1 == end) // truncated
	{
		std::string f = rand_body(F_FIXED == framing ? g_fixed_len : 1 + P(200), framing);
		if (ls) {std::string h; put_head(h, f.size() + over); f = h + f;} else if (ps) f = pre + f + suf;
		s += f.substr(0, P((unsigned) f.size()));
	}
	else if (2 == end && F_FIXED != framing) // malformed, followed by bytes which look like frames
	{
		if (ls) {size_t bad[4] = {0, 1, BUF + 1, 65535}; size_t t = bad[P(4)]; if (sizeof(ST_ASIO_HEAD_TYPE) > 2 && 65535 == t && P(2)) t = 0xffffffffu; put_head(s, t);}
		else if (!pre.empty() && P(2)) s += P(2) ? "<<x" : "garbage";
		else s += pre + std::string(BUF + P(300), 'z');
		unsigned more = P(4);
		for (unsigned k = 0; k < more; ++k) {std::string b = "after the error"; if (ls) put_head(s, b.size() + over), s += b; else s += pre + b + suf;}
	}
	return s;
}
static std::string brief(const std::string& s) {char b[100]; std::string o; for (size_t i = 0; i < s.size() && i < 12; ++i) {snprintf(b, sizeof b, "%02x", (unsigned char) s[i]); o += b;} snprintf(b, sizeof b, "(%u bytes)", (unsigned) s.size()); return o + b;}
// a reconnecting client keeps what its previous link left: left holds the messages of its earlier streams that may still come
static bool c05_match(const std::vector<std::string>& have, size_t skip, const std::vector<std::string>& left, const ref_result& r, bool all)
{
	for (size_t i = 0; i < skip; ++i) if (have[i] != left[i]) return false;
	if (have.size() - skip > r.msgs.size() || (all && have.size() - skip < r.msgs.size())) return false;
	for (size_t i = skip; i < have.size(); ++i) if (have[i] != r.msgs[i - skip]) return false;
	return true;
}
static size_t c05_compare(rawconn* c, const ref_result& r, const char* side, bool all, const std::vector<std::string>& left)
{
	sim_nopreempt(1);
	size_t skip = 0;
	for (size_t k = 1; k <= left.size() && k <= c->msgs.size(); ++k) if (c05_match(c->msgs, k, left, r, all)) {if (!c05_match(c->msgs, 0, left, r, all)) skip = k; break;}
	for (size_t i = skip; i < c->msgs.size(); ++i)
	{
		if (i - skip >= r.msgs.size()) sim_fail("C05.invented", "%s connection %u handed over message %u %s, but the stream holds only %u valid messages before its end or first error", side, c->port, (unsigned) i, brief(c->msgs[i]).c_str(), (unsigned) r.msgs.size());
		if (c->msgs[i] != r.msgs[i - skip]) sim_fail("C05.wrong_message", "%s connection %u: message %u is %s, expected %s", side, c->port, (unsigned) i, brief(c->msgs[i]).c_str(), brief(r.msgs[i - skip]).c_str());
	}
	if (all && c->msgs.size() - skip < r.msgs.size()) sim_fail("C05.missing", "%s connection %u: %u of %u messages handed over 6 s after all bytes arrived", side, c->port, (unsigned) (c->msgs.size() - skip), (unsigned) r.msgs.size());
	if (c->closes && c->stat_msgs != r.msgs.size() && (all || r.error)) sim_fail("C05.unpacked", "%s connection %u: %u messages unpacked, the stream holds %u before its end or first error", side, c->port, (unsigned) c->stat_msgs, (unsigned) r.msgs.size());
	size_t re = c->msgs.size() - skip;
	sim_nopreempt(-1);
	return re;
}
struct c05_state {volatile unsigned errors_seen; uint64_t raw_moves() {return 0;}};
static uint64_t raw_total() {sim_nopreempt(1); uint64_t n = 0; for (std::map<unsigned, rawconn*>::iterator i = g_raws.begin(); i != g_raws.end(); ++i) n += i->second->msgs.size() + i->second->closes; sim_nopreempt(-1); return n;}
struct raw_up {rawconn* c; bool operator()() const {return c->connects > 0;}};
struct raw_has {rawconn* c; size_t n; bool closed; bool operator()() const {sim_nopreempt(1); bool re = c->msgs.size() >= n && (!closed || c->closes > 0); sim_nopreempt(-1); return re;}};

// one scripted conversation on an established connection
static void c05_script(raw_peer& p, rawconn* c, const std::string& stream, const char* side, std::vector<std::string>& left)
{
	ref_result r; ref_framing(g_framing, stream, r);
	raw_up up = {c}; // a link which breaks before it was accepted is never announced
	if (!wait_until(up, 10000)) sim_fail("C05.broken", "%s connection %u is not announced", side, c->port);
	unsigned chunk = P(4) == 0 ? 0 : P(3) == 0 ? 3 : 1 + P(1500), gap = P(3) ? 0 : stream.size() > 5000 ? 200 : 20000;
	bool ok = p.send_all(stream, chunk, gap);
	if (r.error)
	{
		sim_probe("c05.malformed");
		if (!p.wait_end(15000)) sim_fail("C05.error_not_reported", "%s connection %u: the stream %s is malformed after %u messages, but 15 s later the connection is still open (%u unpack errors reported, %u messages handed over)", side, c->port, brief(stream).c_str(), (unsigned) r.msgs.size(), c->unpack_errors, (unsigned) c->msgs.size());
		raw_has h = {c, 0, true}; wait_progress(h, raw_total, 8000);
		if (0 == c->unpack_errors) sim_fail("C05.error_not_reported", "%s connection %u ended without an unpack error report although the stream is malformed after %u messages", side, c->port, (unsigned) r.msgs.size());
		size_t n = c05_compare(c, r, side, false, left);
		if (n > 0) left.clear();
		left.insert(left.end(), r.msgs.begin() + n, r.msgs.end()); // if this is the client's
		p.close_();
		return;
	}
	if (!ok) sim_fail("C05.broken", "%s connection %u was closed by the library although its stream is well formed", side, c->port);
	raw_has h = {c, r.msgs.size() + left.size(), false};
	wait_progress(h, raw_total, 6000);
	c05_compare(c, r, side, true, left);
	if (c->unpack_errors || c->closes) sim_fail("C05.false_error", "%s connection %u: unpack error or close on a well-formed stream", side, c->port);
	sim_probe("c05.wellformed");
	if (P(3) == 0) p.reset_(); else if (P(2)) {p.half_close(); p.wait_end(10000);}
	p.close_();
	h.closed = true;
	wait_progress(h, raw_total, 8000);
	c05_compare(c, r, side, true, left);
	if (c->unpack_errors) sim_fail("C05.false_error", "%s connection %u: unpack error on a stream that just ends", side, c->port);
	left.clear();
}
struct c05_arg {unsigned conns, base_port; bool ok;};
static void c05_client_main(c05_arg* a)
{
	for (unsigned i = 0; i < a->conns; ++i)
	{
		unsigned from = a->base_port + i;
		rawconn* c = raw_get(from, true);
		raw_peer p;
		if (!p.connect_(PORT, (unsigned short) from)) sim_fail("C05.broken", "the server does not accept connection %u", i);
		std::vector<std::string> none;
		c05_script(p, c, make_stream(g_framing, P(10)), "server side", none);
	}
}
static void c05_server_main(c05_arg* a)
{
	raw_listener l;
	if (!l.listen_(5060)) sim_fail("harness", "raw listener");
	std::vector<std::string> left;
	for (unsigned i = 0; i < a->conns; ++i)
	{
		unsigned port = 0;
		int fd = l.accept_(&port, 20000);
		if (fd < 0) sim_fail("C05.broken", "the client did not reconnect within 20 s after its connection %u ended", i);
		raw_peer p(fd);
		c05_script(p, raw_get(port, true), make_stream(g_framing, P(10)), "client side", left);
	}
	a->ok = true;
}
static void c05_streams()
{
	m_enable("C05,C06");
	tame_behaviour();
	g_framing = (int) K(F_RAW_COUNT); if (F_FIXED == g_framing) g_fixed_len = 1 + K(K(2) ? 3000 : 60);
	g_size_max = 900;
	knob_net(false); knob_behaviour(false, true);
	if (B.handle_delay_max_us > 2000) B.handle_delay_max_us = 2000;
	B.user_timer_ppm = B.user_post_ppm = 0;
	B.reconnect_delay_ms = 30;
	world w; w.draw(1); w.nclients = 1;
	bool cli = K(2);
	bool plain = F_FIXED != g_framing && g_framing < F_COUNT; // an ordinary pair beside them
	w.make();
	w.start();
	if (!wait_until(boost::bind(&world::all_connected, &w), 8000)) sim_fail("C05.broken", "client not connected");
	sleep_ms(300); // the ordinary client's link must have been announced before scripted clients use its ports' neighbours
	boost::shared_ptr<cli_sock> rc;
	if (cli)
	{
		g_raw_cli = true;
		rc = w.pool->create_object(); rc->set_server_addr(5060, "127.0.0.1"); w.tune(*rc);
	}
	{
		boost::thread_group tg; senders ss;
		c05_arg a[3];
		unsigned n = 1 + K(2);
		for (unsigned i = 0; i < n; ++i) {a[i].conns = 1 + K(3); a[i].base_port = 30000 + 100 * i; a[i].ok = false; tg.create_thread(boost::bind(&c05_client_main, &a[i]));}
		a[2].conns = 1 + K(3); a[2].ok = false;
		if (cli) {tg.create_thread(boost::bind(&c05_server_main, &a[2])); w.pool->add_socket(rc);}
		if (plain) {ss.add(&w, 0, false, 6, 20000, true);}
		ss.join(); tg.join_all();
	}
	if (cli) {rc->shut2(false, false); rc.reset();}
	sim_net_quiet(); sim_stop_schedule_noise(); B.handle_delay_ppm = B.cb_delay_ppm = 0;
	if (!w.clients[0]->is_connected()) sim_fail("C05.others_disturbed", "the link of an ordinary client is gone");
	if (!wait_progress(all_chans_delivered, total_delivered, 6000)) sim_fail("C05.others_disturbed", "messages of the ordinary client are stuck");
	w.stop(); w.destroy();
}
#endif
