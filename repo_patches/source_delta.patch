From 1dde17e4786ad0c32c01e690ad25039a59da8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:52 +0000
Subject: [PATCH 01/39] fix: a timer restarted by another thread while its
 callback is returning could be canceled (receiving or dispatching stopped
 forever) or use a freed callback

---
 include/timer.h | 79 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..3f4784c 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -94,36 +94,45 @@ public:
 	//after this call, call_back cannot be used again, please note.
 	bool create_or_update_timer(tid id, unsigned interval, boost::function<bool(tid)>& call_back, bool start = false)
 	{
-		timer_info* ti = NULL;
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		if (iter == timer_can.end())
 		{
-			boost::lock_guard<boost::mutex> lock(timer_can_mutex);
-			BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
-			if (iter == timer_can.end())
-			{
-				try {timer_can.emplace_back(id, boost::ref(io_context_)); ti = &timer_can.back();}
-				catch (const std::exception& e) {unified_out::error_out("cannot create timer %d (%s)", id, e.what()); return false;}
-			}
-			else
-				ti = &*iter;
+			try {timer_can.emplace_back(id, boost::ref(io_context_)); iter = --timer_can.end();}
+			catch (const std::exception& e) {unified_out::error_out("cannot create timer %d (%s)", id, e.what()); return false;}
 		}
-		assert(NULL != ti);
 
-		ti->interval_ms = interval;
-		ti->call_back.swap(call_back);
+		iter->interval_ms = interval;
+		iter->call_back.swap(call_back);
 
 		if (start)
-			start_timer(*ti);
+			start_timer(*iter);
 
 		return true;
 	}
 	bool create_or_update_timer(tid id, unsigned interval, const boost::function<bool (tid)>& call_back, bool start = false)
 		{BOOST_AUTO(unused, call_back); return create_or_update_timer(id, interval, unused, start);}
 
-	bool change_timer_status(tid id, typename timer_info::timer_status status) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->status = status, true : false;}
-	bool change_timer_interval(tid id, unsigned interval) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->interval_ms = interval, true : false;}
+	bool change_timer_status(tid id, typename timer_info::timer_status status)
+	{
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		return iter != timer_can.end() ? iter->status = status, true : false;
+	}
+	bool change_timer_interval(tid id, unsigned interval)
+	{
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		return iter != timer_can.end() ? iter->interval_ms = interval, true : false;
+	}
 
 	//after this call, call_back cannot be used again, please note.
-	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->call_back.swap(call_back), true : false;}
+	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back)
+	{
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		return iter != timer_can.end() ? iter->call_back.swap(call_back), true : false;
+	}
 	bool change_timer_call_back(tid id, const boost::function<bool(tid)>& call_back) {BOOST_AUTO(unused, call_back); return change_timer_call_back(id, unused);}
 
 	//after this call, call_back cannot be used again, please note.
@@ -141,8 +150,19 @@ public:
 	}
 
 	bool is_timer(tid id) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? timer_info::TIMER_STARTED == ti->status : false;}
-	bool start_timer(tid id) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? start_timer(*ti) : false;}
-	void stop_timer(tid id) {BOOST_AUTO(ti, find_timer(id)); if (NULL != ti) stop_timer(*ti);}
+	bool start_timer(tid id)
+	{
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		return iter != timer_can.end() ? start_timer(*iter) : false;
+	}
+	void stop_timer(tid id)
+	{
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		BOOST_AUTO(iter, std::find(timer_can.begin(), timer_can.end(), id));
+		if (iter != timer_can.end())
+			stop_timer(*iter);
+	}
 	void stop_all_timer() {do_something_to_all(boost::bind((void (timer::*) (timer_info&)) &timer::stop_timer, this, boost::placeholders::_1));}
 	void stop_all_timer(tid excepted_id)
 	{
@@ -154,6 +174,7 @@ public:
 	DO_SOMETHING_TO_ONE_MUTEX(timer_can, timer_can_mutex, boost::lock_guard<boost::mutex>)
 
 protected:
+	//invoke following two functions with timer_can_mutex locked
 	bool start_timer(timer_info& ti, unsigned interval_ms)
 	{
 		if (!ti.call_back)
@@ -176,24 +197,38 @@ protected:
 	{
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
+		//call_back can start the same timer in other threads before it returns (receiving and msg dispatching do this), so we call a copy of it
+		// and guard the timer's status, otherwise the newly started timer can be canceled by us.
+		boost::function<bool (tid)> call_back;
+		{
+			boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+			if (timer_info::TIMER_STARTED == ti.status && !ec)
+				call_back = ti.call_back;
+		}
+
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+#endif
+		bool re = !call_back.empty() && call_back(ti.id);
+
+		boost::lock_guard<boost::mutex> lock(timer_can_mutex);
+		if (re && timer_info::TIMER_STARTED == ti.status)
 		{
+#ifdef ST_ASIO_ALIGNED_TIMER
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
 				elapsed_ms %= ti.interval_ms;
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
-		}
 #else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
 			start_timer(ti);
 #endif
+		}
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
 			ti.status = timer_info::TIMER_CANCELED;
 	}
 
+	//invoke this with timer_can_mutex locked
 	void stop_timer(timer_info& ti)
 	{
 		if (timer_info::TIMER_STARTED == ti.status) //enable stopping timers that has been stopped
-- 
2.43.0


From e8844e91e98a1d5568e16f02d809083f7eefff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 02/39] fix: a link accepted while the service is being stopped
 was never shut down, stop_service then never returned

---
 include/service_pump.h | 4 ++--
 include/tcp/server.h   | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 59b0ddf..7d55632 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -31,7 +31,7 @@ public:
 		//for the same i_service, start_service and stop_service are not thread safe,
 		//to resolve this defect, we must add a mutex member variable to i_service, it's not worth
 		void start_service() {if (!started_) started_ = init();}
-		void stop_service() {if (started_) uninit(); started_ = false;}
+		void stop_service() {if (started_) {started_ = false; uninit();}} //uninit can run concurrently with services' async operations, let them know we're stopping
 		bool service_started() const {return started_;}
 
 		void id(int id) {id_ = id;}
@@ -53,7 +53,7 @@ public:
 		service_pump& sp;
 
 	private:
-		bool started_;
+		volatile bool started_;
 		int id_;
 		void* data; //magic data, you can use it in any way
 	};
diff --git a/include/tcp/server.h b/include/tcp/server.h
index 141d288..896de49 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -231,7 +231,11 @@ protected:
 		{
 			socket_ptr->show_info("client:", "arrive.");
 			if (get_service_pump().is_service_started()) //service already started
+			{
 				socket_ptr->start();
+				if (!is_listening() && !started()) //stop_service may have missed this link because it was not started yet
+					socket_ptr->force_shutdown();
+			}
 
 			return true;
 		}
@@ -270,7 +274,7 @@ private:
 	typename Family::acceptor acceptor;
 	unsigned io_context_refs;
 	boost::mutex mutex;
-	bool listening;
+	volatile bool listening;
 };
 
 template<typename Socket, typename Pool = object_pool<Socket>, typename Server = i_server>
-- 
2.43.0


From e9f16e36f672b1de8b6db4c96b87c489f5736ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 03/39] fix: TCP receiving and sending callbacks ran out of the
 IO strand because boost::function erased the strand they were bound to

---
 include/tcp/socket.h              | 7 +++----
 include/tcp/websocket/websocket.h | 8 +++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..c0dd221 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,9 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//the type of the callback must be kept (not be erased by boost::function for example), otherwise the strand it bound to will be lost
+	template<typename ReadWriteCallBack> bool async_read(const ReadWriteCallBack& call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -50,7 +49,7 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
+	template<typename Buffer, typename ReadWriteCallBack>
 	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
 
 private:
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..cf97a74 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//the type of the callback must be kept (not be erased by boost::function for example), otherwise the strand it bound to will be lost
+	template<typename ReadWriteCallBack> void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, ReadWriteCallBack(call_back));}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename ReadWriteCallBack> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, ReadWriteCallBack(call_back));}
 
 protected:
 	//helper function, just call it in constructor
-- 
2.43.0


From 90a04883b04685ae59e4e0b962e7d7c6be989b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 04/39] fix: on_send_error could be called after on_close, and
 a dead sending could be started on a broken link

---
 include/tcp/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index c0dd221..0f870d6 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -382,7 +382,7 @@ private:
 
 	virtual bool do_send_msg(bool in_strand = false)
 	{
-		if (!in_strand && ST_THIS test_and_set_sending())
+		if (!in_strand && (!is_ready() || ST_THIS test_and_set_sending())) //the link may have broken since send_msg() checked it
 			return true;
 
 		BOOST_AUTO(end_time, statistic::now());
-- 
2.43.0


From da657cb2d2e625377bc8007d87685be759afc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 05/39] fix: a message refused by on_msg_handle was never
 offered again after the link broke and reconnected

---
 include/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 7cb1e52..8c6e1d2 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -326,6 +326,8 @@ protected:
 		start_heartbeat(ST_ASIO_HEARTBEAT_INTERVAL);
 #endif
 		send_msg(); //send buffer may have msgs, send them
+		if (dispatching) //a message was refused by on_msg_handle before the last link broke (its timer has been stopped by close()), or dispatching stops forever
+			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));
 #if !defined(ST_ASIO_PASSIVE_RECV) || !defined(ST_ASIO_SYNC_RECV)
 		recv_msg();
 #endif
-- 
2.43.0


From dc78ae9613271bea0ac5f6faa9bd31f543047d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/39] fix: start() could start a socket which is being closed
 by another thread

---
 include/socket.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 8c6e1d2..c6b97ae 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -149,14 +149,12 @@ public:
 	bool started() const {return started_;}
 	void start()
 	{
-		if (!started_ && !is_timer(TIMER_DELAY_CLOSE) && !stopped())
-		{
-			scope_atomic_lock lock(start_atomic);
-			if (!started_ && lock.locked())
-				started_ = do_start();
-			else
-				unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
-		}
+		//check the closing timer after locked, close() starts it with start_atomic locked
+		scope_atomic_lock lock(start_atomic);
+		if (!lock.locked())
+			unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
+		else if (!started_ && !is_timer(TIMER_DELAY_CLOSE) && !stopped())
+			started_ = do_start();
 		else
 			unified_out::error_out(ST_ASIO_LLF " starting failed because of already stared or closing timer exists or service_pump stopped.", id());
 	}
-- 
2.43.0


From 6f12d3c28cf0eba8feaa4b3fea64d9ef59675a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/39] fix: shutting down a client which is connecting crashed
 or left a connection nobody closes, since connecting was not in the IO strand

---
 include/tcp/client_socket.h | 20 +++++++++++++++-----
 include/tcp/socket.h        |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 643a33d..c71b39b 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -131,12 +131,15 @@ protected:
 	virtual void connect_handler(const boost::system::error_code& ec)
 	{
 		if (!ec) //already started, so cannot call start()
-			super::do_start();
+		{
+			if (!ST_THIS is_timer(super::TIMER_DELAY_CLOSE)) //or has been shut down while connecting
+				super::do_start();
+		}
 		else
 		{
 			BOOST_AUTO(connect_timer, TIMER_CONNECT);
 			ST_THIS set_timer(TIMER_CONNECT_DELAY, 50, boost::lambda::if_then_else_return(
-				boost::lambda::bind(&Socket::is_timer, this, connect_timer), true, (boost::lambda::bind(&generic_client_socket::prepare_next_reconnect, this, ec), false)
+				boost::lambda::bind(&Socket::is_timer, this, connect_timer), true, (boost::lambda::bind(&generic_client_socket::reconnect, this, ec), false)
 			));
 			//prepare_next_reconnect(ec);
 			//do not call prepare_next_reconnect directly at here, otherwise, there's a posibility that the next set_timer (reconnecting failed immediately)
@@ -182,12 +185,19 @@ private:
 	virtual void attach_io_context(boost::asio::io_context& io_context_, unsigned refs) {if (NULL != matrix) matrix->get_service_pump().assign_io_context(io_context_, refs);}
 	virtual void detach_io_context(boost::asio::io_context& io_context_, unsigned refs) {if (NULL != matrix) matrix->get_service_pump().return_io_context(io_context_, refs);}
 
-	bool connect(bool first)
+	//shutdown (close the socket) is performed in the IO strand, so connecting and reconnecting must be performed in it too, since the socket is not thread safe.
+	bool connect(bool first) {ST_THIS dispatch_in_io_strand(boost::bind(&generic_client_socket::do_connect, this, first)); return true;}
+	bool reconnect(const boost::system::error_code& ec) {ST_THIS dispatch_in_io_strand(boost::bind(&generic_client_socket::prepare_next_reconnect, this, ec)); return true;}
+
+	bool do_connect(bool first)
 	{
-		if (!first && !bind())
+		if (ST_THIS is_timer(super::TIMER_DELAY_CLOSE)) //has been shut down before connecting
+			return false;
+		else if (!first && !bind())
 			return false;
 
-		ST_THIS lowest_layer().async_connect(server_addr, ST_THIS make_handler_error(boost::bind(&generic_client_socket::connect_handler, this, boost::asio::placeholders::error)));
+		ST_THIS lowest_layer().async_connect(server_addr, make_strand_handler(ST_THIS rw_strand,
+			ST_THIS make_handler_error(boost::bind(&generic_client_socket::connect_handler, this, boost::asio::placeholders::error))));
 		return true;
 	}
 
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 0f870d6..3b6d3c4 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -481,13 +481,13 @@ private:
 
 protected:
 	volatile link_status status;
+	using super::rw_strand;
 
 private:
 	using super::stat;
 	using super::temp_msg_can;
 
 	using super::send_buffer;
-	using super::rw_strand;
 
 	//although boost::container::list::size() has constant complexity, but user can use std::list via macro or template parameter,
 	//before gcc 5.0, std::list::size() has linear complexity, very embarrassing!
-- 
2.43.0


From 0e1b2b044bd0b0ce266104190b2f7c55417c3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 08/39] fix: a client being told to stop could reconnect
 nevertheless because the library rewrote need_reconnect or missed its change

---
 include/tcp/client_socket.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index c71b39b..867d5a0 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -151,10 +151,10 @@ protected:
 	//after how much time (ms), generic_client_socket will try to reconnect the server, negative value means give up.
 	virtual int prepare_reconnect(const boost::system::error_code& ec) {return ST_ASIO_RECONNECT_INTERVAL;}
 	virtual void on_connect() {unified_out::info_out(ST_ASIO_LLF " connecting success.", ST_THIS id());}
-	virtual void on_unpack_error() {unified_out::info_out(ST_ASIO_LLF " can not unpack msg.", ST_THIS id()); ST_THIS unpacker()->dump_left_data(); force_shutdown(need_reconnect);}
-	virtual void on_recv_error(const boost::system::error_code& ec) {ST_THIS show_info(ec, "client link:", "broken/been shut down"); force_shutdown(need_reconnect);}
-	virtual void on_async_shutdown_error() {force_shutdown(need_reconnect);}
-	virtual bool on_heartbeat_error() {ST_THIS show_info("client link:", "broke unexpectedly."); force_shutdown(need_reconnect); return false;}
+	virtual void on_unpack_error() {unified_out::info_out(ST_ASIO_LLF " can not unpack msg.", ST_THIS id()); ST_THIS unpacker()->dump_left_data(); super::force_shutdown();}
+	virtual void on_recv_error(const boost::system::error_code& ec) {ST_THIS show_info(ec, "client link:", "broken/been shut down"); super::force_shutdown();}
+	virtual void on_async_shutdown_error() {super::force_shutdown();}
+	virtual bool on_heartbeat_error() {ST_THIS show_info("client link:", "broke unexpectedly."); super::force_shutdown(); return false;}
 
 	virtual void on_close()
 	{
@@ -172,7 +172,15 @@ protected:
 	//reconnect at here rather than in on_recv_error to make sure no async invocations performed on this socket before reconnecting.
 	//if you don't want to reconnect the server after link broken, rewrite this virtual function and do nothing in it or call set_reconnect(false).
 	//if you want to control the retry times and delay time after reconnecting failed, rewrite prepare_reconnect virtual function.
-	virtual void after_close() {if (need_reconnect) ST_THIS start();}
+	virtual void after_close()
+	{
+		if (need_reconnect)
+		{
+			ST_THIS start();
+			if (!need_reconnect) //someone disabled reconnecting at the same time, his shutdown was ignored if we have not started
+				super::force_shutdown();
+		}
+	}
 
 	virtual bool bind() {return true;}
 
-- 
2.43.0


From d0b19111a0d8c39922b258710337fdd445aec614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 09/39] fix: accepting continued (and failed infinitely) after
 stop_listen() if on_accept_error() returns true

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 896de49..7b0165d 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -203,7 +203,7 @@ protected:
 	virtual void uninit() {ST_THIS stop(); stop_listen(); force_shutdown();} //if you wanna graceful shutdown, call graceful_shutdown before service_pump::stop_service invocation.
 
 	virtual int async_accept_num() {return ST_ASIO_ASYNC_ACCEPT_NUM;}
-	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); do_async_accept(create_object());}
+	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); if (is_listening()) do_async_accept(create_object());}
 	virtual bool on_accept(typename Pool::object_ctype& socket_ptr) {return true;}
 
 	//if you want to ignore this error and continue to accept new connections immediately, return true in this virtual function;
-- 
2.43.0


From 4bbbf152058d96a3d6ea98636f8aed3bc9f2bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 10/39] fix: stop_service() could miss on_close() or never
 return if an io_context ran out of work at the same time

---
 include/service_pump.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/service_pump.h b/include/service_pump.h
index 7d55632..2e1c088 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -312,6 +312,19 @@ public:
 	{
 		if (is_service_started())
 		{
+			//io_contexts must not run out of work while we're stopping services, otherwise, the shutdown we're requesting will never be performed
+#if BOOST_ASIO_VERSION > 101100
+			typedef boost::asio::executor_work_guard<boost::asio::io_context::executor_type> work_guard;
+#else
+			typedef boost::asio::io_context::work work_guard;
+#endif
+			boost::container::list<boost::shared_ptr<work_guard> > guards;
+			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+#if BOOST_ASIO_VERSION > 101100
+				guards.push_back(boost::make_shared<work_guard>(iter->io_context.get_executor()));
+#else
+				guards.push_back(boost::make_shared<work_guard>(boost::ref(iter->io_context)));
+#endif
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
 			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 				iter->work.reset();
-- 
2.43.0


From d1f75bd203da777f0a98eaa28e68cb9e679c99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 11/39] fix: shutting down an accepted link which failed to
 start left a handler behind for a freed object

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 7b0165d..792f9f4 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -233,7 +233,7 @@ protected:
 			if (get_service_pump().is_service_started()) //service already started
 			{
 				socket_ptr->start();
-				if (!is_listening() && !started()) //stop_service may have missed this link because it was not started yet
+				if (socket_ptr->started() && !is_listening() && !started()) //stop_service may have missed this link because it was not started yet
 					socket_ptr->force_shutdown();
 			}
 
-- 
2.43.0


From e919f0b3e9738e6b40c0685f7072349da7efc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 12/39] fix: header and body of one message could be separated
 (by a broken link, a prior message or shrinking the send buffer), the peer
 then lost its framing

---
 include/base.h       | 47 +++++++++++++++++++++++---------------------
 include/container.h  |  3 ++-
 include/socket.h     |  9 +++++++--
 include/tcp/socket.h |  3 ++-
 4 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..f5338b0 100644
--- a/include/base.h
+++ b/include/base.h
@@ -543,25 +543,28 @@ enum sync_call_result {SUCCESS, NOT_APPLICABLE, DUPLICATE, TIMEOUT};
 #endif
 template<typename T> struct obj_with_begin_time : public T
 {
-	obj_with_begin_time() {}
-	obj_with_begin_time(const T& obj) : T(obj) {restart();}
-	obj_with_begin_time(T& obj) {T::swap(obj); restart();} //after this call, obj becomes empty, please note.
+	obj_with_begin_time() : has_more_parts(false) {}
+	obj_with_begin_time(const T& obj) : T(obj), has_more_parts(false) {restart();}
+	obj_with_begin_time(T& obj) : has_more_parts(false) {T::swap(obj); restart();} //after this call, obj becomes empty, please note.
 	obj_with_begin_time& operator=(const T& obj) {T::operator=(obj); restart(); return *this;}
 	obj_with_begin_time& operator=(T& obj) {T::clear(); T::swap(obj); restart(); return *this;} //after this call, obj becomes empty, please note.
-	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time) {}
-	obj_with_begin_time(obj_with_begin_time& other) {swap(other);} //after this call, other becomes empty, please note.
-	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; return *this;}
+	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time), has_more_parts(other.has_more_parts) {}
+	obj_with_begin_time(obj_with_begin_time& other) : has_more_parts(false) {swap(other);} //after this call, other becomes empty, please note.
+	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; has_more_parts = other.has_more_parts; return *this;}
 	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other);} //after this call, other becomes empty, please note.
 
 	void restart() {restart(statistic::now());}
 	void restart(const typename statistic::stat_time& begin_time_) {begin_time = begin_time_;}
 	void swap(T& obj) {T::swap(obj); restart();}
-	void swap(obj_with_begin_time& other) {T::swap(other); std::swap(begin_time, other.begin_time);}
+	void swap(obj_with_begin_time& other) {T::swap(other); std::swap(begin_time, other.begin_time); std::swap(has_more_parts, other.has_more_parts);}
 
-	void clear() {T::clear(); begin_time = typename statistic::stat_time();}
+	void clear() {T::clear(); begin_time = typename statistic::stat_time(); has_more_parts = false;}
 
 	typename statistic::stat_time begin_time;
+	bool has_more_parts; //the next item in the same container belongs to the same message (header and body for example), they must not be separated
 };
+inline bool has_more_parts(const void*) {return false;}
+template<typename T> bool has_more_parts(const obj_with_begin_time<T>* obj) {return obj->has_more_parts;}
 #ifdef _MSC_VER
 #pragma warning(pop)
 #endif
@@ -711,7 +714,7 @@ bool FUNNAME(in_msg_type& msg, bool can_overflow = false, bool prior = false) \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg, msg_can); \
 	dur.end(); \
-	return re && do_direct_send_msg(msg_can, prior); \
+	return re && do_direct_send_msg(msg_can, prior, true); \
 } \
 bool FUNNAME(in_msg_ctype& msg, bool can_overflow = false, bool prior = false) \
 { \
@@ -723,7 +726,7 @@ bool FUNNAME(in_msg_ctype& msg, bool can_overflow = false, bool prior = false) \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg, msg_can); \
 	dur.end(); \
-	return re && do_direct_send_msg(msg_can, prior); \
+	return re && do_direct_send_msg(msg_can, prior, true); \
 } \
 bool FUNNAME(in_msg_type& msg1, in_msg_type& msg2, bool can_overflow = false, bool prior = false) \
 { \
@@ -733,12 +736,12 @@ bool FUNNAME(in_msg_type& msg1, in_msg_type& msg2, bool can_overflow = false, bo
 	if (NATIVE) \
 	{ \
 		msg_can.emplace_back().swap(msg1); msg_can.emplace_back().swap(msg2); \
-		return do_direct_send_msg(msg_can, prior); \
+		return do_direct_send_msg(msg_can, prior, true); \
 	} \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg1, msg2, msg_can); \
 	dur.end(); \
-	return re && do_direct_send_msg(msg_can, prior); \
+	return re && do_direct_send_msg(msg_can, prior, true); \
 } \
 bool FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, bool can_overflow = false, bool prior = false) \
 { \
@@ -748,12 +751,12 @@ bool FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, bool can_overflow = false,
 	if (NATIVE) \
 	{ \
 		msg_can.emplace_back(msg1); msg_can.emplace_back(msg2); \
-		return do_direct_send_msg(msg_can, prior); \
+		return do_direct_send_msg(msg_can, prior, true); \
 	} \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg1, msg2, msg_can); \
 	dur.end(); \
-	return re && do_direct_send_msg(msg_can, prior); \
+	return re && do_direct_send_msg(msg_can, prior, true); \
 } \
 bool FUNNAME(typename Packer::container_type& msg_can, bool can_overflow = false, bool prior = false) \
 { \
@@ -765,7 +768,7 @@ bool FUNNAME(typename Packer::container_type& msg_can, bool can_overflow = false
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg_can, out); \
 	dur.end(); \
-	return re && do_direct_send_msg(out, prior); \
+	return re && do_direct_send_msg(out, prior, true); \
 } \
 bool FUNNAME(const char* const pstr[], const size_t len[], size_t num, bool can_overflow = false, bool prior = false) \
 { \
@@ -832,7 +835,7 @@ sync_call_result FUNNAME(in_msg_type& msg, unsigned duration = 0, bool can_overf
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg, msg_can); \
 	dur.end(); \
-	return re ? do_direct_sync_send_msg(msg_can, duration, prior) : NOT_APPLICABLE; \
+	return re ? do_direct_sync_send_msg(msg_can, duration, prior, true) : NOT_APPLICABLE; \
 } \
 sync_call_result FUNNAME(in_msg_ctype& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
 { \
@@ -844,7 +847,7 @@ sync_call_result FUNNAME(in_msg_ctype& msg, unsigned duration = 0, bool can_over
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg, msg_can); \
 	dur.end(); \
-	return re ? do_direct_sync_send_msg(msg_can, duration, prior) : NOT_APPLICABLE; \
+	return re ? do_direct_sync_send_msg(msg_can, duration, prior, true) : NOT_APPLICABLE; \
 } \
 sync_call_result FUNNAME(in_msg_type& msg1, in_msg_type& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
 { \
@@ -854,12 +857,12 @@ sync_call_result FUNNAME(in_msg_type& msg1, in_msg_type& msg2, unsigned duration
 	if (NATIVE) \
 	{ \
 		msg_can.emplace_back().swap(msg1); msg_can.emplace_back().swap(msg2); \
-		return do_direct_sync_send_msg(msg_can, duration, prior); \
+		return do_direct_sync_send_msg(msg_can, duration, prior, true); \
 	} \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg1, msg2, msg_can); \
 	dur.end(); \
-	return re ? do_direct_sync_send_msg(msg_can, duration, prior) : NOT_APPLICABLE; \
+	return re ? do_direct_sync_send_msg(msg_can, duration, prior, true) : NOT_APPLICABLE; \
 } \
 sync_call_result FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
 { \
@@ -869,12 +872,12 @@ sync_call_result FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, unsigned durati
 	if (NATIVE) \
 	{ \
 		msg_can.emplace_back(msg1); msg_can.emplace_back(msg2); \
-		return do_direct_sync_send_msg(msg_can, duration, prior); \
+		return do_direct_sync_send_msg(msg_can, duration, prior, true); \
 	} \
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg1, msg2, msg_can); \
 	dur.end(); \
-	return re ? do_direct_sync_send_msg(msg_can, duration, prior) : NOT_APPLICABLE; \
+	return re ? do_direct_sync_send_msg(msg_can, duration, prior, true) : NOT_APPLICABLE; \
 } \
 sync_call_result FUNNAME(typename Packer::container_type& msg_can, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
 { \
@@ -886,7 +889,7 @@ sync_call_result FUNNAME(typename Packer::container_type& msg_can, unsigned dura
 	auto_duration dur(stat.pack_time_sum); \
 	bool re = ST_THIS packer()->pack_msg(msg_can, out); \
 	dur.end(); \
-	return re ? do_direct_sync_send_msg(out, duration, prior) : NOT_APPLICABLE; \
+	return re ? do_direct_sync_send_msg(out, duration, prior, true) : NOT_APPLICABLE; \
 } \
 sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
 { \
diff --git a/include/container.h b/include/container.h
index 3a7e029..f39d420 100644
--- a/include/container.h
+++ b/include/container.h
@@ -221,8 +221,9 @@ public:
 			BOOST_AUTO(end_iter, ST_THIS begin());
 			while (end_iter != ST_THIS end())
 			{
+				bool more_parts = has_more_parts(&*end_iter);
 				size += end_iter++->size();
-				if (size >= max_size_in_byte)
+				if (size >= max_size_in_byte && !more_parts) //never separate the items which are packed from one message
 					break;
 			}
 
diff --git a/include/socket.h b/include/socket.h
index c6b97ae..eae05c6 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -561,7 +561,7 @@ protected:
 		return true;
 	}
 
-	bool do_direct_send_msg(list<InMsgType>& msg_can, bool prior = false)
+	bool do_direct_send_msg(list<InMsgType>& msg_can, bool prior = false, bool one_msg = false)
 	{
 		size_t size_in_byte = 0;
 		in_container_type temp_buffer;
@@ -569,7 +569,10 @@ protected:
 		{
 			size_in_byte += iter->size();
 			temp_buffer.emplace_back().swap(*iter); //with c++0x, this can be emplace_back(*iter)
+			temp_buffer.back().has_more_parts = one_msg;
 		}
+		if (!temp_buffer.empty())
+			temp_buffer.back().has_more_parts = false;
 		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
 		send_msg();
 
@@ -627,7 +630,7 @@ protected:
 #endif
 	}
 
-	sync_call_result do_direct_sync_send_msg(list<InMsgType>& msg_can, unsigned duration = 0, bool prior = false)
+	sync_call_result do_direct_sync_send_msg(list<InMsgType>& msg_can, unsigned duration = 0, bool prior = false, bool one_msg = false)
 	{
 		if (stopped())
 			return NOT_APPLICABLE;
@@ -640,8 +643,10 @@ protected:
 		{
 			size_in_byte += iter->size();
 			temp_buffer.emplace_back().swap(*iter); //with c++0x, this can be emplace_back(*iter)
+			temp_buffer.back().has_more_parts = one_msg;
 		}
 
+		temp_buffer.back().has_more_parts = false;
 		temp_buffer.back().check_and_create_promise(true);
 		BOOST_AUTO(p, temp_buffer.back().p);
 		typename in_msg::future f;
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 3b6d3c4..e53a39c 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -421,7 +421,8 @@ private:
 					iter->p->set_value(SUCCESS);
 #endif
 #ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
-			ST_THIS on_msg_send(sending_msgs.front());
+			for (BOOST_AUTO(iter, sending_msgs.begin()); iter != sending_msgs.end(); ++iter) //more than one only if the message was packed into several items
+				ST_THIS on_msg_send(*iter);
 #elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
 			on_msg_send(sending_msgs);
 #endif
-- 
2.43.0


From 42aaa7b4d7bb5a426fb83fbacc0411ee16d2c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 13/39] fix: bytes after an unpack error were still read and
 could be taken for messages

---
 include/tcp/socket.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index e53a39c..1086fe3 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -348,6 +348,7 @@ private:
 #ifdef ST_ASIO_PASSIVE_RECV
 		ST_THIS clear_reading(); //clear reading flag before calling handle_msg() to make sure that recv_msg() is available in on_msg() and on_msg_handle()
 #endif
+		bool recv_again = !ec;
 		if (bytes_transferred > 0)
 		{
 			stat.last_recv_time = time(NULL);
@@ -359,12 +360,16 @@ private:
 			if (!unpack_ok)
 			{
 				if (!ec)
+				{
 					on_unpack_error();
+					//the left bytes are not a valid message stream any more, don't read them if this link is going to be closed.
+					recv_again = !is_broken() && FORCE_SHUTTING_DOWN != status;
+				}
 
 				ST_THIS unpacker()->reset(); //user can get the left half-baked msg in unpacker's reset()
 			}
 
-			if (handle_msg() && !ec) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
+			if (handle_msg() && recv_again) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
 				do_recv_msg(); //receive msg in sequence
 		}
 		else if (!ec)
-- 
2.43.0


From 25c3edf2730d6aba29d803450a620e0c25618d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 14/39] fix: prefix_suffix_unpacker could not report invalid
 data following a message, the connection got stuck forever

---
 include/ext/unpacker.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index d8163cd..9b788b2 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -672,7 +672,8 @@ public:
 
 		const char* pnext = raw_buff.begin();
 		size_t min_len = _prefix.size() + _suffix.size();
-		while (0 == peek_msg(remain_len, pnext) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
+		size_t wanted;
+		while (0 == (wanted = peek_msg(remain_len, pnext)) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
 		{
 			assert(cur_msg_len >= min_len);
 			if (cur_msg_len > min_len) //exclude heartbeat
@@ -692,7 +693,9 @@ public:
 		else if (remain_len > 0)
 			memmove(raw_buff.begin(), pnext, remain_len); //left behind unparsed msg
 
-		return true;
+		//the left behind data can be invalid (wrong prefix for example), then another reading would finish immediately with nothing.
+		//if unpacking failed, successfully parsed msgs will still returned via msg_can(sticky package), please note.
+		return 0 != wanted;
 	}
 
 	//a return value of 0 indicates that the read operation is complete. a non-zero value indicates the maximum number
-- 
2.43.0


From 08bd6fe86e1ee16748218e12f4e29723d430f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:12 +0000
Subject: [PATCH 15/39] fix: a timer which was stopped or restarted while its
 expiration was queued ran too early after being started again

---
 include/timer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index 3f4784c..f511ef9 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -202,7 +202,8 @@ protected:
 		boost::function<bool (tid)> call_back;
 		{
 			boost::lock_guard<boost::mutex> lock(timer_can_mutex);
-			if (timer_info::TIMER_STARTED == ti.status && !ec)
+			//after stopping (in another call back for example) and starting again, expirations of the previous run must be ignored too, so check the seq.
+			if (timer_info::TIMER_STARTED == ti.status && prev_seq == ti.seq && !ec)
 				call_back = ti.call_back;
 		}
 
-- 
2.43.0


From cb7f05498794776a60722d7cdc567c31d1337310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 16/39] fix: division by zero in aligned timers without
 interval

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index f511ef9..0db56b6 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -218,7 +218,7 @@ protected:
 #ifdef ST_ASIO_ALIGNED_TIMER
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = ti.interval_ms > 0 ? elapsed_ms % ti.interval_ms : 0;
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 #else
-- 
2.43.0


From 9192a0e43aeafae2cbd79bf9a485d8a284266f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 17/39] fix: threads were counted when they begin to run, so
 del_service_thread requests could be discarded wrongly

---
 include/service_pump.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 2e1c088..735bb92 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -376,8 +376,15 @@ public:
 		{
 			BOOST_AUTO(ctx, assign_thread());
 			if (NULL == ctx)
+			{
 				unified_out::error_out("no available io_context!");
-			else if (block && i + 1 == thread_num)
+				continue;
+			}
+
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+			++real_thread_num; //count it before it runs, otherwise, a thread which runs earlier may think it's the last one and discard del_service_thread requests
+#endif
+			if (block && i + 1 == thread_num)
 				run(ctx); //block at here
 			else
 				ctx->threads.create_thread(boost::bind(&service_pump::run, this, ctx));
@@ -466,7 +473,6 @@ protected:
 		unified_out::info_out(os.str().data());
 
 #ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
-		++real_thread_num;
 		while (true)
 		{
 			if (del_thread_num > 0)
-- 
2.43.0


From 0b360caed85d339de796206035f19dfcbee77439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 18/39] fix: with ST_ASIO_DECREASE_THREAD_AT_RUNTIME, an
 exception thrown by a handler ended the service thread (uncounted if
 on_exception said so)

---
 include/service_pump.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 735bb92..6c61805 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -493,7 +493,10 @@ protected:
 #ifdef ST_ASIO_NO_TRY_CATCH
 			this_n = ctx->io_context.run_one();
 #else
-			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (!on_exception(e)) break;}
+			bool excepted = false;
+			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {excepted = on_exception(e);}
+			if (excepted) //this doesn't mean io_context has no more work
+				continue;
 #endif
 			if (this_n > 0)
 				n += this_n; //n can overflow, please note.
-- 
2.43.0


From 79d104eba1951181e9ed12ab4cd7941101470a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 19/39] fix: after a failed listen() the server claimed to be
 listening and start_listen could never succeed

---
 include/tcp/server.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 792f9f4..3631050 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -118,7 +118,14 @@ public:
 #else
 		acceptor.listen(boost::asio::socket_base::max_connections, ec); assert(!ec);
 #endif
-		if (ec) {unified_out::error_out("listen failed."); return false;}
+		if (ec)
+		{
+			unified_out::error_out("listen failed.");
+			listening = false;
+			acceptor.close(ec); //it has been bound, start_listen would fail forever without this
+
+			return false;
+		}
 
 		st_asio_wrapper::do_something_to_all(sockets, boost::bind(&generic_server::do_async_accept, this, boost::placeholders::_1));
 		return true;
-- 
2.43.0


From 4a36cb19203fe35a6617fefe2accc08fa901a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 20/39] fix: a client whose reconnecting was disabled between
 on_close and after_close never left its pool

---
 include/tcp/client_socket.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 867d5a0..5182b46 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -159,13 +159,7 @@ protected:
 	virtual void on_close()
 	{
 		if (!need_reconnect)
-		{
-			ST_THIS clear_io_context_refs();
-#ifndef ST_ASIO_CLEAR_OBJECT_INTERVAL
-			if (NULL != matrix)
-				matrix->del_socket(ST_THIS id());
-#endif
-		}
+			leave_matrix();
 
 		super::on_close();
 	}
@@ -180,6 +174,8 @@ protected:
 			if (!need_reconnect) //someone disabled reconnecting at the same time, his shutdown was ignored if we have not started
 				super::force_shutdown();
 		}
+		else
+			leave_matrix(); //reconnecting may have been disabled after on_close
 	}
 
 	virtual bool bind() {return true;}
@@ -193,6 +189,15 @@ private:
 	virtual void attach_io_context(boost::asio::io_context& io_context_, unsigned refs) {if (NULL != matrix) matrix->get_service_pump().assign_io_context(io_context_, refs);}
 	virtual void detach_io_context(boost::asio::io_context& io_context_, unsigned refs) {if (NULL != matrix) matrix->get_service_pump().return_io_context(io_context_, refs);}
 
+	void leave_matrix()
+	{
+		ST_THIS clear_io_context_refs();
+#ifndef ST_ASIO_CLEAR_OBJECT_INTERVAL
+		if (NULL != matrix)
+			matrix->del_socket(ST_THIS id());
+#endif
+	}
+
 	//shutdown (close the socket) is performed in the IO strand, so connecting and reconnecting must be performed in it too, since the socket is not thread safe.
 	bool connect(bool first) {ST_THIS dispatch_in_io_strand(boost::bind(&generic_client_socket::do_connect, this, first)); return true;}
 	bool reconnect(const boost::system::error_code& ec) {ST_THIS dispatch_in_io_strand(boost::bind(&generic_client_socket::prepare_next_reconnect, this, ec)); return true;}
-- 
2.43.0


From 9f4988804535e1d937250d2829720133d3ee5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:42 +0000
Subject: [PATCH 21/39] fix: durations in statistic were not initialized
 (ST_ASIO_FULL_STATISTIC)

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index f5338b0..d6a4282 100644
--- a/include/base.h
+++ b/include/base.h
@@ -340,7 +340,7 @@ struct statistic
 
 		duration() {reset();}
 		super get_avg() const {return 0 == num ? super(*this) : *this / num;}
-		void reset() {super::operator=(min_duration = max_duration = super()); num = 0;}
+		void reset() {super::operator=(min_duration = max_duration = super::zero()); num = 0;} //the default constructor of duration may leave it uninitialized
 
 		duration& operator+=(const super& other)
 		{
-- 
2.43.0


From dfdab848c83bae82616d590c15062cfa69e2fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:31 +0000
Subject: [PATCH 22/39] fix: sending and dispatching delays in statistic could
 be negative (concurrent sending or receiving)

---
 include/socket.h     | 5 +++--
 include/tcp/socket.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index eae05c6..4c37672 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -732,7 +732,8 @@ private:
 
 	//do not use dispatch_strand/dispatch_in_dis_strand at here, because the handler (do_dispatch_msg) may call this function, which can lead stack overflow.
 	void dispatch_msg() {if (!dispatching) post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));}
-	void accumulate_dispatch_delay(const statistic::stat_time& begin_time, const out_msg& msg) {stat.dispatch_delay_sum += begin_time - msg.begin_time;}
+	//get current time at here, or delays can be negative because of concurrent receiving
+	void accumulate_dispatch_delay(const out_msg& msg) {stat.dispatch_delay_sum += statistic::now() - msg.begin_time;}
 	void do_dispatch_msg()
 	{
 #ifdef ST_ASIO_DISPATCH_BATCH_MSG
@@ -741,7 +742,7 @@ private:
 			dispatching = true;
 			BOOST_AUTO(begin_time, statistic::now());
 #ifdef ST_ASIO_FULL_STATISTIC
-			recv_buffer.do_something_to_all(boost::bind(&socket::accumulate_dispatch_delay, this, boost::cref(begin_time), boost::placeholders::_1));
+			recv_buffer.do_something_to_all(boost::bind(&socket::accumulate_dispatch_delay, this, boost::placeholders::_1));
 #endif
 			size_t re = on_msg_handle(recv_buffer);
 			BOOST_AUTO(end_time, statistic::now());
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 1086fe3..f205096 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -390,8 +390,8 @@ private:
 		if (!in_strand && (!is_ready() || ST_THIS test_and_set_sending())) //the link may have broken since send_msg() checked it
 			return true;
 
-		BOOST_AUTO(end_time, statistic::now());
 		send_buffer.move_items_out(ST_THIS batch_msg_send_size(), sending_msgs);
+		BOOST_AUTO(end_time, statistic::now()); //after the moving, or delays can be negative because of concurrent sending
 		sending_buffer.clear(); //this buffer will not be refreshed according to sending_msgs timely
 		for (BOOST_AUTO(iter, sending_msgs.begin()); iter != sending_msgs.end(); ++iter)
 		{
-- 
2.43.0


From 34d692d687bf4355d74023339b4a01cc8f676830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 23/39] fix: each reconnecting read once more although the
 receiving buffer was full

---
 include/socket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 4c37672..001d71b 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -326,7 +326,10 @@ protected:
 		send_msg(); //send buffer may have msgs, send them
 		if (dispatching) //a message was refused by on_msg_handle before the last link broke (its timer has been stopped by close()), or dispatching stops forever
 			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));
-#if !defined(ST_ASIO_PASSIVE_RECV) || !defined(ST_ASIO_SYNC_RECV)
+#ifndef ST_ASIO_PASSIVE_RECV
+		if (handled_msg()) //the receiving buffer may be still full if we're reconnecting, then receiving will be resumed by the timer
+			recv_msg();
+#elif !defined(ST_ASIO_SYNC_RECV)
 		recv_msg();
 #endif
 
-- 
2.43.0


From 24f0961aa195332aa52aa0ba2fb982b31fa9c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 24/39] fix: an assignment operator of messages returned
 nothing

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index d6a4282..d12b2bf 100644
--- a/include/base.h
+++ b/include/base.h
@@ -551,7 +551,7 @@ template<typename T> struct obj_with_begin_time : public T
 	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time), has_more_parts(other.has_more_parts) {}
 	obj_with_begin_time(obj_with_begin_time& other) : has_more_parts(false) {swap(other);} //after this call, other becomes empty, please note.
 	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; has_more_parts = other.has_more_parts; return *this;}
-	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other);} //after this call, other becomes empty, please note.
+	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other); return *this;} //after this call, other becomes empty, please note.
 
 	void restart() {restart(statistic::now());}
 	void restart(const typename statistic::stat_time& begin_time_) {begin_time = begin_time_;}
-- 
2.43.0


From b652c6d39f1ef6fb305f2f296cd60be7c76cd0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 25/39] fix: sync_safe_send_(native_)msg sent the message again
 after a timeout

---
 include/base.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/base.h b/include/base.h
index d12b2bf..a119054 100644
--- a/include/base.h
+++ b/include/base.h
@@ -907,23 +907,23 @@ TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //if can_overflow equal to false and the buffer is not available, will wait until it becomes available
 #define TCP_SYNC_SAFE_SEND_MSG(FUNNAME, SEND_FUNNAME) \
 sync_call_result FUNNAME(in_msg_type& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_ctype& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_type& msg1, in_msg_type& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(typename Packer::container_type& msg_can, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg_can, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg_can, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(pstr, len, num, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //TCP sync msg sending interface
 ///////////////////////////////////////////////////
@@ -1005,8 +1005,8 @@ sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t nu
 	{return FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior);} \
 sync_call_result FUNNAME(const typename Family::endpoint& peer_addr, \
 	const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 UDP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //UDP sync msg sending interface
 ///////////////////////////////////////////////////
-- 
2.43.0


From 3b5810a4f92ef94425cc085c252a984b9fb20600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 26/39] fix: sync_recv_msg could miss the end of the link and
 then wait forever

---
 include/socket.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 001d71b..305b86d 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -285,6 +285,8 @@ public:
 		boost::unique_lock<boost::mutex> lock(sync_recv_mutex);
 		if (NOT_REQUESTED != sr_status)
 			return DUPLICATE;
+		else if (!started_)
+			return NOT_APPLICABLE;
 
 #ifdef ST_ASIO_PASSIVE_RECV
 		recv_msg();
@@ -441,6 +443,10 @@ protected:
 
 		started_ = false;
 #ifdef ST_ASIO_SYNC_RECV
+		sync_recv_mutex.lock(); //or sync_recv_msg() may miss the notification, or find this socket started again (reconnecting)
+		if (REQUESTED == sr_status)
+			sr_status = RESPONDED_FAILURE;
+		sync_recv_mutex.unlock();
 		sync_recv_cv.notify_all();
 #endif
 		stop_all_timer();
@@ -688,7 +694,7 @@ private:
 	sync_call_result sync_recv_waiting(boost::unique_lock<boost::mutex>& lock, unsigned duration)
 	{
 		//BOOST_AUTO cannot deduce the return type from lambda expressions in Clang
-		boost::function<bool ()> pred = boost::lambda::if_then_else_return(!boost::lambda::var(started_) || REQUESTED != boost::lambda::var(sr_status), true, false);
+		boost::function<bool ()> pred = boost::lambda::if_then_else_return(REQUESTED != boost::lambda::var(sr_status), true, false);
 		if (0 == duration)
 			sync_recv_cv.wait(lock, pred);
 		else if (!sync_recv_cv.wait_for(lock, boost::chrono::milliseconds(duration), pred))
-- 
2.43.0


From 6ee66f95eaad8a3a33adace5dccf393fb1c71c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 27/39] fix: sync_send_msg waited forever for messages which
 will never be sent

---
 include/socket.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 305b86d..fe5a620 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -414,6 +414,9 @@ protected:
 		send_buffer.move_items_out_(size, msg_can);
 		send_buffer.unlock();
 
+#ifdef ST_ASIO_SYNC_SEND
+		std::for_each(msg_can.begin(), msg_can.end(), &socket::abandon_sync_msg);
+#endif
 		on_msg_discard(msg_can);
 		return true;
 	}
@@ -465,6 +468,9 @@ protected:
 			on_close();
 			after_close();
 			obsoleted_ = true;
+#ifdef ST_ASIO_SYNC_SEND
+			abandon_sync_sending();
+#endif
 		}
 		else
 		{
@@ -589,6 +595,11 @@ protected:
 	}
 
 #ifdef ST_ASIO_SYNC_SEND
+	static void abandon_sync_msg(in_msg& msg) {if (msg.p) {msg.p->set_value(NOT_APPLICABLE); msg.p.reset();}}
+	//the link is down and will not be re-established by ourselves, then sync_send_msg() must not wait for the sending of pending messages any more
+	void abandon_sync_sending()
+		{if (!started_ && obsoleted_ && !is_timer(TIMER_DELAY_CLOSE)) send_buffer.do_something_to_all(&socket::abandon_sync_msg);}
+
 	sync_call_result do_direct_sync_send_msg(const InMsgType& msg, unsigned duration = 0, bool prior = false)
 	{
 		if (stopped())
@@ -607,6 +618,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		abandon_sync_sending(); //if the link has broken for good
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -632,6 +644,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		abandon_sync_sending(); //if the link has broken for good
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -663,6 +676,7 @@ protected:
 		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
 
 		send_msg();
+		abandon_sync_sending(); //if the link has broken for good
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -823,6 +837,9 @@ private:
 			after_close();
 			set_async_calling(false);
 			obsoleted_ = true;
+#ifdef ST_ASIO_SYNC_SEND
+			abandon_sync_sending();
+#endif
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 5acf2418ae54d73dc8a555a1714ea84518b6fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:51 +0000
Subject: [PATCH 28/39] fix: a full receiving buffer resumed reading on a link
 which has been shut down (bytes after an unpack error were taken for
 messages)

---
 include/tcp/socket.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index f205096..b0c0d22 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -332,6 +332,9 @@ private:
 			return;
 		else if (ST_THIS test_and_set_reading())
 			return;
+#else
+		if (is_broken() || FORCE_SHUTTING_DOWN == status) //resumed by TIMER_CHECK_RECV
+			return;
 #endif
 #ifdef ST_ASIO_PASSIVE_RECV
 		if (!ST_THIS async_read(make_strand_handler(rw_strand,
@@ -369,7 +372,12 @@ private:
 				ST_THIS unpacker()->reset(); //user can get the left half-baked msg in unpacker's reset()
 			}
 
-			if (handle_msg() && recv_again) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
+			if (!handle_msg()) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
+			{
+				if (!recv_again)
+					ST_THIS stop_timer(super::TIMER_CHECK_RECV); //the receiving buffer is full, handle_msg() has started this timer even if this link has been shut down
+			}
+			else if (recv_again)
 				do_recv_msg(); //receive msg in sequence
 		}
 		else if (!ec)
-- 
2.43.0


From 2446c34e7ae7b76758f326d6fb8b34076b027742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:43 +0000
Subject: [PATCH 29/39] fix: a link accepted while the service is being stopped
 could find its io_context ended and then was never closed

---
 include/tcp/server.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 3631050..66a8b75 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -259,7 +259,9 @@ private:
 	virtual void attach_io_context(boost::asio::io_context& io_context_, unsigned refs) {get_service_pump().assign_io_context(io_context_, refs);}
 	virtual void detach_io_context(boost::asio::io_context& io_context_, unsigned refs) {get_service_pump().return_io_context(io_context_, refs);}
 
-	void accept_handler(const boost::system::error_code& ec, typename Pool::object_ctype& socket_ptr)
+	//work_guard keeps socket's io_context (can be different from acceptor's) running until this handler has finished, or the link accepted while service
+	//is being stopped could find its io_context ended, and then would never be closed.
+	void accept_handler(const boost::system::error_code& ec, typename Pool::object_ctype& socket_ptr, const boost::shared_ptr<void>& work_guard)
 	{
 		if (!ec)
 		{
@@ -273,8 +275,20 @@ private:
 			start_next_accept();
 	}
 
+#if BOOST_ASIO_VERSION > 101100
+	template<typename T> static boost::shared_ptr<void> make_guard(T& io_object)
+		{return boost::make_shared<boost::asio::executor_work_guard<typename T::executor_type> >(io_object.get_executor());}
+#else
+	template<typename T> static boost::shared_ptr<void> make_guard(T& io_object)
+		{return boost::make_shared<boost::asio::io_context::work>(boost::ref(io_object.get_io_service()));}
+#endif
+
 	void do_async_accept(typename Pool::object_ctype& socket_ptr)
-		{if (socket_ptr) acceptor.async_accept(socket_ptr->lowest_layer(), boost::bind(&generic_server::accept_handler, this, boost::asio::placeholders::error, socket_ptr));}
+	{
+		if (socket_ptr)
+			acceptor.async_accept(socket_ptr->lowest_layer(), boost::bind(&generic_server::accept_handler, this,
+				boost::asio::placeholders::error, socket_ptr, make_guard(socket_ptr->lowest_layer())));
+	}
 
 private:
 	typename Family::endpoint server_addr;
-- 
2.43.0


From 8a5ce2b28472fa32c6b247cf86d8948a4220f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 30/39] fix: a heartbeat check during on_connect condemned the
 new link for the silence of the previous one

---
 include/socket.h     | 3 ++-
 include/tcp/socket.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index fe5a620..377d01c 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -194,7 +194,8 @@ public:
 		if (stat.last_recv_time > 0 && is_ready()) //check of last_recv_time is essential, because user may call check_heartbeat before do_start
 		{
 			time_t now = time(NULL);
-			if (now - stat.last_recv_time >= interval * max_absence)
+			//during on_connect(), last_recv_time still belongs to the previous link (if any)
+			if (now - std::max(stat.last_recv_time, stat.establish_time) >= interval * max_absence)
 				if (!on_heartbeat_error())
 					return false;
 
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index b0c0d22..d29f92f 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -239,8 +239,8 @@ protected:
 
 	virtual bool do_start()
 	{
-		status = CONNECTED;
 		stat.establish_time = time(NULL);
+		status = CONNECTED;
 
 		on_connect(); //in this virtual function, stat.last_recv_time has not been updated (super::do_start will update it), please note
 		return super::do_start();
-- 
2.43.0


From 04e5a48351cfe5bbb6043a6c80c6457a4b18e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 31/39] fix: bytes of an unfinished message did not count as
 activity, heartbeat checks broke links with slow big messages

---
 include/tcp/socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index d29f92f..90c630e 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -55,6 +55,9 @@ protected:
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
+		if (bytes_transferred > 0)
+			ST_THIS stat.last_recv_time = time(NULL); //a part of a message also proves that the peer is alive, a message may need longer than the heartbeat timeout
+
 		auto_duration dur(ST_THIS stat.unpack_time_sum);
 		return ST_THIS unpacker()->completion_condition(ec, bytes_transferred);
 	}
-- 
2.43.0


From 35997f5f029fd49d130df0861fbbed2e5f89426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 32/39] fix: connection refused/reset must not end the
 receiving of a udp socket on non-Windows systems

---
 include/udp/socket.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/udp/socket.h b/include/udp/socket.h
index b615c46..53ea6af 100644
--- a/include/udp/socket.h
+++ b/include/udp/socket.h
@@ -313,11 +313,8 @@ private:
 		}
 		else
 		{
-#ifdef _WIN32
+			//an ICMP error caused by a previous datagram says nothing about the receiving side
 			if (ec && boost::asio::error::connection_refused != ec && boost::asio::error::connection_reset != ec)
-#else
-			if (ec)
-#endif
 			{
 				handle_error();
 				on_recv_error(ec);
-- 
2.43.0


From 334e5948fdddf0d6bd976bf7bcb703aa72ecd970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 33/39] fix: safe_send_msg on a closed udp socket waited for
 ever when the send buffer was full

---
 include/udp/socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/udp/socket.h b/include/udp/socket.h
index 53ea6af..42c861f 100644
--- a/include/udp/socket.h
+++ b/include/udp/socket.h
@@ -227,6 +227,7 @@ protected:
 
 	virtual void on_close()
 	{
+		is_bound = false; //otherwise, safe_send_msg will wait for ever if the send buffer is full
 #ifdef ST_ASIO_SYNC_SEND
 		if (sending_msg.p)
 			sending_msg.p->set_value(NOT_APPLICABLE);
-- 
2.43.0


From 535e131e581eb5f952b11a653071f42703aaf896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 34/39] fix: socks5: never read beyond the reply, refuse
 unknown address types, support long bound addresses

---
 include/tcp/proxy/socks.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8ce3e13..4f71852 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -218,9 +218,9 @@ private:
 		{
 			buff[3] = 3;
 			buff[4] = (char) std::min<size_t>(target_domain.size(), sizeof(buff) - 7);
-			memcpy(boost::next(buff, 5), target_domain.data(), (size_t) buff[4]);
-			*((unsigned short*) boost::next(buff, 5 + buff[4])) = htons(target_port);
-			req_len = 7 + buff[4];
+			memcpy(boost::next(buff, 5), target_domain.data(), (unsigned char) buff[4]);
+			*((unsigned short*) boost::next(buff, 5 + (unsigned char) buff[4])) = htons(target_port);
+			req_len = 7 + (unsigned char) buff[4];
 		}
 		else if (target_addr.address().is_v4())
 		{
@@ -259,7 +259,8 @@ private:
 		else
 		{
 			++step;
-			ST_THIS next_layer().async_read_some(boost::asio::buffer(buff, sizeof(buff)),
+			//never read beyond the reply, what follows it belongs to the target server
+			ST_THIS next_layer().async_read_some(boost::asio::buffer(buff, step < 3 ? 2 : 5),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 		}
 	}
@@ -276,6 +277,7 @@ private:
 		{
 			bool succ = true;
 			bool continue_read = false;
+			size_t len = 2;
 			if (1 == step) //parse method
 			{
 				if (res_len < 2)
@@ -317,21 +319,21 @@ private:
 			}
 			else if (3 == step) //parse request
 			{
-				size_t len = 6;
+				len = 5;
 				if (res_len < len)
 					continue_read = true;
 				else if (0 == buff[1])
 				{
 					if (1 == buff[3])
-						len += 4;
+						len = 6 + 4;
 					else if (3 == buff[3])
-						len += 1 + buff[4];
+						len = 6 + 1 + (unsigned char) buff[4];
 					else if (4 == buff[3])
-						len += 16;
+						len = 6 + 16;
 
 					if (res_len < len)
 						continue_read = true;
-					else if (res_len > len)
+					else if (res_len > len || 5 == len) //5 == len means unknown address type
 					{
 						unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
 						succ = false;
@@ -353,19 +355,14 @@ private:
 				ST_THIS force_shutdown(false);
 			else if (!continue_read)
 				super::connect_handler(ec);
-			else if (res_len >= sizeof(buff))
-			{
-				unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-				ST_THIS force_shutdown(false);
-			}
 			else
-				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), sizeof(buff) - res_len),
+				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), len - res_len),
 					ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 		}
 	}
 
 private:
-	char buff[64];
+	char buff[7 + 255]; //can hold the longest reply
 	size_t req_len, res_len;
 	int step;
 
-- 
2.43.0


From b4e985689e31850e8671ae2ce807bb0b7fadd21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 35/39] fix: socks5: a stale domain name must not be used after
 the target has been changed

---
 include/tcp/proxy/socks.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 4f71852..083c355 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -124,6 +124,7 @@ public:
 	bool set_target_addr(unsigned short port, const std::string& ip)
 	{
 		step = -1;
+		target_domain.clear(); //maybe a domain has been set before
 		if (0 == port || ip.empty())
 			return false;
 		else if (!super::set_addr(target_addr, port, ip))
-- 
2.43.0


From 710c522f30f171a4aa401a89a37449bb0b130856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 36/39] fix: socks4: the reply overwrote the request, so
 reconnecting sent garbage

---
 include/tcp/proxy/socks.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 083c355..e1e59be 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -75,20 +75,20 @@ private:
 			ST_THIS force_shutdown(false);
 		}
 		else
-			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(buff, 8),
+			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(res, sizeof(res)),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
 	void recv_handler(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
-		if (ec || 8 != bytes_transferred)
+		if (ec || sizeof(res) != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
 			ST_THIS force_shutdown(false);
 		}
-		else if (90 != buff[1])
+		else if (90 != res[1])
 		{
-			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) buff[1]);
+			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) res[1]);
 			ST_THIS force_shutdown(false);
 		}
 		else
@@ -96,7 +96,8 @@ private:
 	}
 
 private:
-	char buff[16];
+	char buff[16]; //the request, reconnecting will send it again
+	char res[8];
 	size_t req_len;
 
 	boost::asio::ip::tcp::endpoint target_addr;
-- 
2.43.0


From f6b9bb8b913b7a9de00c2287fc6846f28b525e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 37/39] fix: ssl handshakes and shutdowns ran outside the IO
 strand, concurrently with reads and writes of the same ssl stream

---
 include/tcp/ssl/ssl.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tcp/ssl/ssl.h b/include/tcp/ssl/ssl.h
index dc9c635..13d481c 100644
--- a/include/tcp/ssl/ssl.h
+++ b/include/tcp/ssl/ssl.h
@@ -50,7 +50,8 @@ private:
 	{
 		ST_THIS show_info("ssl link:", "been shutting down.");
 		ST_THIS start_graceful_shutdown_monitoring();
-		ST_THIS next_layer().async_shutdown(ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error)));
+		ST_THIS next_layer().async_shutdown(make_strand_handler(ST_THIS rw_strand,
+			ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error))));
 	}
 
 	//do not stop the shutdown monitoring at here, sometimes, this async_shutdown cannot trigger on_recv_error,
@@ -105,7 +106,8 @@ private:
 		{
 			ST_THIS status = super::HANDSHAKING;
 			ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::client,
-				ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+				make_strand_handler(ST_THIS rw_strand,
+				ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		}
 		else
 			super::connect_handler(ec);
@@ -161,7 +163,8 @@ protected:
 	{
 		ST_THIS status = super::HANDSHAKING;
 		ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::server,
-			ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+			make_strand_handler(ST_THIS rw_strand,
+				ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		return true;
 	}
 
-- 
2.43.0


From 9827308c407e15cb9c80c0e30666daf5760719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 38/39] fix: websocket handshakes and closings ran outside the
 IO strand, concurrently with reads and writes of the same stream

---
 include/tcp/websocket/ssl/ssl.h   | 4 ++--
 include/tcp/websocket/websocket.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tcp/websocket/ssl/ssl.h b/include/tcp/websocket/ssl/ssl.h
index b0e20aa..cc68f63 100644
--- a/include/tcp/websocket/ssl/ssl.h
+++ b/include/tcp/websocket/ssl/ssl.h
@@ -107,7 +107,7 @@ private:
 			return super::connect_handler(boost::beast::error_code(static_cast<int>(::ERR_get_error()), boost::asio::error::get_ssl_category()));
 
 		// Perform the SSL handshake
-		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::client, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::client, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 	}
 
 	void handle_handshake(const boost::system::error_code& ec)
@@ -141,7 +141,7 @@ protected:
 		//boost::beast::get_lowest_layer(this->next_layer()).expires_after(std::chrono::seconds(30));
 #endif
 		// Perform the SSL handshake
-		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::server, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::server, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 		return true;
 	}
 
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index cf97a74..609189f 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -108,11 +108,11 @@ protected:
 		this->dispatch_in_io_strand([this]() {
 			this->show_info("websocket link:", "been shutting down.");
 			this->start_graceful_shutdown_monitoring();
-			this->next_layer().async_close(boost::beast::websocket::close_code::normal, this->make_handler_error([this](const boost::system::error_code& ec) {
+			this->next_layer().async_close(boost::beast::websocket::close_code::normal, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {
 				this->stop_graceful_shutdown_monitoring();
 				if (ec)
 					this->show_info(ec, "websocket link", "async shutdown failed");
-			}));
+			})));
 		});
 	}
 };
@@ -176,7 +176,7 @@ protected:
 		// Provide the value of the Host HTTP header during the WebSocket handshake.
 		// See https://tools.ietf.org/html/rfc7230#section-5.4
 		// Perform the websocket handshake
-		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/", this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/", make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 	}
 
 private:
@@ -225,7 +225,7 @@ protected:
 		}));
 #endif
 		// Accept the websocket handshake
-		this->next_layer().async_accept(this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_accept(make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 		return true;
 	}
 
-- 
2.43.0


From 99b5551a4c7c163a98aa0ea3cd8216c2860a70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 39/39] fix: closing waited for ever for a read operation which
 began after the end of file was met (ssl shutdown)

---
 include/socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 377d01c..0a8aad1 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -482,6 +482,8 @@ protected:
 		return true;
 	}
 
+	void cancel_async_io() {boost::system::error_code ec; lowest_layer().cancel(ec);}
+
 	void handle_error()
 	{
 #ifdef ST_ASIO_SYNC_RECV
@@ -821,6 +823,8 @@ private:
 				if (0 == re)
 				{
 					stop_all_timer(id);
+					//with ssl and websocket, read operations can begin after the end of file was met, then nothing will ever complete them.
+					dispatch_in_io_strand(boost::bind(&socket::cancel_async_io, this));
 					return true;
 				}
 				else if (1 != re)
-- 
2.43.0

