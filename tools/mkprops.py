#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the lines stay readable to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook or "none: real code runs unmodified on a simulated kernel (sockets, epoll, timers, clock, threads) interposed at link time"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Stream messages arrive complete, in order, exactly once",
 "On one stream connection the messages handed to the receiving application are always a prefix of the messages the sending side accepted for it, in acceptance order, byte-identical and each handed over exactly once, however the bytes are split, delayed, or interleaved with other sends, receives and callbacks. If the connection stays up, every accepted message is eventually handed over without any further call by the application. Across a broken link nothing is ever duplicated, reordered, merged or truncated into a different message: each accepted message is either handed over whole or not at all.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "for every interleaving of sender threads, service threads and completions, every segmentation/short read/short write pattern, every latency, every message size mix, each shipped packer/unpacker pair and dispatch mode",
 "echo/pingpong demos run a handful of loopback exchanges on whatever schedule the OS gives; they cannot force short writes, byte-by-byte delivery, or the one-instruction windows between 'queue empty?' and 'clear the sending flag'",
 ["include/tcp/socket.h", "include/socket.h", "include/container.h", "include/base.h", "include/ext/packer.h", "include/ext/unpacker.h"],
 [("do_send_msg/send_handler single-flight write loop", "include/tcp/socket.h"), ("send queue enqueue/move_items_out", "include/container.h"),
  ("handle_msg -> dispatch_msg -> do_dispatch_msg", "include/socket.h"), ("pack_msg/parse_msg", "include/ext/packer.h, include/ext/unpacker.h")],
 [("sending", "a write is in flight or being set up", "include/socket.h"), ("send_buffer/sending_msgs", "accepted but not yet written messages", "include/socket.h, include/tcp/socket.h"), ("recv_buffer/dispatching_msg", "received but not yet handled messages", "include/socket.h")],
 ["messages passed to on_msg_handle/on_msg versus messages for which a send call returned success"])

prop("C02", "Every accepted outgoing message is accounted for exactly once",
 "Every message a connection accepted for sending ends in exactly one of: reported sent (in acceptance order), reported in the send-error callback, handed to the discard callback, popped by the application, or still pending. The reported pending byte count always equals the bytes of the pending messages and returns to zero when all are sent. A send that is not allowed to overflow is refused if the pending bytes have reached the configured limit and accepted if they have not, and a refused message leaves no trace.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "for every interleaving of concurrent sends, priority sends, pops, completions and link failures, in every notification configuration (per message, per batch, on empty, shrinking buffer)",
 "the demos never fail a write half way, never read the pending counters while sends race with completions, and never build the shrink/batch-notify configurations",
 ["include/socket.h", "include/tcp/socket.h", "include/container.h", "include/base.h"],
 [("send_handler success/error branches and notifications", "include/tcp/socket.h"), ("queue byte accounting", "include/container.h"), ("shrink_send_buffer / is_send_buffer_available", "include/socket.h"), ("pop_first/all_pending_send_msg", "include/base.h")],
 [("total_size", "bytes queued", "include/container.h"), ("sending_msgs", "batch in flight", "include/tcp/socket.h")],
 ["on_msg_send, on_all_msg_send, on_send_error, on_msg_discard, get_pending_send_msg_size, send call results"])

prop("C03", "One connection's messages are handled one at a time, refused ones re-offered",
 "The message handler of one connection is never entered concurrently or re-entered before it returned. A message (or batch) the handler refuses is offered again, unchanged and before any later message, until it is accepted; nothing is lost, duplicated or overtaken because of refusals. This remains true when the link breaks and is re-established while a refusal is outstanding.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "for every refusal pattern, every interleaving of arrival, dispatch and re-dispatch timers on several service threads, in per-message, batch and synchronous dispatch modes, including reconnects during a refusal",
 "no baseline test ever refuses a message, and the demos' handlers run too fast for arrival and dispatch to interleave",
 ["include/socket.h"],
 [("do_dispatch_msg / dispatch_msg in the dispatch strand", "include/socket.h"), ("TIMER_DISPATCH_MSG re-dispatch", "include/socket.h"), ("on_msg in sync dispatch mode", "include/socket.h")],
 [("dispatching", "a message is being handled or waits for re-offer", "include/socket.h"), ("dispatching_msg", "the message on offer", "include/socket.h")],
 ["entry/exit of on_msg_handle/on_msg, sequence offered"])

prop("C04", "A slow consumer stops receiving at the limit and receiving always resumes",
 "While undispatched received bytes are at or above the configured receive-buffer limit the connection takes no further data from the network, so the backlog never exceeds the limit by more than one read's worth of messages. Once the consumer has drained the backlog below the limit, receiving resumes on its own within the configured checking interval and no message is lost. In caller-driven receive mode each request causes at most one read and a connection whose caller keeps requesting never stalls.",
 ["schedules", "histories", "configurations", "inputs"],
 "for every consumer speed and stall pattern, limit size, message size and arrival timing, in automatic and caller-driven receive modes",
 "the demos' receive buffers never fill: limits are 1MB and more, and consumers never stall",
 ["include/socket.h", "include/tcp/socket.h", "include/udp/socket.h"],
 [("handled_msg/check_receiving and TIMER_CHECK_RECV", "include/socket.h"), ("do_recv_msg with the reading flag", "include/tcp/socket.h")],
 [("recv_buffer size", "undispatched bytes", "include/socket.h"), ("reading", "a read is in flight (caller-driven mode)", "include/socket.h")],
 ["get_pending_recv_msg_size, is_recv_idle, bytes consumed from the simulated kernel"])

prop("C05", "Framing result does not depend on segmentation; malformed input is contained",
 "For any byte stream, the sequence of messages produced before the stream's first framing error does not depend on how the stream is cut into reads. A malformed or hostile stream is reported as an unpack error at most at the point where it stops being a valid sequence of frames: no message is invented from bytes that are not a valid frame, no memory outside the buffers is touched, other connections are unaffected, and after a reconnect the next connection starts framing from a clean state.",
 ["inputs", "fault_sequences", "configurations"],
 "for every byte stream (valid, truncated, corrupted, oversized or zero lengths) and every cut of it into reads, for each shipped unpacker, with connection loss at any byte",
 "demos only exchange well-formed frames whose arrival pattern is decided by the loopback device",
 ["include/ext/unpacker.h", "include/ext/packer.h", "include/ext/ext.h", "include/tcp/socket.h"],
 [("parse_msg/completion_condition/prepare_next_recv of each unpacker", "include/ext/unpacker.h"), ("recv_handler error path and unpacker reset", "include/tcp/socket.h")],
 [("remain_len/cur_msg_len/raw_buff", "unparsed bytes and current frame length", "include/ext/unpacker.h")],
 ["messages handed over, on_unpack_error, on_close"])

prop("C06", "A connection ends with exactly one close notification, after everything else",
 "Whenever a started connection ends - by peer close or reset, I/O error, unpack error, heartbeat failure, or any mix of local shutdown calls from any threads - the application gets exactly one close notification for that connection instance. When that notification runs, no other callback, timer or asynchronous call of the connection is running or will run for that instance later. The notification comes within bounded time after the end and the connection's memory is never touched after it was released.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "for every point at which the link can fail or be shut down relative to reads, writes, dispatches, timers and posts in progress, and for every combination of racing shutdown requests",
 "demos close connections at the end of a quiet run; races of several shutdown reasons with in-flight work need schedules a test cannot choose",
 ["include/socket.h", "include/tracked_executor.h", "include/tcp/socket.h", "include/tcp/server_socket.h", "include/tcp/client_socket.h", "include/object_pool.h"],
 [("close() and TIMER_DELAY_CLOSE loop", "include/socket.h"), ("is_last_async_call reference tracking", "include/tracked_executor.h"), ("_force_shutdown/_graceful_shutdown", "include/tcp/socket.h")],
 [("started_", "instance is active", "include/socket.h"), ("aci", "counts outstanding asynchronous calls", "include/tracked_executor.h"), ("status", "link status", "include/tcp/socket.h")],
 ["on_close, every other virtual callback, user timers and posts; heap liveness of every touched byte"])

prop("C07", "Graceful shutdown loses nothing already sent and always terminates",
 "After a graceful shutdown request the peer can still read everything that was written to the connection before it, and data the peer sends until it closes in turn is still received and handed over. The connection is closed as soon as the peer closes, and in any case within the configured maximum duration plus timer slack even if the peer never reacts. A forced shutdown closes at once, also while a graceful one is pending.",
 ["schedules", "fault_sequences", "histories"],
 "for every peer behaviour (answers, keeps sending, goes silent, resets) and every interleaving of graceful and forced shutdown with traffic",
 "tests never meet a peer that stays silent after the half-close, nor one that keeps sending",
 ["include/tcp/socket.h", "include/tcp/client_socket.h", "include/tcp/server_socket.h", "include/socket.h"],
 [("_graceful_shutdown/shutdown_handler", "include/tcp/socket.h"), ("TIMER_ASYNC_SHUTDOWN", "include/tcp/socket.h")],
 [("status", "GRACEFUL_SHUTTING_DOWN and FORCE_SHUTTING_DOWN", "include/tcp/socket.h")],
 ["bytes read by the peer, messages handed over, time of on_close"])

prop("C08", "A client keeps reconnecting while asked to, and never once told not to",
 "While reconnecting is enabled a client that loses or cannot establish its link retries after the configured delay, indefinitely, with at most one connection attempt or connection at a time, and is connected again within bounded time after the server becomes reachable. After reconnecting has been disabled or given up, no further connection attempt is made. Every established connection is announced exactly once and starts with clean framing and sending state.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "for every sequence of refused/timed-out/reset connections and server outages, every interleaving with shutdown and reconnect requests",
 "demos start the server first and connect once; outages, slow connects and shutdown-during-connect never occur",
 ["include/tcp/client_socket.h", "include/socket.h", "include/tcp/client.h"],
 [("connect/connect_handler/prepare_next_reconnect", "include/tcp/client_socket.h"), ("after_close -> start", "include/tcp/client_socket.h")],
 [("need_reconnect", "reconnecting enabled", "include/tcp/client_socket.h"), ("TIMER_CONNECT/TIMER_CONNECT_DELAY", "pending attempt", "include/tcp/client_socket.h")],
 ["connect attempts seen by the simulated network, on_connect, on_close"])

prop("C09", "Heartbeats detect silent peers and never condemn live ones",
 "With heartbeats enabled, a peer from which nothing arrives for the configured interval times the allowed absences is reported within one further interval, and a peer whose messages or heartbeats keep arriving within that time is never reported. An idle but healthy pair keeps the link alive by itself: heartbeats are sent when nothing else is, and are never handed to the application as messages.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "for every traffic pattern, message loss onset (partition), latency below the interval, thread stall shorter than the slack, and interval/absence setting",
 "a heartbeat takes seconds of real time to fail; the demos never partition a link",
 ["include/socket.h", "include/tcp/socket.h", "include/ext/packer.h", "include/ext/unpacker.h", "include/udp/socket.h"],
 [("check_heartbeat/start_heartbeat", "include/socket.h"), ("send_heartbeat and pack_heartbeat", "include/tcp/socket.h, include/ext/packer.h")],
 [("stat.last_recv_time/last_send_time", "time of last activity", "include/base.h")],
 ["on_heartbeat_error time, messages handed over"])

prop("C10", "Timers fire on time, in sequence, and not after being stopped",
 "A started timer's callback runs no earlier than its interval after it was (re)started and within bounded lateness, repeatedly while the callback asks to continue, never concurrently with itself (unless restarted while it runs), and stops when the callback declines. After a timer was stopped in its own execution context (or stopped and the stop happened before the callback began) its callback does not run again until it is started anew; restarting replaces the pending expiry rather than adding one. Distinct timers of one object do not affect each other.",
 ["schedules", "histories", "fault_sequences"],
 "for every sequence of set/start/stop/restart/change operations at arbitrary instants relative to expiries, on several service threads, including stops and restarts from inside callbacks and, with the steady clock, wall-clock jumps",
 "tests exercise timers only through real sleeping; the window between expiry and callback execution is not controllable there",
 ["include/timer.h", "include/executor.h"],
 [("start_timer/stop_timer/timer_handler with status and sequence", "include/timer.h")],
 [("timer_info.status/seq/interval_ms", "timer state", "include/timer.h")],
 ["callback invocations with simulated time"])

prop("C11", "A server's connection table is exact, bounded and survives faults",
 "Every accepted connection gets an id no other live connection has, is findable under it from before its first callback until it ends, and is removed exactly once when it ends; the number of connections in the table never exceeds the configured maximum and excess connections are refused without disturbing others. The server keeps the configured number of accepts outstanding and keeps accepting for as long as it is listening; after stop it accepts nothing. A connection object is freed or reused only when it is finished and nobody else refers to it.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "for every arrival/departure/kick pattern, racing lookups and deletions, accept failures, object limits and reuse settings",
 "demos hold a few connections that come and go in order; limits, reuse under churn and lookups racing with removal are not exercised",
 ["include/object_pool.h", "include/tcp/server.h", "include/tcp/server_socket.h"],
 [("add_object/del_object/free_object/invalid_object_pop", "include/object_pool.h"), ("accept_handler/start_next_accept/stop_listen", "include/tcp/server.h"), ("on_close -> del_socket", "include/tcp/server_socket.h")],
 [("object_can/invalid_object_can", "live and finished connections", "include/object_pool.h"), ("cur_id", "id source", "include/object_pool.h")],
 ["ids, find/exist/size results, accepted connections on the simulated network"])

prop("C12", "A reused or restored connection object carries nothing over by accident",
 "When connection objects are reused for new connections, the new connection sees none of the previous one's messages, partial frames, statistics, flags or timers, and works as a freshly created one would. When an object is restored under an earlier id, it takes over exactly from the one finished object with that id, at most one claimant succeeds, and lookups by that id then give the new connection.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "for every state in which the previous connection can end (mid-frame, mid-write, full buffers, refused message pending) and every churn pattern",
 "the demos that enable reuse never end a connection mid-frame or with messages pending and then look at the successor; restore is not built by any stable test",
 ["include/object_pool.h", "include/socket.h", "include/tcp/socket.h", "include/tcp/server.h"],
 [("reset()", "include/socket.h, include/tcp/socket.h"), ("change_object_id/init_object_id/restore_socket", "include/object_pool.h, include/tcp/server.h")],
 [("invalid_object_can", "objects waiting for reuse", "include/object_pool.h")],
 ["messages, counters and ids seen on successive connections"])

prop("C13", "The service pump starts, stops and restarts cleanly from any state",
 "Stopping the service always returns in bounded time, whatever connections, timers, retries and handlers are in progress, and once it has returned no application callback is running or will run. Starting again afterwards brings every service back to full operation, any number of times. The number of service threads follows the start, add and remove requests exactly, at least one thread always remains, and an exception thrown by a handler neither stops the pump nor other connections.",
 ["schedules", "crash_points", "histories", "fault_sequences"],
 "for every instant at which stop can be requested relative to accepts, connects, reconnect timers, sends, dispatches and thread changes, over repeated stop/start cycles, single and multiple execution contexts",
 "the demos stop once, from an idle state; BUILD.json even lists restart tests as flaky, i.e. schedule dependent",
 ["include/service_pump.h", "include/single_service_pump.h", "include/tcp/server.h", "include/tcp/client.h", "include/socket_service.h", "include/tcp/client_socket.h"],
 [("do_service/end_service/wait_service/run", "include/service_pump.h"), ("uninit of servers and clients", "include/tcp/server.h, include/tcp/client.h")],
 [("started/first/del_thread_num/real_thread_num", "pump state", "include/service_pump.h")],
 ["return of stop_service, callbacks after it, service_thread_num, live simulated threads"])

prop("C14", "Synchronous send and receive tell the truth and always return",
 "A synchronous send that reports success has put the whole message on the wire, in order with all other messages; one that reports failure because the link broke did so after the link broke; with a time limit it returns within that limit. A synchronous receive returns each received message exactly once, in order, to exactly one of the waiting caller or the asynchronous handler; it returns within its time limit, and with no limit it returns when data arrives or the link ends. Neither blocks the service so that later traffic, shutdown or stop hang.",
 ["schedules", "fault_sequences", "crash_points", "configurations"],
 "for every interleaving of callers, service threads, arrivals, completions, timeouts and link failures",
 "no stable test builds the synchronous modes at all",
 ["include/socket.h", "include/tcp/socket.h", "include/base.h"],
 [("do_direct_sync_send_msg and promises", "include/socket.h"), ("sync_recv_msg/sync_recv_waiting/handle_msg/handle_error", "include/socket.h"), ("on_close failing pending promises", "include/tcp/socket.h")],
 [("sr_status", "synchronous receive hand-shake", "include/socket.h"), ("promise per message", "result of a synchronous send", "include/base.h")],
 ["results of sync calls versus wire and handler history"])

prop("C15", "Datagrams keep their boundaries, addresses and order of sending",
 "Each accepted outgoing datagram is given to the network at most once, unmodified, to the address it was sent for, in acceptance order; a failed send is reported once and never blocks or drops later ones. Each datagram the network delivers is handed to the application exactly once, whole, alone, with its true sender address and in arrival order, whatever loss, duplication, reordering or delay the network applied.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "for every loss/duplication/reordering/error pattern on the simulated network, every interleaving of senders and service threads, connected and unconnected mode, IP and local sockets",
 "the stable tests send a few local-socket datagrams on a lossless path; send errors, reordering and concurrent senders do not occur",
 ["include/udp/socket.h", "include/udp/socket_service.h", "include/ext/udp.h", "include/ext/unpacker.h", "include/socket.h"],
 [("do_send_msg/send_handler", "include/udp/socket.h"), ("recv_handler and temp_addr", "include/udp/socket.h"), ("udp_unpacker", "include/ext/unpacker.h")],
 [("sending_msg", "datagram in flight", "include/udp/socket.h"), ("temp_addr", "sender of the datagram being received", "include/udp/socket.h")],
 ["datagrams entering the simulated network, messages and addresses handed over, on_send_error"])

prop("C16", "SOCKS negotiation is exact for every segmentation and every reply",
 "A client behind a SOCKS4 or SOCKS5 proxy reports the connection as established exactly when the proxy granted the request it was configured with (target address or domain, authentication), however the proxy's replies are split or coalesced with following data. A refused, malformed, truncated or broken-off negotiation never yields an established connection and closes within bounded time. No application data is sent before establishment and no byte following the proxy's reply is lost or misread.",
 ["inputs", "schedules", "fault_sequences"],
 "for every proxy behaviour: reply codes, address types, segmentation, coalescing with the target's first data, stalls and resets at every byte",
 "no test or demo runs a proxy",
 ["include/tcp/proxy/socks.h", "include/tcp/client_socket.h"],
 [("socks4 send/recv handler", "include/tcp/proxy/socks.h"), ("socks5 step machine", "include/tcp/proxy/socks.h")],
 [("step/res_len/buff", "negotiation progress", "include/tcp/proxy/socks.h")],
 ["bytes received by the simulated proxy, on_connect, messages handed over, on_close"])

prop("C17", "Traffic statistics agree with the traffic",
 "At every quiescent point a connection's counters of messages and bytes sent and received equal what actually crossed the connection (sent: messages fully handed to the network; received: messages unpacked), never count a message twice or miss one, and a table-wide sum equals the sum over its connections. Last-activity times never run ahead of or behind the last real activity by more than the clock's granularity, and accumulated delays are never negative.",
 ["schedules", "histories", "fault_sequences"],
 "for every mix of single and batched sends, failed writes, partial reads and callbacks, on any schedule",
 "no test reads the counters against an independent record of the traffic",
 ["include/base.h", "include/tcp/socket.h", "include/socket.h", "include/object_pool.h", "include/udp/socket.h"],
 [("stat updates in send_handler/recv_handler/handle_msg", "include/tcp/socket.h, include/socket.h"), ("statistic operator+=", "include/base.h"), ("object_pool::get_statistic", "include/object_pool.h")],
 [("statistic", "per connection counters", "include/base.h")],
 ["get_statistic versus the simulated kernel's byte counts and the handler history"])

prop("C18", "Work is spread over execution contexts and their reference counts balance",
 "With several execution contexts every context gets at least one thread, new objects go to a context with the fewest references, and a context's reference count always equals the number of acceptors, connections and explicit references currently assigned to it. When connections and services end the counts return to what they were, so long churn never skews the spread or underflows a count.",
 ["schedules", "histories", "configurations"],
 "for every churn of connections, explicit reference changes, reuse, restarts and context additions",
 "no stable test reads the reference counts after churn",
 ["include/service_pump.h", "include/timer.h", "include/tcp/server.h", "include/tcp/server_socket.h", "include/tcp/client_socket.h", "include/udp/socket.h"],
 [("assign_io_context/return_io_context", "include/service_pump.h"), ("add/sub/clear_io_context_refs", "include/timer.h"), ("reset_io_context_refs on reuse", "include/timer.h")],
 [("context.refs", "references per execution context", "include/service_pump.h"), ("io_context_refs", "references held by one object", "include/timer.h")],
 ["get_io_context_refs versus the model of live objects"])

prop("C19", "TLS connections keep the stream guarantees through handshake and shutdown",
 "Over TLS, application messages arrive complete, in order and exactly once under any segmentation of the records; a failed, stalled or broken-off handshake never yields an established connection and is cleaned up; graceful shutdown completes when the peer answers and within the configured time when it does not; a closed connection ends with exactly one close notification and a reconnecting client establishes a fresh session.",
 ["schedules", "inputs", "fault_sequences"],
 "for every segmentation, delay, reset or silence at any point of handshake, traffic and shutdown, on any schedule",
 "the TLS demo runs a few clean handshakes on loopback; its restart cases are flaky, i.e. schedule dependent",
 ["include/tcp/ssl/ssl.h", "include/ext/ssl.h", "include/tcp/socket.h"],
 [("handshake in do_start/connect_handler", "include/tcp/ssl/ssl.h"), ("async_shutdown monitoring", "include/tcp/ssl/ssl.h, include/tcp/socket.h")],
 [("status", "HANDSHAKING/CONNECTED/...", "include/tcp/socket.h")],
 ["messages, on_connect, on_handshake, on_close"])

prop("C20", "WebSocket connections keep message boundaries and close cleanly",
 "Over WebSocket each accepted message arrives as exactly one message, complete and in order, under any segmentation; a failed or broken-off handshake never yields an established connection and is cleaned up; closing ends with exactly one close notification in bounded time even if the peer never answers the closing handshake.",
 ["schedules", "inputs", "fault_sequences"],
 "for every segmentation, delay, reset or silence at any point of handshake, traffic and closing, on any schedule",
 "the WebSocket demos run a few clean exchanges on loopback",
 ["include/tcp/websocket/websocket.h", "include/ext/websocket.h", "include/tcp/socket.h"],
 [("websocket reader_writer", "include/tcp/websocket/websocket.h"), ("handshake and async_close", "include/tcp/websocket/websocket.h")],
 [("status", "HANDSHAKING/CONNECTED/...", "include/tcp/socket.h")],
 ["messages, on_connect, on_close"])

prop("C21", "Reliable UDP delivers the stream in order despite loss and ends cleanly",
 "On the reliable-UDP socket, messages reach the peer's application complete, in order and exactly once although the network loses, duplicates and reorders datagrams, sending pauses under congestion and always resumes, and shutting down ends with exactly one close notification without touching released protocol state.",
 ["schedules", "fault_sequences", "histories"],
 "for every loss/duplication/reordering pattern and shutdown instant",
 "the reliable UDP demo needs a third-party source file that is not in the tree, so no test builds it",
 ["include/udp/reliable_socket.h", "include/ext/reliable_udp.h", "include/udp/socket.h"],
 [("kcp update/input/output and congestion check", "include/udp/reliable_socket.h"), ("resume_sending", "include/udp/socket.h")],
 [("kcp", "ARQ state", "include/udp/reliable_socket.h")],
 ["messages handed over, on_close"])

prop("C22", "File transfer delivers byte-identical files or reports failure",
 "A file fetched by the file-transfer client over any number of parallel links is byte-identical to the server's file when the client reports completion; a missing file, a lost link or a failed disk operation is never reported as a completed transfer and never crashes client or server.",
 ["schedules", "fault_sequences", "inputs"],
 "for every file size, number of links, segmentation, link loss and disk error",
 "no baseline test runs the file transfer programs",
 ["file_client/file_client.h", "file_client/file_socket.h", "file_server/file_socket.cpp", "file_server/file_socket.h", "file_common/file_buffer.h", "file_common/unpacker.h", "file_common/packer.h"],
 [("data unpacker writing to the file", "file_client/file_socket.h"), ("file_buffer reading on send", "file_common/file_buffer.h")],
 [("transmitted/left size", "progress per link", "file_client")],
 ["file content on the simulated disk, completion reports"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
