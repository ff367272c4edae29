"""What is built and which scenarios decide which property."""
def tcp(*macros, **kw): return dict(src=["h_tcp.cpp"], macros=list(macros), **kw)
def udp(*macros, **kw): return dict(src=["h_udp.cpp"], macros=list(macros), **kw)
VARIANTS = {
    "tcpA": tcp(),
    "tcpB": tcp("ST_ASIO_WANT_MSG_SEND_NOTIFY", "ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY", "ST_ASIO_DISPATCH_BATCH_MSG", "ST_ASIO_FULL_STATISTIC"),
    "tcpC": tcp("ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY", "ST_ASIO_SYNC_DISPATCH", "ST_ASIO_SHRINK_SEND_BUFFER", "ST_ASIO_FULL_STATISTIC"),
    "tcpD": tcp("ST_ASIO_PASSIVE_RECV"),
    "tcpF": tcp("ST_ASIO_REUSE_OBJECT", "ST_ASIO_AVOID_AUTO_STOP_SERVICE", "ST_ASIO_FULL_STATISTIC"),
    "tcpE": tcp("ST_ASIO_DECREASE_THREAD_AT_RUNTIME"),
    "tcpG": tcp("ST_ASIO_RESTORE_OBJECT", "ST_ASIO_AVOID_AUTO_STOP_SERVICE"),
    "tcpI": tcp("ST_ASIO_AVOID_AUTO_STOP_SERVICE"),
    "tcpH": tcp("ST_ASIO_MSG_BUFFER_SIZE=10000", "ST_ASIO_HUGE_MSG"),
    "tcpS": tcp("ST_ASIO_SYNC_SEND", "ST_ASIO_SYNC_RECV", "ST_ASIO_WANT_MSG_SEND_NOTIFY"),
    "tcpT": tcp("ST_ASIO_SYNC_SEND", "ST_ASIO_SYNC_RECV", "ST_ASIO_PASSIVE_RECV", "ST_ASIO_AVOID_AUTO_STOP_SERVICE"),
    "tcpU": tcp("ST_ASIO_SYNC_SEND", "ST_ASIO_SYNC_RECV", "ST_ASIO_SYNC_DISPATCH", "ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY", "ST_ASIO_SHRINK_SEND_BUFFER"),
    "tcpJ": tcp("ST_ASIO_HEARTBEAT_INTERVAL=2"),
    "tcpK": tcp("ST_ASIO_ALWAYS_SEND_HEARTBEAT", "ST_ASIO_SYNC_DISPATCH", "ST_ASIO_WANT_MSG_SEND_NOTIFY"),
    "udpA": udp(),
    "udpX": udp("H_UNIX"),
    "udpB": udp("ST_ASIO_DISPATCH_BATCH_MSG", "ST_ASIO_WANT_MSG_SEND_NOTIFY", "ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY", "ST_ASIO_REUSE_OBJECT", "ST_ASIO_AVOID_AUTO_STOP_SERVICE"),
    "udpS": udp("ST_ASIO_SYNC_SEND", "ST_ASIO_SYNC_DISPATCH"),
    "sckA": dict(src=["h_socks.cpp"], macros=[]),
    "sckB": dict(src=["h_socks.cpp"], macros=["ST_ASIO_SYNC_DISPATCH", "ST_ASIO_WANT_MSG_SEND_NOTIFY"]),
    "sk4A": dict(src=["h_socks.cpp"], macros=["H_SOCKS4"]),
    "tlsA": dict(src=["h_sec.cpp"], macros=[], libs=["-lssl", "-lcrypto"]),
    "tlsB": dict(src=["h_sec.cpp"], macros=["ST_ASIO_SYNC_DISPATCH", "ST_ASIO_WANT_MSG_SEND_NOTIFY", "ST_ASIO_AVOID_AUTO_STOP_SERVICE", "ST_ASIO_REUSE_OBJECT"], libs=["-lssl", "-lcrypto"]),
    "wsA": dict(src=["h_sec.cpp"], macros=["H_WS"], std="c++11"),
    "wsB": dict(src=["h_sec.cpp"], macros=["H_WS", "ST_ASIO_SYNC_DISPATCH", "ST_ASIO_WANT_MSG_SEND_NOTIFY", "ST_ASIO_AVOID_AUTO_STOP_SERVICE"], std="c++11"),
    "timA": dict(src=["h_timer.cpp"], macros=["ST_ASIO_AVOID_AUTO_STOP_SERVICE"]),
    "timS": dict(src=["h_timer.cpp"], macros=["ST_ASIO_AVOID_AUTO_STOP_SERVICE", "ST_ASIO_USE_STEADY_TIMER"]),
    "timL": dict(src=["h_timer.cpp"], macros=["ST_ASIO_AVOID_AUTO_STOP_SERVICE", "ST_ASIO_ALIGNED_TIMER"]),
}
DRAWN = "Workload, framing, network (latency, segmentation, buffer sizes, resets, refusals, partitions), application behaviour (refusals, delays, shutdowns from callbacks), thread counts and schedule are all drawn from the seed."
# property -> jobs: (variant, scenario, weight[, cap])
PLAN = {
    "C01": dict(jobs=[("tcpA", "c01", 4), ("tcpB", "c01", 2), ("tcpC", "c01", 2), ("tcpD", "c01", 1), ("tcpF", "c01", 1)],
                rule=DRAWN, must_reach=["refused", "reoffered", "fault.short_read", "fault.short_write"]),
    "C02": dict(jobs=[("tcpA", "c02", 1), ("tcpB", "c02", 2), ("tcpC", "c02", 2)], rule=DRAWN, must_reach=["c02.offline", "c02.refused", "c02.shrunk", "c02.popped_all", "c02.popped_first", "c02.all_fates", "send_error"]),
    "C03": dict(jobs=[("tcpA", "c03", 3), ("tcpB", "c03", 2), ("tcpC", "c03", 1), ("tcpF", "c03", 1)], rule=DRAWN, must_reach=["refused", "reoffered"]),
    "C04": dict(jobs=[("tcpA", "c04", 3), ("tcpB", "c04", 1), ("tcpC", "c04", 1), ("tcpD", "c04p", 2)], rule=DRAWN, must_reach=["c04.blocked", "c04.resumed", "c04.break_while_blocked", "c04.requested_by_threads"]),
    "C05": dict(jobs=[("tcpA", "c05", 4), ("tcpB", "c05", 1), ("tcpC", "c05", 1), ("tcpF", "c05", 1), ("tcpH", "c05", 2)], rule=DRAWN, must_reach=["c05.malformed", "c05.wellformed"]),
    "C06": dict(jobs=[("tcpA", "c06", 4), ("tcpB", "c06", 1), ("tcpC", "c06", 1), ("tcpF", "c06", 2)], rule=DRAWN, must_reach=["closes"]),
    "C07": dict(jobs=[("tcpA", "c07", 3), ("tcpB", "c07", 1), ("tcpC", "c07", 1), ("tcpF", "c07", 1)], rule=DRAWN, must_reach=["c07.read_all", "c07.late_messages", "c07.forced", "c07.max_duration", "c07.pairs"]),
    "C08": dict(jobs=[("tcpA", "c08", 3), ("tcpF", "c08", 1)], rule=DRAWN, must_reach=["prepare_reconnect"]),
    "C09": dict(jobs=[("tcpA", "c09", 3), ("tcpJ", "c09", 2), ("tcpK", "c09", 1)], rule=DRAWN, must_reach=["c09.reported", "c09.idle", "c09.one_way", "c09.short_silence", "c09.silence_both", "c09.silence_one_way", "c09.peer_dropped"]),
    "C10": dict(jobs=[("timA", "c10e", 2), ("timA", "c10t", 2), ("timS", "c10e", 1), ("timS", "c10t", 1), ("timL", "c10t", 1)], rule="Timer operations, intervals, callback answers and durations, service threads, wall-clock jumps (steady timers) and the schedule are drawn from the seed.", must_reach=["c10.callback", "c10.continued"]),
    "C11": dict(jobs=[("tcpA", "c11", 3), ("tcpF", "c11", 2), ("tcpC", "c11", 1)], rule=DRAWN, must_reach=["c11.admitted", "c11.excess_refused", "c11.relisten", "fault.bind_error", "fault.listen_error", "c11.held", "c11.kicked"]),
    "C12": dict(jobs=[("tcpF", "c12", 3), ("tcpG", "c12r", 2)], rule=DRAWN, must_reach=["object_reused", "c12.ordinary", "c12.cut", "c12.unsent", "c12.ended_here", "c12.timer", "c12.restored", "c12.not_restored", "c12.id_taken"]),
    "C13": dict(jobs=[("tcpA", "c13", 3), ("tcpE", "c13", 2), ("tcpF", "c13", 2), ("tcpB", "c13", 1)], rule=DRAWN, must_reach=["c13.cycle", "c13.threads_added", "c13.threads_removed"]),
    "C14": dict(jobs=[("tcpS", "c14", 2), ("tcpS", "c14x", 2), ("tcpT", "c14", 1), ("tcpT", "c14x", 1), ("tcpU", "c14", 1), ("tcpU", "c14x", 1)], rule=DRAWN, must_reach=["c14.received", "c14.recv_timeout", "c14.recv_failed", "c14.duplicate", "c14.send_success", "c14.send_timeout", "c14.send_failed", "c14.popped"]),
    "C15": dict(jobs=[("udpA", "c15", 3), ("udpX", "c15", 1), ("udpB", "c15", 2), ("udpS", "c15", 1)], rule=DRAWN, must_reach=["c15.settled", "c15.send_error", "c15.echo", "c15.closed_during_traffic", "c15.restarted", "fault.dgram_lost", "fault.dgram_duplicated", "fault.dgram_send_blocked", "refused"]),
    "C16": dict(jobs=[("sckA", "c16", 2), ("sckB", "c16", 1), ("sk4A", "c16", 1)], rule=DRAWN, must_reach=["c16.established", "c16.settled", "c16.closed", "c16.broken_off", "c16.silent", "c16.stalled", "c16.shut", "c16.link_ended"]),
    "C17": dict(jobs=[("tcpA", "c17", 2), ("tcpB", "c17", 1), ("tcpC", "c17", 2), ("tcpF", "c17", 2)], rule=DRAWN, must_reach=["c17.clean", "c17.reported_sent"]),
    "C18": dict(jobs=[("tcpF", "c18", 1), ("tcpI", "c18", 1)], rule=DRAWN, must_reach=["c18.spread_checked", "c18.contexts_added", "c18.cycle"]),
    "C19": dict(jobs=[("tlsA", "c19", 2), ("tlsB", "c19", 1)], rule=DRAWN, must_reach=["sec.established", "sec.settled", "sec.handshake_failed", "sec.cut", "sec.stalled", "sec.all_shut"]),
    "C20": dict(jobs=[("wsA", "c20", 2), ("wsB", "c20", 1)], rule=DRAWN, must_reach=["sec.established", "sec.settled", "sec.handshake_failed", "sec.cut", "sec.stalled", "sec.all_shut"]),
}

NOT_APPLICABLE = {
}
