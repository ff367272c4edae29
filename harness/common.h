// First include of every instrumented harness file.
#ifndef COMMON_H_
#define COMMON_H_
#include "../sim/sim.h"
#include <assert.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
// the library's own logging extension point: keep the text only when a run is being traced
#define ST_ASIO_CUSTOM_LOG
namespace st_asio_wrapper
{
	class unified_out
	{
	public:
#define H_LOG(HEAD) if (sim_tracing()) {char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim_log(HEAD "%s", b);}
		static void fatal_out(const char* fmt, ...) {H_LOG("[lib fatal] ") sim_fail("C06.fatal", "the library reports a fatal error: %s", fmt);}
		static void error_out(const char* fmt, ...) {H_LOG("[lib error] ")}
		static void warning_out(const char* fmt, ...) {H_LOG("[lib warning] ")}
		static void info_out(const char* fmt, ...) {H_LOG("[lib] ")}
		static void debug_out(const char* fmt, ...) {H_LOG("[lib debug] ")}
	};
}
inline uint64_t ms_now() {return sim_now_ns() / 1000000;}
#endif
