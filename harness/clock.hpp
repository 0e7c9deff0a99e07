// clock.hpp - a controlled clock: intercepts the C library's clock calls while active
#pragma once
#include "mc.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
namespace clk
{
	inline bool active = false; inline long long mono = 0, wall = 0, per_read = 0, last_read = 0, reads = 0; // nanoseconds
	inline void start( long long m, long long w ) { mono = m; wall = w; per_read = 0; reads = 0; last_read = m; active = true; }
	inline void advance( long long ns ) { mono += ns; wall += ns; }
	inline void get( bool w, struct timespec* t ) { advance( per_read ); ++reads; last_read = mono; long long v = w ? wall : mono; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; }
}
extern "C" int clock_gettime( clockid_t c, struct timespec* t ) noexcept { if ( !clk::active ) return int( syscall( SYS_clock_gettime, c, t ) ); clk::get( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE, t ); return 0; }
extern "C" int gettimeofday( struct timeval* v, void* z ) noexcept { struct timespec t; if ( !clk::active ) { if ( syscall( SYS_clock_gettime, CLOCK_REALTIME, &t ) ) return -1; } else clk::get( true, &t ); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" time_t time( time_t* p ) noexcept { struct timespec t; if ( !clk::active ) syscall( SYS_clock_gettime, CLOCK_REALTIME, &t ); else clk::get( true, &t ); if ( p ) *p = t.tv_sec; return t.tv_sec; }
extern "C" clock_t clock() noexcept { struct timespec t; if ( !clk::active ) syscall( SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t ); else { t.tv_sec = 0; t.tv_nsec = 0; } return clock_t( t.tv_sec * 1000000 + t.tv_nsec / 1000 ); } // cpu time stands still: waiting is elapsed time too
