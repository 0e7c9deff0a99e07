// C44 system services: time stamps, delays, interruption, deliberate crashes, function tables
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/interruptible.cpp
// MC-BOUNDS: time stamps: every day of 1970..2105 (thorough: every day of 1970..2400) at 6 times of day, every second of 4 days around a leap day and a year end, 4 time zones, 12 formats; delays of 22 durations from -2^31 to 2^31-1 ms with every pattern of at most 3 (thorough 4) early wake-ups by a signal; all sequences of at most 6 (thorough 8) operations on 3 interruptible objects; crashes with every message of at most 2 characters over 6 and long ones, with 0..2 log sinks at every level; home folders of all names of up to 4 (5) characters over 5 with 6 prefixes; function tables of 2..9 (thorough 17) samples over 4 ranges and 4 functions
// MC-ORACLE: civil calendar arithmetic; a virtual clock behind the C library's clock and sleep calls; one flag per object; the exit status of a forked child and what its log holds; tables computed in long double
#include "clock.hpp"
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
#include "flut/interruptible.hpp"
#include "flut/debug_tools.hpp"
#include "flut/filesystem.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
namespace slp { // the C library's ways to wait, on the virtual clock; `wake` holds the fractions (in eighths) after which a wait ends early
	inline bool active = false; inline std::vector< int > wake; inline size_t at = 0; inline int calls = 0;
	/// waits ns nanoseconds; false and the rest when interrupted
	inline bool wait( long long ns, long long& rest ) { ++calls; rest = 0; if ( ns < 0 ) ns = 0; if ( at < wake.size() ) { long long done = ns / 8 * wake[ at++ ]; clk::advance( done ); rest = ns - done; return false; } clk::advance( ns ); return true; }
	inline long long ns( const struct timespec* t ) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
}
extern "C" int nanosleep( const struct timespec* q, struct timespec* r ) { if ( !slp::active ) return int( syscall( SYS_nanosleep, q, r ) ); if ( q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec > 999999999 ) { errno = EINVAL; return -1; } long long rest; if ( slp::wait( slp::ns( q ), rest ) ) return 0; if ( r ) { r->tv_sec = rest / 1000000000; r->tv_nsec = rest % 1000000000; } errno = EINTR; return -1; }
extern "C" int clock_nanosleep( clockid_t c, int flags, const struct timespec* q, struct timespec* r ) { if ( !slp::active ) { return syscall( SYS_clock_nanosleep, c, flags, q, r ) ? errno : 0; } if ( q->tv_nsec < 0 || q->tv_nsec > 999999999 ) return EINVAL; bool abs = flags & TIMER_ABSTIME; long long n = slp::ns( q ) - ( abs ? c == CLOCK_REALTIME ? clk::wall : clk::mono : 0 ), rest; if ( slp::wait( n, rest ) ) return 0; if ( r && !abs ) { r->tv_sec = rest / 1000000000; r->tv_nsec = rest % 1000000000; } return EINTR; }
extern "C" int usleep( useconds_t u ) { if ( !slp::active ) { struct timespec t{ time_t( u / 1000000 ), long( u % 1000000 ) * 1000 }; return int( syscall( SYS_nanosleep, &t, nullptr ) ); } long long rest; if ( slp::wait( u * 1000LL, rest ) ) return 0; errno = EINTR; return -1; }
extern "C" unsigned sleep( unsigned s ) { if ( !slp::active ) { struct timespec t{ time_t( s ), 0 }, r{ 0, 0 }; return syscall( SYS_nanosleep, &t, &r ) ? unsigned( r.tv_sec ) : 0; } long long rest; slp::wait( s * 1000000000LL, rest ); return unsigned( ( rest + 500000000 ) / 1000000000 ); }
extern "C" int poll( struct pollfd* f, nfds_t n, int ms ) { if ( !slp::active ) return int( syscall( SYS_poll, f, n, ms ) ); long long rest; if ( slp::wait( ms * 1000000LL, rest ) ) return 0; errno = EINTR; return -1; }
extern "C" int select( int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* t ) { if ( !slp::active || !t ) return int( syscall( SYS_select, n, a, b, c, t ) ); long long rest; if ( slp::wait( t->tv_sec * 1000000000LL + t->tv_usec * 1000LL, rest ) ) return 0; errno = EINTR; return -1; }
namespace vh { // own names do not clash with names of the library
using std::string; using std::vector;
struct civil { long long y; int m, d, wd, yd; };
static bool leap( long long y ) { return ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0; }
static civil date( long long days ) { civil c{ 1970, 1, 1, int( ( days + 4 ) % 7 ), 0 }; static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; while ( days >= ( leap( c.y ) ? 366 : 365 ) ) { days -= leap( c.y ) ? 366 : 365; ++c.y; } c.yd = int( days ); for ( ;; ) { int l = ml[ c.m - 1 ] + ( c.m == 2 && leap( c.y ) ); if ( days < l ) break; days -= l; ++c.m; } c.d = int( days ) + 1; return c; }
static string pad( long long v, int n ) { string s = std::to_string( v ); while ( int( s.size() ) < n ) s = "0" + s; return s; }
static string expand( const string& f, long long t ) {
	static const char *wd[] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" }, *mn[] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
	civil c = date( t / 86400 ); long long s = t % 86400; string r; for ( size_t i = 0; i < f.size(); ++i ) { if ( f[ i ] != '%' ) { r += f[ i ]; continue; } switch ( f[ ++i ] ) { case 'Y': r += std::to_string( c.y ); break; case 'm': r += pad( c.m, 2 ); break; case 'd': r += pad( c.d, 2 ); break; case 'H': r += pad( s / 3600, 2 ); break; case 'M': r += pad( s / 60 % 60, 2 ); break; case 'S': r += pad( s % 60, 2 ); break; case 'j': r += pad( c.yd + 1, 3 ); break; case 'y': r += pad( c.y % 100, 2 ); break; case 'A': r += wd[ c.wd ]; break; case 'b': r += string( mn[ c.m - 1 ] ).substr( 0, 3 ); break; case 'B': r += mn[ c.m - 1 ]; break; case 'F': r += std::to_string( c.y ) + "-" + pad( c.m, 2 ) + "-" + pad( c.d, 2 ); break; case 'T': r += pad( s / 3600, 2 ) + ":" + pad( s / 60 % 60, 2 ) + ":" + pad( s % 60, 2 ); break; case '%': r += '%'; break; default: mc::internal_error( "format" ); } } return r;
}
static const vector< std::pair< string, int > > zones = { { "UTC0", 0 }, { "XYZ-5:30", 19800 }, { "ABC8", -28800 }, { "LMN-14", 50400 } };
static void zone( int z ) { static int cur = -1; if ( cur != z ) { setenv( "TZ", zones[ z ].first.c_str(), 1 ); tzset(); cur = z; } }
static void stamp( long long t, long long frac, int z, const char* fmt ) { mc::step(); zone( z ); clk::start( 5000000000LL, t * 1000000000LL + frac ); string got = fmt ? flut::get_date_time_str( fmt ) : flut::get_date_time_str(); clk::active = false; long long l = t + zones[ z ].second; string want = expand( fmt ? fmt : "%Y-%m-%d_%H.%M.%S", l ); MC_EQ( got, want, "time stamp of second " << t << " in zone " << zones[ z ].first << " with format " << ( fmt ? fmt : "(default)" ) ); }
MC_SCENARIO_SPLIT( days, 1 ) { // one execution per month of the calendar
	int year = mc::choose( mc::bound( 136, 431 ) ), z = mc::choose( 4 ); MC_STEP( "year " << 1970 + year << " zone " << z ); long long d = 0; for ( int y = 0; y < year; ++y ) d += leap( 1970 + y ) ? 366 : 365; if ( year == 0 ) d += 1; // zones east of Greenwich
	for ( int n = leap( 1970 + year ) ? 366 : 365; n-- > ( year == 0 ? 1 : 0 ); ++d ) for ( long long s : { 0, 1, 43199, 43200, 61000, 86399 } ) stamp( d * 86400 + s, s == 86399 ? 999999999 : 0, z, nullptr );
	mc::state( uint64_t( year * 4 + z ) ); mc::outcome( uint64_t( d ) );
}
MC_SCENARIO( seconds ) { long long day = mc::pick( vector< long long >{ 11015, 11016, 10956, 10957 } ), h = mc::choose( 24 ); int z = mc::choose( 4 ); MC_STEP( "day " << day << " hour " << h ); for ( int s = 0; s < 3600; ++s ) stamp( day * 86400 + h * 3600 + s, s % 3 * 499999999LL, z, nullptr ); mc::state( uint64_t( day * 100 + h * 4 + z ) ); mc::outcome( uint64_t( day * 24 + h ) ); }
MC_SCENARIO( formats ) { const char* f = mc::pick( vector< const char* >{ "%Y", "%m/%d/%y", "%H:%M:%S", "%F %T", "%j", "%A", "%b %d %Y", "%B", "no conversion", "%%Y", "", "[%Y][%m][%d][%H][%M][%S] a long text around the conversions, longer than any small buffer, to be safe" } ); int z = mc::choose( 4 ); MC_STEP( "format " << f ); for ( long long t = 86400; t < 4102444800LL; t += 1234567 ) stamp( t, 0, z, f ); mc::state( string( f ) + char( '0' + z ) ); mc::outcome( f ); }

MC_SCENARIO_SPLIT( delays, 2 ) {
	int ms = mc::pick( vector< int >{ 0, 1, 2, 9, 10, 99, 100, 499, 500, 999, 1000, 1001, 1999, 59999, 60000, 4294, 4295, 2147484, 4294968, 2147483647, -1, -2147483647 - 1 } ); int n = mc::range( 0, mc::bound( 3, 4 ) ); vector< int > w; for ( int i = 0; i < n; ++i ) w.push_back( mc::pick( vector< int >{ 0, 1, 4, 7 } ) );
	MC_STEP( "sleep " << ms << " ms, woken early " << mc::show( w ) ); clk::start( 100000000000LL, 1000000000000000000LL ); clk::per_read = 1000; slp::wake = w; slp::at = 0; slp::calls = 0; slp::active = true; long long t0 = clk::mono; flut::sleep( ms ); long long dt = clk::mono - t0; slp::active = false; clk::active = false; long long want = ms > 0 ? ms * 1000000LL : 0;
	MC_CHECK( dt >= want, "sleep( " << ms << " ) returned after " << dt << " ns" ); MC_CHECK( dt <= want + want / 1000 + 2000000, "sleep( " << ms << " ) took " << dt << " ns" ); mc::state( mc::show( w ) + std::to_string( ms ) ); mc::outcome( uint64_t( dt ) );
}

struct counted : public flut::interruptible { mutable int n = 0; void interrupt() const override { ++n; flut::interruptible::interrupt(); } };
struct deaf : public flut::interruptible { void interrupt() const override {} };
MC_SCENARIO_SPLIT( interruption, 3 ) {
	flut::interruptible a; counted b; deaf d; const flut::interruptible* o[] = { &a, &b, &d }; bool f[ 3 ] = {}; int calls = 0; string h; auto look = [&] { for ( int i = 0; i < 3; ++i ) MC_EQ( o[ i ]->test_interrupt_flag(), f[ i ], "interrupt flag of object " << i << " after " << h ); MC_EQ( b.n, calls, "calls of the overridden interrupt" ); }; look();
	int n = mc::range( 0, mc::bound( 6, 8 ) ); for ( int s = 0; s < n; ++s ) { int op = mc::choose( 5 ); h += char( '0' + op ); if ( op < 3 ) { MC_STEP( "interrupt " << op ); o[ op ]->interrupt(); if ( op < 2 ) f[ op ] = true; calls += op == 1; } else if ( op == 3 ) { MC_STEP( "new object" ); flut::interruptible t; MC_CHECK( !t.test_interrupt_flag(), "new object is interrupted" ); t.interrupt(); MC_CHECK( t.test_interrupt_flag(), "interrupt lost" ); } else { MC_STEP( "interrupt the base of 1" ); b.flut::interruptible::interrupt(); f[ 1 ] = true; } look(); look(); }
	mc::state( h ); mc::outcome( uint64_t( f[ 0 ] * 4 + f[ 1 ] * 2 + f[ 2 ] + 8 * calls ) );
}

static string slurp( const string& fn ) { string s; FILE* f = fopen( fn.c_str(), "rb" ); if ( !f ) return "(no file)"; char b[ 4096 ]; size_t k; while ( ( k = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, k ); fclose( f ); return s; }
static void crash( const string& msg, bool noarg ) { // the child dies by a signal, and what it had to say is in the log by then
	int sinks = mc::choose( 3 ); flut::log::level lv = flut::log::level( 1 + mc::choose( 7 ) ); if ( sinks == 0 && lv != 1 ) mc::discard(); string id = std::to_string( getpid() ), f0 = "crash0_" + id, f1 = "crash1_" + id; unlink( f0.c_str() ); unlink( f1.c_str() ); MC_STEP( "crash " << mc::show( msg ) << " with " << sinks << " sinks at level " << int( lv ) ); fflush( nullptr );
	pid_t p = fork(); if ( p < 0 ) mc::internal_error( "fork" );
	if ( p == 0 ) { struct rlimit rl{ 0, 0 }; setrlimit( RLIMIT_CORE, &rl ); for ( int g : { SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGTRAP } ) signal( g, SIG_DFL ); if ( sinks >= 1 ) new flut::log::file_sink( lv, flut::path( f0 ) ); if ( sinks >= 2 ) new flut::log::file_sink( flut::log::trace_level, flut::path( f1 ) ); if ( noarg ) flut::crash(); else flut::crash( msg ); _exit( 3 ); }
	int st; waitpid( p, &st, 0 ); MC_CHECK( WIFSIGNALED( st ), "process " << ( WIFEXITED( st ) ? "survived the crash (exit " + std::to_string( WEXITSTATUS( st ) ) + ")" : string( "stopped" ) ) ); string want = msg.empty() || noarg ? "" : msg + "\n";
	if ( sinks >= 1 ) MC_EQ( slurp( f0 ), lv <= flut::log::critical_level ? want : string(), "log of the crashed process at level " << int( lv ) ); if ( sinks >= 2 ) MC_EQ( slurp( f1 ), want, "complete log of the crashed process" ); unlink( f0.c_str() ); unlink( f1.c_str() ); mc::state( msg + char( sinks ) + char( lv ) ); mc::outcome( want );
}
MC_SCENARIO_SPLIT( crashes, 2 ) { crash( gen::str( "a%s\n\"\\", 0, mc::bound( 1, 2 ) ), false ); }
MC_SCENARIO_SPLIT( long_crashes, 2 ) { crash( gen::long_str( "x%", { "", "\n" }, { 16, 255, 1024, 9000 } ), false ); }
MC_SCENARIO_SPLIT( silent_crashes, 1 ) { crash( "", true ); }

static double square( double x ) { return x * x; } static double line( double x ) { return 3 - 2 * x; } static double third( double x ) { return x / 3; } static double one( double ) { return 1; } static float squaref( float x ) { return x * x; }
MC_SCENARIO( user_folders ) { // they follow the home folder of the user, whatever it is called
	string h = mc::pick( { "/", "/h", "", "/home/a b", "/r/.x", "relative" } ) + gen::str( "/a. \xe9", 0, mc::bound( 4, 5 ) ) + mc::pick( { string(), string( 300, 'h' ) } ); MC_STEP( "home " << mc::show( h ) ); string old = getenv( "HOME" ) ? getenv( "HOME" ) : "/"; setenv( "HOME", h.c_str(), 1 ); string d = flut::get_documents_folder().str(), c = flut::get_config_folder().str(); setenv( "HOME", old.c_str(), 1 );
	MC_EQ( d, h, "documents folder" ); MC_EQ( c, h + "/.config", "configuration folder" ); mc::state( h ); mc::outcome( h );
}
MC_SCENARIO( tables ) {
	static double( *const fs[] )( double ) = { square, line, third, one }; int k = mc::choose( 5 ), n = mc::range( 2, mc::bound( 9, 17 ) ), r = mc::choose( 4 ); bool standard = n == 2 && mc::flip(); const double lo[] = { 0, -3, 1000, 2 }, hi[] = { 1, 5, 1001, -2 }; string fn = "table_" + std::to_string( getpid() ); MC_STEP( "table of function " << k << " with " << n << " samples over range " << r ); if ( standard ) n = 101;
	if ( k == 4 ) { if ( standard ) flut::output_function< float >( flut::path( fn ), float( lo[ r ] ), float( hi[ r ] ), squaref ); else flut::output_function< float >( flut::path( fn ), float( lo[ r ] ), float( hi[ r ] ), squaref, n ); } else if ( standard ) flut::output_function< double >( flut::path( fn ), lo[ r ], hi[ r ], fs[ k ] ); else flut::output_function< double >( flut::path( fn ), lo[ r ], hi[ r ], fs[ k ], n );
	string text = slurp( fn ); unlink( fn.c_str() ); std::istringstream in( text ); string line; int rows = 0; while ( std::getline( in, line ) ) { mc::step(); long double x = lo[ r ] + ( hi[ r ] - lo[ r ] ) * (long double)rows / ( n - 1 ), y = k == 4 ? x * x : fs[ k ]( double( x ) ); double gx, gy; char tab; MC_CHECK( sscanf( line.c_str(), "%lf%c%lf", &gx, &tab, &gy ) == 3 && tab == '\t', "row " << rows << " is " << mc::show( line ) ); auto ok = []( double g, long double w ) { return std::abs( g - w ) <= 1e-5L * ( std::abs( w ) + 0.1L ); }; MC_CHECK( ok( gx, x ) && ok( gy, y ), "row " << rows << " is " << mc::show( line ) << ", expected " << double( x ) << " and " << double( y ) ); ++rows; }
	MC_EQ( rows, n, "rows of the table" ); mc::state( std::to_string( k * 1000 + n * 4 + r ) ); mc::outcome( text );
}
}
