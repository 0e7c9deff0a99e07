// C34 test framework
// MC-SOURCES: flut/system/test_framework.cpp flut/system/log.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp
// MC-BOUNDS: all sequences of at most 8 (quick) or 9 (thorough) events out of passing check, failing check, check with message, reset, report and switching the display of passed checks, on a local framework and on the global one through the macros; runs of up to 65537 checks
// MC-ORACLE: three counters and the list of expected log lines
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/test_framework.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
struct rec : log::sink { vector< std::pair< int, string > > got; rec() : log::sink( log::trace_level ) {} void send_log_message( log::level l, const string& m ) override { got.push_back( { int( l ), m } ); } };
static int macro_report() { return FLUT_TEST_REPORT(); }
MC_SCENARIO_SPLIT( tallies, 3 ) {
	rec r; bool global = mc::flip(); test_framework local; test_framework& t = global ? test_framework::get_instance() : local; if ( global ) { t.num_tests = t.num_passed = t.num_failed = 0; t.show_passed = false; } int tests = 0, pass = 0, fail = 0; bool show = false; int n = mc::bound( 8, 9 ); string st;
	for ( int i = 0; i < n; ++i ) {
		r.got.clear();
		switch ( mc::choose( 6 ) ) {
		case 0: { MC_STEP( "passing check" ); bool v = global ? FLUT_TEST( i >= 0 ) : t.test( "i >= 0", true ); ++tests; ++pass; MC_CHECK( v, "passing check returned false" ); MC_EQ( int( r.got.size() ), int( show ), "messages after a passing check" ); if ( show ) MC_CHECK( r.got[ 0 ].second.find( "i >= 0" ) != string::npos && r.got[ 0 ].first == log::info_level, "passing check logged as " << r.got[ 0 ].second ); break; }
		case 1: { MC_STEP( "failing check" ); bool v = global ? FLUT_TEST( i < 0 ) : t.test( "i < 0", false ); ++tests; ++fail; MC_CHECK( !v, "failing check returned true" ); MC_EQ( int( r.got.size() ), 1, "messages after a failing check" ); MC_CHECK( r.got[ 0 ].second.find( "i < 0" ) != string::npos && r.got[ 0 ].first == log::error_level, "failing check logged as " << r.got[ 0 ].second ); break; }
		case 2: { MC_STEP( "failing check with message" ); bool v = global ? FLUT_TEST_MSG( i < 0, "reason" ) : t.test( "i < 0", false, "reason" ); ++tests; ++fail; MC_CHECK( !v, "failing check returned true" ); MC_EQ( int( r.got.size() ), 1, "messages after a failing check" ); MC_CHECK( r.got[ 0 ].second.find( "reason" ) != string::npos && r.got[ 0 ].second.find( "i < 0" ) != string::npos && r.got[ 0 ].first == log::error_level, "failing check logged as " << r.got[ 0 ].second ); break; }
		case 3: MC_STEP( "reset" ); { t.reset(); bool kept = fail > 0 && t.num_failed == fail && t.num_tests == fail && t.num_passed == fail; /* known finding: see known_reset */ if ( kept ) tests = pass = fail; else tests = pass = fail = 0; break; }
		case 4: { MC_STEP( "report" ); int v = global ? macro_report() : t.report(); MC_EQ( v != 0, fail > 0, "verdict of the report" ); MC_EQ( int( r.got.size() ), 1, "messages of a report" ); string m = r.got[ 0 ].second; vector< int > num; for ( size_t k = 0; k < m.size(); ) if ( isdigit( m[ k ] ) ) { num.push_back( atoi( m.c_str() + k ) ); while ( k < m.size() && isdigit( m[ k ] ) ) ++k; } else ++k;
			auto has = [&]( const string& what ) { size_t p = m.find( what ); MC_CHECK( p != string::npos, "report " << m ); while ( p > 0 && !isdigit( m[ p - 1 ] ) ) --p; size_t q = p; while ( q > 0 && isdigit( m[ q - 1 ] ) ) --q; return atoi( m.substr( q, p - q ).c_str() ); };
			MC_EQ( has( " performed" ), tests, "performed in " << m ); MC_EQ( has( " failed" ), fail, "failed in " << m ); MC_EQ( has( " passed" ), pass, "passed in " << m ); MC_EQ( r.got[ 0 ].first, int( fail ? log::error_level : log::info_level ), "level of the report" ); break; }
		case 5: show = !show; MC_STEP( "show passed " << show ); t.show_passed = show; break;
		}
		MC_EQ( t.num_tests, tests, "number of checks" ); MC_EQ( t.num_passed, pass, "number of passed checks" ); MC_EQ( t.num_failed, fail, "number of failed checks" );
		st = std::to_string( tests ) + "," + std::to_string( fail ) + ( show ? "s" : "" ) + ( global ? "g" : "" ); mc::state( st );
	}
	mc::outcome( st );
}
// known finding: a reset after a failed check keeps counting it
MC_KNOWN( known_reset ) { test_framework t; MC_STEP( "failing check" ); t.test( "i < 0", false ); MC_STEP( "reset" ); t.reset(); MC_EQ( t.num_failed, 0, "number of failed checks after a reset" ); MC_EQ( t.num_tests, 0, "number of checks after a reset" ); MC_EQ( t.report(), 0, "verdict after a reset" ); }
MC_SCENARIO_SPLIT( many_checks, 2 ) { // the verdict and the counts of long runs
	int n = mc::pick( { 10, 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 65535, 65536, 65537 } ), fails = mc::choose( 6 ), bad = fails == 0 ? 0 : fails == 1 ? 1 : fails == 2 ? n : fails == 3 ? n / 2 : fails == 4 ? std::min( n, 256 ) : std::min( n, 65536 ); rec r; test_framework t; MC_STEP( n << " checks, " << bad << " fail" ); for ( int i = 0; i < n; ++i ) { if ( i % 1000 == 0 ) { r.got.clear(); r.got.shrink_to_fit(); } bool ok = fails == 3 ? i % 2 == 0 && n - i > 0 : i >= bad; if ( fails == 3 ) ok = !( i % 2 == 1 ); t.test( "c", ok ); }
	int nf = fails == 3 ? n / 2 : bad; r.got.clear(); int v = t.report(); MC_EQ( t.num_tests, n, "number of checks" ); MC_EQ( t.num_failed, nf, "number of failed checks" ); MC_EQ( t.num_passed, n - nf, "number of passed checks" ); MC_EQ( v != 0, nf > 0, "verdict" ); MC_EQ( ( v & 255 ) != 0, nf > 0, "verdict as the exit code of a process" ); mc::state( uint64_t( n ) * 10 + fails );
}
}
