// C32 timer and stopwatch
// MC-SOURCES: flut/stopwatch.cpp flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-FLAGS: -std=c++17
// MC-TECHNIQUE: exhaustive enumeration of clock histories on the real code under a controlled clock (intercepted clock calls), against an arithmetic model
// MC-BOUNDS: all sequences of at most 6 (quick) or 7 (thorough) events out of 6 clock advances (0, 1 ns, 999999 ns, 1 ms, 1.5 s, 2 h), wall clock jumps by +1 h, -1 h and -10 years, resets, for 2 starting times; all sequences of at most 6 (7) stopwatch events over 3 labels and 3 advances, restarts, reports and wall clock jumps, with clock reads costing 0 or 2 ms; single durations up to a century; up to 257 labels; every multiple of 6 units up to 4000 from 3 starting times; reports in 10 precisions
// MC-ORACLE: arithmetic on the controlled monotonic clock
// MC-ASSUMES: reported stopwatch times have microsecond resolution
#include "gen.hpp"
#include "clock.hpp"
#include "flut/system/assert.hpp"
#include "flut/stopwatch.hpp"
#include "flut/timer.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
static const long long adv[] = { 0, 1, 999999, 1000000, 1500000000ll, 7200000000000ll }, jump[] = { 3600000000000ll, -3600000000000ll, -315360000000000000ll };
struct stop_clock { ~stop_clock() { clk::active = false; } };
static bool near( double a, double b, double tol ) { return std::abs( a - b ) <= tol + 1e-12 * std::abs( b ); }
MC_SCENARIO_SPLIT( timers, 3 ) {
	stop_clock sc; bool early = mc::flip(); clk::start( early ? 5 : 987654321012345ll, 1500000000000000000ll ); flut::timer t; long long epoch = clk::mono, prev = 0; int n = mc::bound( 6, 7 ); string st;
	timer t2; long long epoch2 = clk::mono;
	for ( int i = 0; i < n; ++i ) {
		int c = mc::choose( i + 1 < n ? 10 : 6 );
		if ( c < 6 ) { MC_STEP( "advance " << adv[ c ] << " ns" ); clk::advance( adv[ c ] ); }
		else if ( c < 9 ) { MC_STEP( "wall clock set by " << jump[ c - 6 ] << " ns" ); clk::wall += jump[ c - 6 ]; }
		else { MC_STEP( "reset" ); t.reset(); epoch = clk::mono; prev = 0; }
		long long e = clk::mono - epoch; const timer& ct = t;
		MC_EQ( ct.nanoseconds(), e, "nanoseconds" ); MC_EQ( ct.microseconds(), e / 1000, "microseconds" ); MC_EQ( ct.milliseconds(), e / 1000000, "milliseconds" ); MC_CHECK( near( ct.seconds(), e * 1e-9, 1e-15 ), "seconds " << ct.seconds() << " expected " << e * 1e-9 ); MC_CHECK( near( ct.minutes(), e * 1e-9 / 60, 1e-15 ), "minutes " << ct.minutes() ); MC_CHECK( near( ct.hours(), e * 1e-9 / 3600, 1e-15 ), "hours " << ct.hours() );
		typedef timer::timer_t::period P; long double tick_ns = 1e9L * P::num / P::den; MC_CHECK( std::abs( (long double)t.ticks() * tick_ns - e ) <= tick_ns, "ticks " << t.ticks() );
		MC_CHECK( ct.nanoseconds() >= prev, "timer ran backwards" ); prev = e; MC_EQ( t2.nanoseconds(), clk::mono - epoch2, "other timer" );
	}
	st = std::to_string( clk::mono - epoch ); mc::state( st + "/" + std::to_string( clk::wall ) ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( stopwatches, 3 ) {
	stop_clock sc; long long cost = mc::pick( { 0ll, 2000000ll } ); clk::start( 123456789000000ll, 1500000000000000000ll ); clk::per_read = cost; stopwatch w; long long begin = clk::last_read, end = begin, from = begin; static const long long a[] = { 3000000, 1250000000ll, 47000000 }; vector< string > lab = { "x", "y z", "" };
	vector< std::pair< string, long long > > want; int n = mc::bound( 6, 7 ); bool restarted = false; string st;
	for ( int i = 0; i < n; ++i ) {
		int c = mc::choose( i + 1 == n ? 3 : 3 + 3 + 1 + 1 );
		if ( c < 3 ) { MC_STEP( "measure " << lab[ c ] ); w.add_measure( lab[ c ] ); long long d = ( cost ? 0 : clk::mono - from ); auto it = std::find_if( want.begin(), want.end(), [&]( auto& p ) { return p.first == lab[ c ]; } ); if ( it == want.end() ) want.push_back( { lab[ c ], d } ); else it->second += d; from = clk::mono; end = clk::last_read; }
		else if ( c < 6 ) { MC_STEP( "advance " << a[ c - 3 ] ); clk::advance( a[ c - 3 ] ); }
		else if ( c == 6 ) { MC_STEP( "wall clock set back" ); clk::wall -= 86400000000000ll; }
		else { if ( cost ) { MC_STEP( "intermediate report" ); w.get_report(); } else { MC_STEP( "start first measure" ); w.start_first_measure(); from = clk::mono; restarted = true; } }
	}
	clk::per_read = 0; auto r = w.get_report( 6 ); MC_EQ( r.size(), want.size() + 1, "number of entries in the report" ); double sum = 0; size_t i = 0;
	for ( auto& e : r ) {
		double v = e.second.get< double >(); sum += v;
		if ( i < want.size() ) { MC_EQ( e.first, want[ i ].first, "label " << i ); if ( !cost ) MC_CHECK( near( v, want[ i ].second * 1e-9, 6e-7 ), "time of " << e.first << " is " << v << " instead of " << want[ i ].second * 1e-9 ); }
		else { MC_EQ( e.first, string( "internal" ), "last entry" ); if ( !cost ) MC_CHECK( near( v, 0, 6e-7 ), "overhead " << v << " without any" ); MC_CHECK( v >= 0, "negative overhead" ); }
		++i;
	}
	if ( cost && !want.empty() ) MC_CHECK( near( sum, ( end - begin ) * 1e-9, 3e-6 ), "reported times add up to " << sum << " instead of the elapsed " << ( end - begin ) * 1e-9 );
	for ( auto& p : want ) st += p.first + "=" + std::to_string( p.second ) + ";"; mc::state( st + std::to_string( cost ) + std::to_string( end - begin ) ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( long_durations, 2 ) { // up to centuries, in steps or at once
	static const long long day = 86400000000000ll, ds[] = { 1, 999, 1000, 999999999ll, 1000000000ll, 59999999999ll, 60000000000ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 2147483647000ll, 2147483648000ll, 3600000000000ll, 4294967296000ll, day, 25 * day, 50 * day, 365 * day, 3650 * day, 36500 * day }; stop_clock sc; bool early = mc::flip(); clk::start( early ? 0 : 987654321012345ll, 1500000000000000000ll ); timer t; long long d = mc::pick( vector< long long >( std::begin( ds ), std::end( ds ) ) ); int parts = mc::pick( { 1, 2, 100 } ), jumped = mc::choose( 3 ); MC_STEP( "advance by " << d << " ns in " << parts << " parts" ); long long e = 0;
	for ( int i = 0; i < parts; ++i ) { long long step = d * ( i + 1 ) / 100 * 0 + ( i + 1 == parts ? d - e : d / parts ); clk::advance( step ); e += step; if ( jumped == 1 ) clk::wall -= day; if ( jumped == 2 ) clk::wall += 400 * day; MC_EQ( t.nanoseconds(), e, "nanoseconds" ); MC_EQ( t.microseconds(), e / 1000, "microseconds" ); MC_EQ( t.milliseconds(), e / 1000000, "milliseconds" ); MC_CHECK( near( t.seconds(), e * 1e-9, 1e-15 ) && near( t.minutes(), e * 1e-9 / 60, 1e-15 ) && near( t.hours(), e * 1e-9 / 3600, 1e-15 ), "elapsed " << e << " ns reported as " << t.seconds() << " s, " << t.minutes() << " min, " << t.hours() << " h" ); }
	t.reset(); MC_EQ( t.nanoseconds(), 0ll, "after reset" ); mc::state( std::to_string( d ) + "/" + std::to_string( parts * 6 + jumped * 2 + early ) );
}
MC_SCENARIO_SPLIT( many_labels, 2 ) {
	int n = mc::pick( { 4, 7, 8, 9, 16, 17, 33, 65, 100, 129, 257 } ), rounds = mc::range( 1, 3 ); long long unit = mc::pick( { 1000000ll, 1000000000ll, 3600000000000ll } ); stop_clock sc; clk::start( 5000, 0 ); stopwatch w; vector< long long > want( n ); MC_STEP( n << " labels, " << rounds << " rounds, unit " << unit );
	for ( int r = 0; r < rounds; ++r ) for ( int i = 0; i < n; ++i ) { int k = r == 1 ? n - 1 - i : i; long long d = ( ( i * 7 ) % 11 ) * unit; clk::advance( d ); w.add_measure( "label " + std::to_string( k ) ); want[ k ] += d; }
	auto rep = w.get_report( 6 ); MC_EQ( rep.size(), size_t( n + 1 ), "entries" ); int i = 0; for ( auto& e : rep ) { if ( i == n ) { MC_EQ( e.first, string( "internal" ), "last entry" ); MC_CHECK( near( e.second.get< double >(), 0, 6e-7 ), "overhead without any" ); } else { MC_EQ( e.first, "label " + std::to_string( i ), "entry " << i ); MC_CHECK( near( e.second.get< double >(), want[ i ] * 1e-9, 6e-7 ), "time of " << e.first << " is " << e.second.get_value() << ", expected " << want[ i ] * 1e-9 ); } ++i; } mc::state( uint64_t( n ) * 100 + rounds * 10 + ( unit > 1000000 ) + ( unit > 1000000000 ) );
}
MC_SCENARIO( units ) { // every whole and half microsecond, millisecond and second up to some thousands, from three starting times
	long long unit = mc::pick( { 500ll, 1000ll, 500000ll, 1000000ll, 1000000000ll, 60000000000ll } ); int block = mc::choose( 8 ); long long at = mc::pick( { 0ll, 987654321012345ll, 1234567ll } ), off = mc::pick( { 0ll, 1ll, -1ll } ); stop_clock sc; clk::start( at, 1500000000000000000ll ); timer t; long long base = clk::mono; MC_STEP( "multiples of " << unit << " ns" << ( off ? off > 0 ? " plus one" : " minus one" : "" ) );
	for ( int i = 1; i <= 500; ++i ) { long long e = ( block * 500 + i ) * unit + off; clk::advance( base + e - clk::mono ); MC_EQ( t.nanoseconds(), e, "nanoseconds" ); MC_EQ( t.microseconds(), e / 1000, "microseconds after " << e << " ns" ); MC_EQ( t.milliseconds(), e / 1000000, "milliseconds after " << e << " ns" ); MC_CHECK( near( t.seconds(), e * 1e-9, 1e-15 ), "seconds " << t.seconds() << " after " << e << " ns" ); } mc::state( uint64_t( unit ) * 100 + block * 9 + ( off + 1 ) * 3 + ( at ? at > 2000000 ? 2 : 1 : 0 ) );
}
MC_SCENARIO( formatting ) { // a report in any precision leaves the formatting of other numbers alone
	int prec = mc::range( 0, 9 ), n = mc::range( 0, 3 ), twice = mc::choose( 2 ); stop_clock sc; clk::start( 5000, 0 ); stopwatch w; string before = to_str( 1.0 / 3 ) + to_str( 2e7 / 3 ); int tp = to_str_precision(); for ( int i = 0; i < n; ++i ) { clk::advance( 1234567891ll ); w.add_measure( i == 1 ? "b" : "a" ); } MC_STEP( "report in precision " << prec << " of " << n << " measures" );
	for ( int r = 0; r <= twice; ++r ) { auto p = w.get_report( prec ); MC_EQ( p.size(), size_t( 1 + std::min( n, 2 ) ), "entries" ); if ( n ) { double t = n == 3 ? 2.469135782 : 1.234567891, v = p.get< double >( "a" ); MC_CHECK( std::abs( v - t ) <= 0.51 * std::pow( 10.0, -std::min( prec, 6 ) ), "time " << p.get< string >( "a" ) << " in precision " << prec << " instead of " << t ); } MC_EQ( to_str( 1.0 / 3 ) + to_str( 2e7 / 3 ), before, "numbers formatted after the report" ); MC_EQ( to_str_precision(), tp, "precision after the report" ); } mc::state( uint64_t( prec * 10 + n * 2 + twice ) );
}
}
