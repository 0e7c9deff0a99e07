// C28 log delivery
// MC-SOURCES: flut/system/log.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp
// MC-BOUNDS: all sequences of at most 4 (quick) or 5 (thorough) operations (create at any level, destroy, register, unregister, set level, set global level) over 3 sinks and 5 levels, with one message of every level by every calling form after each; all message lengths 0..300 and every length within 3 of each power of two up to 65536, by every form; all lists of at most 3 streamed arguments of 6 types; up to 65 sinks destroyed in 4 orders; up to 3000 messages; the same text up to 300 times; all pairs of 22 special texts (empty, null characters, line ends, conversion characters) by 5 forms; 14 formats of 6 integers and 7 reals; a sink that logs up to 4 messages of its own; a sink that adds up to 9 sinks, removes, destroys or relevels a sink (itself included) while receiving a message, with up to 2 sinks before and after it
// MC-ORACLE: set of registered sinks with their levels; each sink records what it receives
// MC-ASSUMES: message levels are trace..critical; the global level is compared when some registered sink accepts at least critical messages
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
typedef std::pair< int, string > M;
struct rec : log::sink { vector< M > got; rec( log::level l ) : log::sink( l ) {} rec() : log::sink() {} void send_log_message( log::level l, const string& m ) override { got.push_back( { int( l ), m } ); } };
static string text( const vector< M >& v ) { string s; for ( auto& x : v ) s += std::to_string( x.first ) + ":" + ( x.second.size() > 40 ? x.second.substr( 0, 20 ) + "..(" + std::to_string( x.second.size() ) + ")" : x.second ) + " "; return s; }
static const log::level all_levels[] = { log::trace_level, log::debug_level, log::info_level, log::warning_level, log::error_level, log::critical_level };
static void say( int form, log::level l, const string& m, int n ) {
	switch ( form ) {
	case 0: log::message( l, m, n ); return;
	case 1: log::messagef( l, "%s%d", m.c_str(), n ); return;
	case 2: switch ( l ) { case log::trace_level: log::trace( m, n ); break; case log::debug_level: log::debug( m, n ); break; case log::info_level: log::info( m, n ); break; case log::warning_level: log::warning( m, n ); break; case log::error_level: log::error( m, n ); break; default: log::critical( m, n ); } return;
	case 3: { const char* c = m.c_str(); switch ( l ) { case log::trace_level: log::tracef( "%s%d", c, n ); break; case log::debug_level: log::debugf( "%s%d", c, n ); break; case log::info_level: log::infof( "%s%d", c, n ); break; case log::warning_level: log::warningf( "%s%d", c, n ); break; case log::error_level: log::errorf( "%s%d", c, n ); break; default: log::criticalf( "%s%d", c, n ); } return; }
	default: log::log_string( l, m + std::to_string( n ) );
	}
}
MC_SCENARIO_SPLIT( deliveries, 3 ) {
	std::unique_ptr< rec > s[ 3 ]; int lev[ 3 ] = {}; bool reg[ 3 ] = {}; vector< M > want[ 3 ];
	static const log::level ls[] = { log::trace_level, log::info_level, log::warning_level, log::critical_level, log::never_log_level };
	int n = mc::bound( 4, 5 ), no = 0;
	auto probe = [&] {
		for ( int form = 0; form < 5; ++form ) for ( auto l : all_levels ) {
			++no; say( form, l, "m", no );
			for ( int i = 0; i < 3; ++i ) if ( s[ i ] ) {
				if ( reg[ i ] && int( l ) >= lev[ i ] ) want[ i ].push_back( { int( l ), "m" + std::to_string( no ) } );
				MC_CHECK( s[ i ]->got == want[ i ], "message at level " << int( l ) << " by form " << form << ": sink " << i << " at level " << lev[ i ] << ( reg[ i ] ? "" : " (unregistered)" ) << " received " << text( s[ i ]->got ) << "instead of " << text( want[ i ] ) );
			}
		}
		for ( int i = 0; i < 3; ++i ) { if ( s[ i ] ) { MC_EQ( int( s[ i ]->get_log_level() ), lev[ i ], "level of sink " << i ); s[ i ]->got.clear(); } want[ i ].clear(); }
		int low = 99; for ( int i = 0; i < 3; ++i ) if ( s[ i ] && reg[ i ] ) low = std::min( low, lev[ i ] );
		if ( low <= log::critical_level ) { for ( auto l : all_levels ) MC_EQ( log::test_log_level( l ), int( l ) >= low, "test_log_level " << int( l ) ); MC_EQ( int( log::get_global_log_level() ), low, "global level" ); }
	};
	auto count = [&]( auto f ) { int c = 0; for ( int i = 0; i < 3; ++i ) c += bool( f( i ) ); return c; };
	auto nth = [&]( auto f, int k ) { for ( int i = 0; i < 3; ++i ) if ( f( i ) && k-- == 0 ) return i; return -1; };
	int start = mc::choose( 2 );
	if ( start == 1 ) { s[ 0 ].reset( new rec( log::debug_level ) ); reg[ 0 ] = true; lev[ 0 ] = log::debug_level; s[ 1 ].reset( new rec() ); reg[ 1 ] = true; lev[ 1 ] = log::info_level; MC_STEP( "two sinks at debug and info" ); }
	string st;
	for ( int k = 0; k < n; ++k ) {
		auto live = [&]( int i ) { return bool( s[ i ] ); }; auto dead = [&]( int i ) { return !s[ i ]; };
		int nl = count( live ), nd = std::min( 1, count( dead ) ), c = mc::choose( nd * 5 + nl * 8 + 5 + 1 );
		if ( c < nd * 5 ) { int i = nth( dead, 0 ); MC_STEP( "create sink " << i << " at level " << ls[ c ] ); s[ i ].reset( new rec( ls[ c ] ) ); lev[ i ] = ls[ c ]; reg[ i ] = true; }
		else if ( ( c -= nd * 5 ) < nl * 8 ) {
			int i = nth( live, c / 8 );
			switch ( c % 8 ) {
			case 0: MC_STEP( "destroy sink " << i ); s[ i ].reset(); reg[ i ] = false; break;
			case 1: MC_STEP( "unregister sink " << i ); log::remove_sink( s[ i ].get() ); reg[ i ] = false; break;
			case 2: MC_STEP( "register sink " << i ); log::add_sink( s[ i ].get() ); reg[ i ] = true; break;
			default: { auto l = ls[ c % 8 - 3 ]; MC_STEP( "set level of sink " << i << " to " << l ); s[ i ]->set_log_level( l ); lev[ i ] = l; }
			}
		}
		else if ( ( c -= nl * 8 ) < 5 ) { MC_STEP( "set global level " << ls[ c ] ); log::set_global_log_level( ls[ c ] ); for ( int i = 0; i < 3; ++i ) if ( reg[ i ] ) lev[ i ] = ls[ c ]; }
		else { MC_STEP( "nothing" ); if ( k + 1 < n ) mc::discard(); }
		probe();
		st.clear(); for ( int i = 0; i < 3; ++i ) { st += char( s[ i ] ? 'a' + lev[ i ] : '-' ); st += reg[ i ] ? '+' : '.'; } mc::state( st );
	}
	mc::outcome( st );
}
MC_SCENARIO_SPLIT( lengths, 2 ) {
	vector< int > ns; for ( int i = 0; i <= 300; ++i ) ns.push_back( i ); for ( int p = 512; p <= 65536; p *= 2 ) for ( int d = -3; d <= 3; ++d ) ns.push_back( p + d );
	int n = mc::pick( ns ), form = mc::choose( 5 ); bool pct = mc::flip(); MC_STEP( "message of " << n << " characters by form " << form );
	string m; for ( int i = 0; i < n; ++i ) m += pct && i % 5 == 2 ? '%' : pct && i % 7 == 3 ? '\n' : char( 'a' + i % 26 );
	rec a( log::trace_level ), b( log::warning_level ); std::ostringstream o; log::stream_sink c( log::info_level, o );
	say( form, log::info_level, m, 7 ); say( form, log::error_level, m + "x", 8 ); say( form, log::debug_level, "dbg", 1 );
	vector< M > wa = { { 3, m + "7" }, { 5, m + "x8" }, { 2, "dbg1" } }, wb = { { 5, m + "x8" } };
	MC_CHECK( a.got == wa, "message of " << n << " characters by form " << form << " arrived as " << text( a.got ) ); MC_CHECK( b.got == wb, "message of " << n << " characters by form " << form << " arrived as " << text( b.got ) );
	MC_CHECK( o.str() == m + "7\n" + m + "x8\n", "stream sink wrote " << mc::show( o.str() ) << " for a message of " << n << " characters by form " << form );
	mc::state( m + char( form ) ); mc::outcome( n );
}
template< int N > struct builder {
	template< typename... A > static void run( const vector< int >& k, size_t i, string& want, const A&... a ) {
		if ( i == k.size() ) { log::info( a... ); return; }
		switch ( k[ i ] ) {
		case 0: want += "txt"; builder< N - 1 >::run( k, i + 1, want, a..., "txt" ); break;
		case 1: want += "s t"; builder< N - 1 >::run( k, i + 1, want, a..., string( "s t" ) ); break;
		case 2: want += "-42"; builder< N - 1 >::run( k, i + 1, want, a..., -42 ); break;
		case 3: want += "2.5"; builder< N - 1 >::run( k, i + 1, want, a..., 2.5 ); break;
		case 4: want += "c"; builder< N - 1 >::run( k, i + 1, want, a..., 'c' ); break;
		default: builder< N - 1 >::run( k, i + 1, want, a..., string() );
		}
	}
};
template<> struct builder< 0 > { template< typename... A > static void run( const vector< int >& k, size_t i, string& want, const A&... a ) { log::info( a... ); } };
MC_SCENARIO_SPLIT( streamed, 2 ) {
	int n = mc::range( 1, 3 ); vector< int > k; for ( int i = 0; i < n; ++i ) k.push_back( mc::choose( 6 ) );
	rec a( log::trace_level ); string want; builder< 3 >::run( k, 0, want ); MC_STEP( "streamed arguments giving " << want );
	vector< M > w = { { 3, want } }; MC_CHECK( a.got == w, "streamed " << want << " arrived as " << text( a.got ) ); mc::state( want ); mc::outcome( want );
}
MC_SCENARIO_SPLIT( many_sinks, 2 ) { // created at rotating levels, destroyed in four orders, one message of every level after each change
	int n = mc::pick( { 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 32, 33, 40, 64, 65 } ), order = mc::choose( 4 ), lv = mc::choose( 3 ); vector< std::unique_ptr< rec > > s; int no = 0; MC_STEP( n << " sinks, destroyed in order " << order );
	auto probe = [&] { for ( auto l : all_levels ) { ++no; say( no % 5, l, "n", no ); for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] ) { bool want = int( l ) >= int( s[ i ]->get_log_level() ); MC_CHECK( s[ i ]->got.size() == size_t( want ) && ( !want || s[ i ]->got[ 0 ] == M( int( l ), "n" + std::to_string( no ) ) ), "sink " << i << " of " << n << " at level " << int( s[ i ]->get_log_level() ) << " received " << text( s[ i ]->got ) << "for a message of level " << int( l ) ); s[ i ]->got.clear(); } } };
	for ( int i = 0; i < n; ++i ) { s.emplace_back( new rec( lv == 0 ? all_levels[ i % 6 ] : lv == 1 ? all_levels[ 5 - i % 6 ] : log::info_level ) ); probe(); }
	for ( int k = 0; k < n; ++k ) { int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? ( k % 2 ? n - 1 - k / 2 : k / 2 ) : -1; if ( order == 3 ) { i = ( k * 7 ) % n; while ( !s[ i ] ) i = ( i + 1 ) % n; } s[ i ].reset(); probe(); }
	mc::state( uint64_t( n * 100 + order * 10 + lv ) );
}
MC_SCENARIO_SPLIT( many_messages, 2 ) {
	int n = mc::pick( { 100, 256, 257, 1000, 1025, 3000 } ), form = mc::choose( 5 ); rec a( log::trace_level ), b( log::error_level ); vector< M > wa, wb; MC_STEP( n << " messages by form " << form ); for ( int i = 0; i < n; ++i ) { auto l = all_levels[ ( i * 5 ) % 6 ]; string t( i % 50, char( 'a' + i % 26 ) ); say( form, l, t, i ); wa.push_back( { int( l ), t + std::to_string( i ) } ); if ( l >= log::error_level ) wb.push_back( wa.back() ); }
	MC_CHECK( a.got == wa && b.got == wb, "of " << n << " messages " << a.got.size() << " arrived at the first and " << b.got.size() << " at the second sink, or in another order" ); mc::state( uint64_t( n * 10 + form ) );
}
MC_SCENARIO_SPLIT( repeated, 2 ) { // the same text many times is delivered as often
	int n = mc::pick( { 1, 2, 3, 4, 5, 10, 100, 300 } ), form = mc::choose( 5 ); bool same = mc::flip(); rec a( log::trace_level ); vector< M > w; MC_STEP( "the same text " << n << " times by form " << form ); for ( int i = 0; i < n; ++i ) { auto l = same ? log::info_level : all_levels[ i % 6 ]; say( form, l, "again ", 1 ); w.push_back( { int( l ), "again 1" } ); } MC_CHECK( a.got == w, "the same text logged " << n << " times arrived " << a.got.size() << " times" ); mc::state( uint64_t( n * 20 + form * 2 + same ) );
}
MC_SCENARIO( special_texts ) { // texts with null characters, line ends, conversions and nothing at all
	static const vector< string > ts = { "", string( 1, '\0' ), string( "a\0b", 3 ), string( "\0x", 2 ), string( "x\0", 2 ), "\n", "a\n", "a\n\n", "\r\n", " ", "  a  ", "%", "%%", "%d", "%s%s", "%n", "\t", "\x1b[0m", "\xff\xfe", "\xc3\xa9", "\\n", "{}" };
	string t = mc::pick( ts ), u = mc::pick( ts ); int form = mc::choose( 5 ); auto l = mc::pick( { log::info_level, log::error_level } ); bool zero = t.find( '\0' ) != string::npos || u.find( '\0' ) != string::npos; MC_STEP( "message " << mc::show( t ) << " then " << mc::show( u ) << " by form " << form );
	rec a( log::trace_level ); std::ostringstream o; log::stream_sink c( log::trace_level, o );
	for ( auto& m : { t, u } ) switch ( form ) {
	case 0: log::message( l, m ); break;
	case 1: log::log_string( l, m ); break;
	case 2: if ( zero ) { if ( l == log::info_level ) log::info( m ); else log::error( m ); } else if ( l == log::info_level ) log::infof( "%s", m.c_str() ); else log::errorf( "%s", m.c_str() ); break;
	case 3: if ( m.size() == 3 && m[ 1 ] == 0 ) log::messagef( l, "%c%c%c", m[ 0 ], m[ 1 ], m[ 2 ] ); else if ( m.size() == 2 ) log::messagef( l, "%c%c", m[ 0 ], m[ 1 ] ); else if ( m.size() == 1 ) log::messagef( l, "%c", m[ 0 ] ); else log::messagef( l, "%s", m.c_str() ); break;
	default: if ( m.find( '%' ) == string::npos && !zero ) log::messagef( l, m.c_str() ); else { const string& r = m; log::message( l, r ); }
	}
	vector< M > w = { { int( l ), t }, { int( l ), u } }; MC_CHECK( a.got == w, "messages " << mc::show( t ) << ", " << mc::show( u ) << " by form " << form << " arrived as " << mc::show( text( a.got ) ) ); MC_CHECK( o.str() == t + "\n" + u + "\n", "stream sink wrote " << mc::show( o.str() ) << " for " << mc::show( t ) << ", " << mc::show( u ) ); mc::state( t + char( 1 ) + u + char( form ) ); mc::outcome( t );
}
MC_SCENARIO( conversions ) { // formatted messages agree with the C library
	int k = mc::choose( 14 ), n = mc::pick( { 0, 1, -1, 42, 2147483647, -2147483647 - 1 } ); double d = mc::pick( { 0.0, 1.5, -2.25, 1e-9, 1e300, -0.0, 123456.789 } ); rec a( log::trace_level ); string want; char b[ 1000 ]; MC_STEP( "format " << k << " of " << n << " and " << d );
#define VH_F( ... ) { snprintf( b, sizeof( b ), __VA_ARGS__ ); want = b; log::messagef( log::info_level, __VA_ARGS__ ); log::infof( __VA_ARGS__ ); } break
	switch ( k ) {
	case 0: VH_F( "%d", n ); case 1: VH_F( "%5d|%-5d|%05d", n, n, n ); case 2: VH_F( "%x %X %o %u", n, n, n, n ); case 3: VH_F( "%f", d ); case 4: VH_F( "%.3f %g %e", d, d, d ); case 5: VH_F( "%10.2f|%-10.2f|%+f", d, d, d ); case 6: VH_F( "%s=%d, %s=%g", "n", n, "d", d ); case 7: VH_F( "%lld %zu", (long long)n * 3, size_t( 7 ) ); case 8: VH_F( "%*d|%.*f", 12, n, 4, d ); case 9: VH_F( "100%% of %d", n ); case 10: VH_F( "%c%c%c", 'a', 'b', 'c' ); case 11: VH_F( "%.3s|%8s|%-8s|", "abcdef", "ab", "ab" ); case 12: VH_F( "%g %d %g %d %g %d %g %d %g %d", d, n, d, n, d, n, d, n, d, n ); default: VH_F( "%Lf", (long double)d );
	}
	vector< M > w = { { 3, want }, { 3, want } }; MC_CHECK( a.got == w, "formatted message " << want << " arrived as " << text( a.got ) ); mc::state( want ); mc::outcome( want );
}
struct echo : log::sink { int depth, left; vector< M > got; echo( log::level l, int d ) : log::sink( l ), depth( d ), left( 0 ) {} void send_log_message( log::level l, const string& m ) override { got.push_back( { int( l ), m } ); if ( left > 0 ) { --left; say( left % 5, log::warning_level, "nested", left ); } } };
MC_SCENARIO( nested ) { // a sink that logs messages of its own while receiving one
	int depth = mc::range( 0, 4 ), form = mc::choose( 5 ), where = mc::choose( 3 ); MC_STEP( "sink logging " << depth << " messages of its own, form " << form << ", position " << where );
	std::unique_ptr< rec > x, y; std::unique_ptr< echo > e; if ( where > 0 ) x.reset( new rec( log::trace_level ) ); e.reset( new echo( log::trace_level, depth ) ); if ( where < 2 ) y.reset( new rec( log::trace_level ) );
	vector< M > w; for ( int round = 0; round < 2; ++round ) { e->left = depth; say( form, log::info_level, "outer", round ); w.push_back( { 3, "outer" + std::to_string( round ) } ); for ( int i = depth - 1; i >= 0; --i ) w.push_back( { 4, "nested" + std::to_string( i ) } ); }
	MC_CHECK( e->got == w, "the logging sink received " << text( e->got ) << "instead of " << text( w ) ); for ( auto r : { x.get(), y.get() } ) if ( r ) { auto g = r->got; auto ww = w; std::sort( g.begin(), g.end() ); std::sort( ww.begin(), ww.end() ); MC_CHECK( g == ww, "a sink beside the logging one received " << text( r->got ) << "instead of " << text( w ) ); } mc::state( uint64_t( depth * 100 + form * 10 + where ) );
}
struct actor : log::sink { std::function< void() > act; vector< M > got; actor( log::level l ) : log::sink( l ) {} void send_log_message( log::level l, const string& m ) override { got.push_back( { int( l ), m } ); if ( act ) { auto a = std::move( act ); act = nullptr; a(); } } };
MC_SCENARIO_SPLIT( during_delivery, 3 ) { // sinks added, removed, destroyed or changed by a sink that is receiving a message
	int before = mc::range( 0, 2 ), after = mc::range( 0, 2 ), op = mc::choose( 8 ), form = mc::choose( 5 ), others = before + after, who = others ? mc::choose( others ) : 0, extra = mc::range( 1, 9 ); if ( !others && op >= 2 && op <= 5 ) mc::discard(); if ( extra > 1 && op > 1 ) mc::discard(); MC_STEP( before << " sinks before, " << after << " after, operation " << op << " on sink " << who << ", " << extra << " new, form " << form );
	vector< std::unique_ptr< rec > > o, fresh; for ( int i = 0; i < before; ++i ) o.emplace_back( new rec( log::info_level ) ); std::unique_ptr< actor > a( new actor( log::info_level ) ); for ( int i = 0; i < after; ++i ) o.emplace_back( new rec( log::info_level ) ); int changed = -1; bool gone = false; vector< M > lost;
	a->act = [&]() { switch ( op ) { case 0: case 1: for ( int i = 0; i < extra; ++i ) fresh.emplace_back( new rec( op == 0 ? log::info_level : log::error_level ) ); break; case 2: lost = o[ who ]->got; o[ who ].reset(); break; case 3: log::remove_sink( o[ who ].get() ); changed = who; break; case 4: o[ who ]->set_log_level( log::error_level ); changed = who; break; case 5: lost = o[ who ]->got; o[ who ].reset(); fresh.emplace_back( new rec( log::info_level ) ); break; case 6: log::remove_sink( a.get() ); gone = true; break; default: log::set_global_log_level( log::error_level ); } };
	say( form, log::warning_level, "one", 1 ); say( form, log::warning_level, "two", 2 ); say( form, log::error_level, "three", 3 ); const M m1( 4, "one1" ), m2( 4, "two2" ), m3( 5, "three3" ); vector< M > full = { m1, m2, m3 }; auto ends = [&]( const vector< M >& g, const vector< M >& w ) { return g == w || ( g.size() == w.size() + 1 && g[ 0 ] == m1 && vector< M >( g.begin() + 1, g.end() ) == w ); };
	if ( gone ) MC_CHECK( a->got == vector< M >{ m1 }, "the sink that removed itself received " << text( a->got ) ); else if ( op == 7 ) { MC_CHECK( ( a->got == vector< M >{ m1, m3 } ), "the acting sink received " << text( a->got ) ); } else MC_CHECK( a->got == full, "the acting sink received " << text( a->got ) );
	for ( int i = 0; i < others; ++i ) { if ( !o[ i ] ) { MC_CHECK( ends( lost, {} ), "the destroyed sink received " << text( lost ) ); continue; } vector< M > w = full; if ( i == changed ) w = op == 3 ? vector< M >{} : vector< M >{ m3 }; if ( op == 7 ) w = { m3 }; MC_CHECK( i == changed || op == 7 ? ends( o[ i ]->got, w ) : o[ i ]->got == w, "sink " << i << " received " << text( o[ i ]->got ) << "instead of " << text( w ) ); if ( ( i < before ) && ( i == changed || op == 7 ) ) MC_CHECK( o[ i ]->got.size() >= w.size(), "sink " << i << " lost a message" ); }
	for ( auto& f : fresh ) MC_CHECK( ends( f->got, op == 1 ? vector< M >{ m3 } : vector< M >{ m2, m3 } ), "a sink created meanwhile received " << text( f->got ) ); mc::state( uint64_t( ( ( ( before * 3 + after ) * 8 + op ) * 5 + form ) * 4 + who ) * 10 + extra ); mc::outcome( uint64_t( op * 10 + a->got.size() ) );
}
}
