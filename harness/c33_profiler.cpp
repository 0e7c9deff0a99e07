// C33 profiler
// MC-SOURCES: flut/system/profiler.cpp flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-FLAGS: -std=c++17
// MC-TECHNIQUE: exhaustive enumeration of well-nested histories on the real code under a controlled clock (intercepted clock calls), against a tree of sums
// MC-BOUNDS: all histories of at most 8 (quick) or 10 (thorough) events: entering one of 3 sections (one name spelled at two addresses), leaving, advancing the clock by 10 or 70 ms, reports and resets at the outermost level; all well-nested histories of at most 6 (7) scoped sections; 1..40 and up to 257 sections at one level and nested; calls from another thread at each point; all pairs of 17 similar names; sections of up to an hour in every order
// MC-ORACLE: tree of names with summed times
// MC-ASSUMES: reports and resets happen outside all sections; reported milliseconds are rounded and percentages have two decimals
#include "gen.hpp"
#include "clock.hpp"
#include <thread>
#include "flut/system/assert.hpp"
#include "flut/system/profiler.hpp"
#include "flut/string_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
struct stop_clock { ~stop_clock() { clk::active = false; } };
struct node { string name; long long t = 0; vector< node > sub; node* child( const string& n ) { for ( auto& c : sub ) if ( c.name == n ) return &c; sub.emplace_back(); sub.back().name = n; return &sub.back(); } };
static string a1 = "alpha", a2 = "alpha", bb = "b.eta", cc = "TOTAL";
static void compare( const string& name, const prop_node& p, const node& m, long long total ) {
	string v = p.get_value(); double ms = -1, rel = -1, ex = -1; int got = sscanf( v.c_str(), "%lfms %lf%% (%lf%% exclusive", &ms, &rel, &ex ); MC_CHECK( got == 3, "report line " << v );
	long long sub = 0; for ( auto& c : m.sub ) sub += c.t;
	MC_CHECK( std::abs( ms - m.t / 1e6 ) <= 0.5001, "time of " << name << " is " << v << ", expected " << m.t / 1e6 << "ms" );
	if ( total > 0 ) { MC_CHECK( std::abs( rel - 100.0 * m.t / total ) <= 0.0051, "share of " << name << " is " << v << ", expected " << 100.0 * m.t / total << "%" ); MC_CHECK( std::abs( ex - 100.0 * ( m.t - sub ) / total ) <= 0.0051, "exclusive share of " << name << " is " << v << ", expected " << 100.0 * ( m.t - sub ) / total << "%" ); }
	MC_EQ( p.size(), m.sub.size(), "number of sections below " << name ); long long last = -1;
	for ( auto& e : p ) { const node* k = nullptr; for ( auto& c : m.sub ) if ( c.name == e.first ) k = &c; MC_CHECK( k, "section " << e.first << " reported below " << name << " was not executed there" ); MC_CHECK( last < 0 || k->t <= last, "section " << e.first << " below " << name << " is listed after a shorter one" ); last = k->t; compare( name + "/" + e.first, e.second, *k, total ); }
	for ( auto& c : m.sub ) { int n = 0; for ( auto& e : p ) n += e.first == c.name; MC_CHECK( n == 1, "section " << c.name << " below " << name << " reported " << n << " times" ); }
}
static void check( const node& m, long long total ) { auto r = profiler::instance().report(); MC_EQ( r.size(), size_t( 1 ), "roots in the report" ); node root = m; root.t = total; compare( r.begin()->first, r.begin()->second, root, total ); }
static string show_tree( const node& n ) { string s = n.name + std::to_string( n.t / 1000000 ); if ( !n.sub.empty() ) { s += "("; for ( auto& c : n.sub ) s += show_tree( c ) + ","; s += ")"; } return s; }
MC_SCENARIO_SPLIT( nested, 4 ) {
	stop_clock sc; clk::start( 55000000000ll, 1500000000000000000ll ); auto& p = profiler::instance(); p.reset(); long long begin = clk::mono; node root; vector< string > open; vector< long long > since; const char* names[] = { a1.c_str(), a2.c_str(), bb.c_str(), cc.c_str() }; int left = mc::bound( 8, 10 );
	auto at = [&]( size_t d ) { node* n = &root; for ( size_t i = 0; i < d; ++i ) n = n->child( open[ i ] ); return n; };
	while ( left > 0 ) {
		int must = int( open.size() ); bool room = must + 2 <= left, adv = must + 1 <= left; int c;
		if ( room ) c = mc::choose( open.empty() ? 4 + 2 + 2 : 4 + 2 + 1 ); else if ( adv && !open.empty() ) c = 4 + mc::choose( 3 ); else if ( adv ) c = 4 + mc::choose( 2 ); else c = 6; --left;
		if ( c < 4 ) { MC_STEP( "enter " << names[ c ] << ( c == 1 ? " (other address)" : "" ) ); p.start_section( names[ c ] ); open.push_back( names[ c ] ); at( open.size() ); since.push_back( clk::mono ); }
		else if ( c < 6 ) { long long d = c == 4 ? 10000000 : 70000000; MC_STEP( "advance " << d / 1000000 << " ms" ); clk::advance( d ); }
		else if ( !open.empty() ) { MC_STEP( "leave " << open.back() ); p.end_section(); at( open.size() )->t += clk::mono - since.back(); open.pop_back(); since.pop_back(); }
		else if ( c == 6 ) { MC_STEP( "report" ); check( root, clk::mono - begin ); }
		else { MC_STEP( "reset" ); p.reset(); root = node(); begin = clk::mono; }
	}
	check( root, clk::mono - begin ); string s = show_tree( root ); mc::state( s + std::to_string( clk::mono - begin ) ); mc::outcome( s );
	check( root, clk::mono - begin );
}
static void scoped( int& left, int depth, node* m ) {
	while ( left > 0 && mc::choose( 2 ) ) {
		--left; int k = mc::choose( 2 ); MC_STEP( "scoped section " << ( k ? "b" : "a" ) << " at depth " << depth ); const char* n = k ? "b" : "a"; node* c = m->child( n ); size_t at = size_t( c - &m->sub[ 0 ] ); long long t0 = clk::mono;
		{ scoped_section_profiler s( n ); clk::advance( 11000000ll << left ); scoped( left, depth + 1, &m->sub[ at ] ); }
		m->sub[ at ].t += clk::mono - t0; clk::advance( 3000000 );
	}
}
MC_SCENARIO_SPLIT( scopes, 5 ) {
	stop_clock sc; clk::start( 1000, 0 ); profiler::instance().reset(); long long b = clk::mono; node root; int left = mc::bound( 6, 7 ); scoped( left, 0, &root ); check( root, clk::mono - b ); mc::state( show_tree( root ) ); mc::outcome( show_tree( root ) );
}
MC_SCENARIO_SPLIT( many, 2 ) {
	stop_clock sc; clk::start( 1000, 0 ); auto& p = profiler::instance(); p.reset(); long long b = clk::mono; int n = mc::range( 1, 45 ); static const int big[] = { 64, 65, 100, 128, 257 }; if ( n > 40 ) n = big[ n - 41 ]; bool deep = mc::flip(); static vector< string > names; while ( names.size() < 300 ) names.push_back( "s" + std::to_string( names.size() ) ); node root; MC_STEP( n << ( deep ? " nested" : " parallel" ) << " sections" );
	for ( int round = 0; round < 2; ++round ) {
		if ( deep ) { node* m = &root; vector< node* > path; vector< long long > t; for ( int i = 0; i < n; ++i ) { p.start_section( names[ i ].c_str() ); m = m->child( names[ i ] ); path.push_back( m ); t.push_back( clk::mono ); clk::advance( 1000000 ); } for ( int i = n; i-- > 0; ) { clk::advance( 2000000 ); p.end_section(); path[ i ]->t += clk::mono - t[ i ]; } }
		else for ( int i = 0; i < n; ++i ) { p.start_section( names[ ( i * 7 ) % n ].c_str() ); clk::advance( ( ( i * 5 ) % n + 1 ) * 1000000ll ); p.end_section(); root.child( names[ ( i * 7 ) % n ] )->t += ( ( i * 5 ) % n + 1 ) * 1000000ll; }
	}
	check( root, clk::mono - b ); mc::state( n * 2 + deep ); mc::outcome( n );
}
MC_SCENARIO_SPLIT( other_thread, 1 ) {
	int at = mc::choose( 3 ), what = mc::choose( 3 ); stop_clock sc; clk::start( 1000, 0 ); auto& p = profiler::instance(); p.reset(); long long b = clk::mono; node root; MC_STEP( "call " << what << " from another thread with " << at << " open sections" );
	for ( int i = 0; i < at; ++i ) { p.start_section( i ? "y" : "x" ); clk::advance( 5000000 ); }
	bool threw = false; std::thread t( [&] { try { if ( what == 0 ) p.start_section( "z" ); else if ( what == 1 ) p.end_section(); else p.report(); } catch ( std::exception& ) { threw = true; } } ); t.join();
	MC_CHECK( threw, "use from another thread was not rejected" );
	for ( int i = at; i-- > 0; ) p.end_section(); if ( at > 0 ) root.child( "x" )->t = 5000000 * at; if ( at > 1 ) root.child( "x" )->child( "y" )->t = 5000000; check( root, clk::mono - b ); mc::state( at * 3 + what ); mc::outcome( what );
}
MC_SCENARIO_SPLIT( repeated, 2 ) { // one section entered many times, alone or around another one
	stop_clock sc; clk::start( 1000, 0 ); auto& p = profiler::instance(); p.reset(); long long b = clk::mono; int n = mc::pick( { 2, 10, 100, 255, 256, 257, 1000, 3000 } ), how = mc::choose( 3 ); long long d = mc::pick( { 1000ll, 1000000ll, 60000000000ll } ); node root; MC_STEP( n << " entries of " << d << " ns, way " << how );
	for ( int i = 0; i < n; ++i ) { p.start_section( a1.c_str() ); clk::advance( d ); root.child( "alpha" )->t += d; if ( how ) { const char* in = how == 1 ? bb.c_str() : a2.c_str(); p.start_section( in ); clk::advance( d ); p.end_section(); root.child( "alpha" )->child( in )->t += d; root.child( "alpha" )->t += d; } p.end_section(); if ( i % 100 == 99 && how == 2 ) { check( root, clk::mono - b ); } }
	check( root, clk::mono - b ); mc::state( uint64_t( n * 100 + how * 10 ) + ( d > 1000 ) + ( d > 1000000 ) );
}
MC_SCENARIO_SPLIT( similar_names, 2 ) { // names that share prefixes or suffixes, or differ in case or in one character, are different sections
	static const vector< string > ns = { "section_one", "section_two", "section_on", "section_one_", "section one", "Section_one", "s", "ss", "", "_one", "one", "update::step", "update::stop", "update", "update.step", "update.stop", "update/step", string( 100, 'x' ), string( 99, 'x' ) + "y", string( 300, 'x' ) }; int a = mc::choose( int( ns.size() ) ), b = mc::choose( int( ns.size() ) ), nest = mc::choose( 3 ), rounds = mc::range( 1, 2 ); const string &A = ns[ a ], &B = ns[ b ]; stop_clock sc; clk::start( 1000, 0 ); auto& p = profiler::instance(); p.reset(); long long t0 = clk::mono; node root; MC_STEP( "sections '" << A << "' and '" << B << "', way " << nest );
	for ( int r = 0; r < rounds; ++r ) {
		if ( nest == 0 ) { p.start_section( A.c_str() ); clk::advance( 3000000 ); p.end_section(); p.start_section( B.c_str() ); clk::advance( 5000000 ); p.end_section(); root.child( A )->t += 3000000; root.child( B )->t += 5000000; }
		else { p.start_section( A.c_str() ); clk::advance( 2000000 ); p.start_section( B.c_str() ); clk::advance( 4000000 ); p.end_section(); if ( nest == 2 ) { p.start_section( A.c_str() ); clk::advance( 1000000 ); p.end_section(); } p.end_section(); root.child( A )->t += nest == 2 ? 7000000 : 6000000; root.child( A )->child( B )->t += 4000000; if ( nest == 2 ) root.child( A )->child( A )->t += 1000000; }
	}
	check( root, clk::mono - t0 ); mc::state( uint64_t( a * 1000 + b * 10 + nest * 2 + rounds ) );
}
MC_SCENARIO( long_times ) { // subsections of up to hours, in order of decreasing time
	static const long long ts[] = { 5000000ll, 2000000000ll, 2200000000ll, 3000000000ll, 4300000000ll, 9000000000ll, 3600000000000ll }; stop_clock sc; clk::start( 1000, 0 ); auto& p = profiler::instance(); p.reset(); long long b = clk::mono; node root; string h; bool deep = mc::flip(); long long t0 = clk::mono; if ( deep ) p.start_section( "outer" ); node* m = deep ? root.child( "outer" ) : &root;
	static const char* const names[] = { "a", "b", "c" }; long long used[ 3 ]; for ( int i = 0; i < 3; ++i ) { used[ i ] = ts[ mc::choose( 7 ) ]; for ( int k = 0; k < i; ++k ) if ( used[ k ] == used[ i ] ) mc::discard(); h += " " + std::to_string( used[ i ] / 1000000 ); MC_STEP( "section " << names[ i ] << " of " << used[ i ] / 1000000 << " ms" ); p.start_section( names[ i ] ); clk::advance( used[ i ] ); p.end_section(); m->child( names[ i ] )->t += used[ i ]; }
	if ( deep ) { p.end_section(); root.child( "outer" )->t += clk::mono - t0; } check( root, clk::mono - b ); mc::state( h + ( deep ? "d" : "" ) ); mc::outcome( h );
}
}
