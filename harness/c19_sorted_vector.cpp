// C19 sorted_vector
// MC-BOUNDS: all sequences of at most 7 (quick) or 8 (thorough) insertions of 3 keys, erasures at every position, erasures of ranges, and clears; every key is searched after every operation; elements carry an insertion stamp that does not take part in the ordering; long insertions of up to 65, and of 100 to 2049 around powers of two, elements in 5 orders
// MC-ORACLE: stable insertion into a list
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/sorted_vector.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
struct E { int k, stamp; bool operator<( const E& o ) const { return k < o.k; } bool operator==( const E& o ) const { return k == o.k; } };
typedef sorted_vector< E > S; typedef std::vector< E > R;
static void check( S& s, const R& r, int lo, int hi ) {
	const S& c = s; MC_EQ( s.size(), r.size(), "size" ); MC_EQ( c.empty(), r.empty(), "empty" ); size_t i = 0;
	for ( auto& e : c ) { MC_CHECK( i < r.size() && e.k == r[ i ].k && e.stamp == r[ i ].stamp, "element " << i << " is " << e.k << "#" << e.stamp ); ++i; } MC_EQ( i, r.size(), "elements visited" );
	if ( !r.empty() ) { MC_CHECK( s.front().stamp == r.front().stamp && s.back().stamp == r.back().stamp && c.front().k == r.front().k && c.back().k == r.back().k, "front or back" ); }
	for ( int k = lo; k <= hi; ++k ) {
		long x = 0; while ( x < long( r.size() ) && r[ x ].k != k ) ++x;
		MC_EQ( long( s.find( E{ k, -1 } ) - s.begin() ), x, "find " << k ); MC_EQ( long( c.find( E{ k, -1 } ) - c.begin() ), x, "constant find " << k );
	}
}
static size_t ref_insert( R& r, E e ) { size_t i = r.size(); while ( i > 0 && e.k < r[ i - 1 ].k ) --i; r.insert( r.begin() + i, e ); return i; }
MC_SCENARIO_SPLIT( histories, 4 ) {
	S s; R r; int n = mc::range( 0, mc::bound( 7, 8 ) );
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 4 + int( r.size() ) );
		if ( op < 3 ) { E e{ op, i }; MC_STEP( "insert " << op << "#" << i ); auto it = s.insert( e ); size_t x = ref_insert( r, e ); MC_EQ( size_t( it - s.begin() ), x, "position of the inserted element" ); }
		else if ( op == 3 ) { int m = mc::choose( 3 ); if ( m == 0 ) { MC_STEP( "clear" ); s.clear(); r.clear(); } else if ( m == 1 ) { MC_STEP( "erase the first half" ); s.erase( s.begin(), s.begin() + r.size() / 2 ); r.erase( r.begin(), r.begin() + r.size() / 2 ); } else { MC_STEP( "copy" ); S t( s ); s.clear(); s = t; } }
		else { int x = op - 4; MC_STEP( "erase position " << x ); auto it = s.erase( s.begin() + x ); MC_EQ( int( it - s.begin() ), x, "position after erasing" ); r.erase( r.begin() + x ); }
		check( s, r, -1, 3 );
		std::string st; for ( auto& e : r ) st += char( '0' + e.k ), st += char( 'a' + e.stamp ); mc::state( st ); if ( i + 1 == n ) mc::outcome( st );
	}
}
MC_SCENARIO_SPLIT( long_insertions, 2 ) {
	int n = mc::range( 0, 65 ), order = mc::choose( 5 ); S s; R r;
	for ( int i = 0; i < n; ++i ) { int k = order == 0 ? i : order == 1 ? n - i : order == 2 ? ( i * 29 ) % 67 : order == 3 ? i / 4 : ( i * 29 ) % 7; s.insert( E{ k, i } ); ref_insert( r, E{ k, i } ); }
	MC_STEP( n << " elements in order " << order ); check( s, r, -1, 70 );
}
MC_SCENARIO_SPLIT( huge, 2 ) {
	int n = mc::pick( { 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 2049 } ), order = mc::choose( 5 ); S s; R r; MC_STEP( n << " elements in order " << order );
	for ( int i = 0; i < n; ++i ) { int k = order == 0 ? i : order == 1 ? n - i : order == 2 ? int( ( i * 7919ll ) % 10007 ) % n : order == 3 ? i / 4 : ( i * 29 ) % 7; auto it = s.insert( E{ k, i } ); MC_EQ( size_t( it - s.begin() ), ref_insert( r, E{ k, i } ), "position of the inserted element" ); }
	check( s, r, -1, order > 2 ? n / 4 + 1 : n + 1 ); for ( int x : { 0, n / 3, n - 3 } ) { s.erase( s.begin() + x ); r.erase( r.begin() + x ); } check( s, r, -1, 20 ); mc::state( uint64_t( n * 10 + order ) );
}
MC_SCENARIO_SPLIT( texts, 3 ) {
	sorted_vector< std::string > s; std::vector< std::string > r, w = { "", "a", "aa", "b", "B" }; int n = mc::range( 0, 5 );
	for ( int i = 0; i < n; ++i ) { s.insert( mc::pick( w ) ); MC_STEP( "insert" ); r.push_back( w[ mc::ctx().choice[ mc::ctx().pos - 1 ] ] ); std::stable_sort( r.begin(), r.end() ); }
	std::vector< std::string > got( s.begin(), s.end() ); MC_EQ( got, r, "sorted texts" ); for ( auto& x : w ) MC_EQ( long( s.find( x ) - s.begin() ), long( std::find( r.begin(), r.end(), x ) - r.begin() ), "find " << x );
}
}
