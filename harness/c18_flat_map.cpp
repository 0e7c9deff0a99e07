// C18 flat_map
// MC-BOUNDS: all sequences of at most 5 (quick) or 6 (thorough) operations out of 15 kinds (insert or update by index, update through at, read of present and absent keys, erase of one, of a range, clear, copy, assignment, mutation through iterators) on two maps over 3 keys, compared with the reference after every operation; integer, text and move-only-like values; maps of up to 1025 keys in 3 orders, erased at 8 positions or in a range
// MC-ORACLE: list of (key, value) pairs in order of first insertion
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/flat_map.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;
template< typename K, typename V > struct model {
	typedef std::vector< std::pair< K, V > > R; typedef flat_map< K, V > M;
	static int at( const R& r, const K& k ) { for ( size_t i = 0; i < r.size(); ++i ) if ( r[ i ].first == k ) return int( i ); return -1; }
	static void check( M& m, const R& r, const std::vector< K >& keys ) {
		const M& c = m;
		MC_EQ( m.size(), r.size(), "size" ); MC_EQ( c.empty(), r.empty(), "empty" );
		size_t i = 0; for ( auto& e : m ) { MC_CHECK( i < r.size() && e.first == r[ i ].first && e.second == r[ i ].second, "entry " << i << ": got " << mc::show( e.first ) << "=" << mc::show( e.second ) ); ++i; }
		MC_EQ( i, r.size(), "entries visited" ); i = 0; for ( auto it = c.cbegin(); it != c.cend(); ++it, ++i ) MC_CHECK( it->first == r[ i ].first && it->second == r[ i ].second, "entry " << i << " of a constant map" );
		MC_EQ( i, r.size(), "entries visited" );
		if ( !r.empty() ) { MC_CHECK( m.front().first == r.front().first && c.front().second == r.front().second, "front" ); MC_CHECK( m.back().first == r.back().first && c.back().second == r.back().second, "back" ); }
		for ( auto& k : keys ) {
			int x = at( r, k );
			MC_EQ( c.has_key( k ), x >= 0, "has_key " << k ); MC_EQ( c.count( k ), size_t( x >= 0 ), "count " << k );
			MC_EQ( long( m.find( k ) - m.begin() ), long( x >= 0 ? x : r.size() ), "find " << k ); MC_EQ( long( c.find( k ) - c.begin() ), long( x >= 0 ? x : r.size() ), "find " << k << " (constant)" );
			if ( x >= 0 ) { MC_EQ( m.at( k ), r[ x ].second, "at " << k ); MC_EQ( c.at( k ), r[ x ].second, "constant at " << k ); MC_EQ( c[ k ], r[ x ].second, "constant [" << k << "]" ); }
		}
	}
	static void run( const std::vector< K >& keys, const std::vector< V >& vals, int depth ) {
		M m; R r; M m2; R r2; int n = mc::range( 0, depth );
		for ( int i = 0; i < n; ++i ) {
			int op = mc::choose( 12 ); V v = vals[ i % vals.size() ]; int kk = 0; if ( op < 5 || op == 8 ) kk = mc::choose( int( keys.size() ) ); const K& k = keys[ kk ]; int x = at( r, k );
			switch ( op ) {
			case 0: MC_STEP( "[" << k << "] = " << v ); m[ k ] = v; if ( x < 0 ) r.push_back( { k, v } ); else r[ x ].second = v; break;
			case 1: MC_STEP( "[" << k << "] read" ); { V got = m[ k ]; if ( x < 0 ) r.push_back( { k, V() } ); MC_EQ( got, r[ at( r, k ) ].second, "value" ); } break;
			case 2: MC_STEP( "at(" << k << ") = " << v ); if ( x >= 0 ) { m.at( k ) = v; r[ x ].second = v; } else MC_CHECK( MC_THROWS( m.at( k ) = v ), "at of an absent key not reported" ); break;
			case 3: MC_STEP( "constant [" << k << "]" ); { const M& c = m; if ( x >= 0 ) { MC_EQ( c[ k ], r[ x ].second, "value" ); } else { MC_CHECK( MC_THROWS( c[ k ] ), "reading an absent key not reported" ); MC_CHECK( MC_THROWS( c.at( k ) ), "reading an absent key not reported" ); } } break;
			case 4: MC_STEP( "erase " << k ); if ( x < 0 ) mc::discard(); { auto it = m.erase( m.find( k ) ); MC_EQ( long( it - m.begin() ), long( x ), "position after erasing" ); r.erase( r.begin() + x ); } break;
			case 5: MC_STEP( "clear" ); m.clear(); r.clear(); break;
			case 6: MC_STEP( "second = first" ); m2 = m; r2 = r; break;
			case 7: MC_STEP( "exchange" ); { M t( m ); m = m2; m2 = t; std::swap( r, r2 ); } break;
			case 8: MC_STEP( "change through find " << k ); if ( x < 0 ) mc::discard(); m.find( k )->second = v; r[ x ].second = v; break;
			case 9: MC_STEP( "erase all but the first" ); if ( r.empty() ) mc::discard(); m.erase( m.begin() + 1, m.end() ); r.resize( 1 ); break;
			case 10: MC_STEP( "change all while iterating" ); for ( auto& e : m ) e.second = v; for ( auto& e : r ) e.second = v; break;
			case 11: MC_STEP( "move to second" ); m2 = std::move( m ); r2 = r; m = M(); r.clear(); break;
			}
			check( m, r, keys ); check( m2, r2, keys );
			string st; for ( auto& e : r ) st += mc::show( e.first ) + mc::show( e.second ) + ","; st += "|"; for ( auto& e : r2 ) st += mc::show( e.first ) + mc::show( e.second ) + ","; mc::state( st ); if ( i + 1 == n ) mc::outcome( st );
		}
	}
};
MC_SCENARIO_SPLIT( text_keys, 3 ) { model< string, int >::run( { "a", "b", "" }, { 1, 2, 3, 4, 5, 6 }, mc::bound( 5, 6 ) ); }
MC_SCENARIO_SPLIT( int_keys, 3 ) { model< int, string >::run( { 1, -1, 0 }, { "x", "y", "", "z" }, mc::bound( 4, 5 ) ); }
MC_SCENARIO_SPLIT( huge, 2 ) { // sizes beyond any buffer, keys in three orders, erasure at one of eight positions, in a range, then reinsertion
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 65, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025 } ), o = mc::choose( 3 ), e = mc::choose( 9 ); flat_map< int, int > m; std::vector< std::pair< int, int > > r; std::vector< int > keys;
	MC_STEP( n << " keys in order " << o << ", erase " << e );
	for ( int i = 0; i < n; ++i ) { int k = o == 0 ? i : o == 1 ? n - i : int( ( i * 7919ll ) % 10007 ) - 5000; m[ k ] = i; r.push_back( { k, i } ); if ( n < 100 || i % 37 == 0 || i > n - 3 ) keys.push_back( k ); } keys.push_back( 20000 ); model< int, int >::check( m, r, keys ); for ( auto& x : r ) MC_EQ( m[ x.first ], x.second, "value of " << x.first << " through []" ); model< int, int >::check( m, r, keys );
	if ( e < 8 ) { int x = e * ( n - 1 ) / 7; auto it = m.erase( m.begin() + x ); MC_EQ( long( it - m.begin() ), long( x ), "position after erasing" ); auto old = r[ x ]; r.erase( r.begin() + x ); keys.push_back( old.first ); model< int, int >::check( m, r, keys ); m[ old.first ] = 7; r.push_back( { old.first, 7 } ); }
	else { m.erase( m.begin() + n / 3, m.begin() + n / 2 ); r.erase( r.begin() + n / 3, r.begin() + n / 2 ); }
	model< int, int >::check( m, r, keys ); flat_map< int, int > c( m ), d; d = m; model< int, int >::check( c, r, keys ); model< int, int >::check( d, r, keys );
	if ( n < 100 ) { flat_map< string, string > t; std::vector< std::pair< string, string > > tr; std::vector< string > tk; for ( int i = 0; i < n; ++i ) { string k( i + 1, 'k' ); t[ k ] = string( i, 'v' ); tr.push_back( { k, string( i, 'v' ) } ); tk.push_back( k ); } tk.push_back( "" ); model< string, string >::check( t, tr, tk ); }
	mc::state( uint64_t( n * 100 + o * 10 + e ) );
}
MC_SCENARIO_SPLIT( many, 2 ) { // larger maps: growth, order, erasure in the middle
	int n = mc::pick( { 0, 1, 2, 7, 8, 9, 64, 100 } ), e = mc::choose( 6 ); flat_map< int, int > m; std::vector< std::pair< int, int > > r; std::vector< int > keys;
	for ( int i = 0; i < n; ++i ) { int k = ( i * 37 ) % 101; m[ k ] = i; r.push_back( { k, i } ); keys.push_back( k ); }
	for ( int i = 0; i < n; i += 3 ) { int k = ( i * 37 ) % 101; m[ k ] += 1000; r[ i ].second += 1000; }
	MC_STEP( n << " keys, erase position " << e ); if ( n > 0 ) { int x = e * ( n - 1 ) / 5; m.erase( m.begin() + x ); r.erase( r.begin() + x ); } keys.push_back( 200 );
	model< int, int >::check( m, r, keys );
}
}
