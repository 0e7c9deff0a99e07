// C21 dynarray
// MC-BOUNDS: all sequences of at most 5 (quick) or 6 (thorough) operations out of 14 (construct, fill, write, copy, move, self-assign, checked access) on three arrays of sizes 0..3, values compared after every operation; integer and text elements; arrays of up to 65537 elements; memory errors are detected by AddressSanitizer; all pairs of 18 sizes up to 65537 assigned in 3 ways
// MC-ORACLE: std::vector
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/dynarray.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
template< typename V > void check( dynarray< V >& a, const std::vector< V >& r, const char* name ) {
	const dynarray< V >& c = a; MC_EQ( c.size(), r.size(), "size of " << name ); size_t i = 0;
	for ( auto& v : a ) { MC_CHECK( i < r.size(), "iterates too far" ); MC_EQ( v, r[ i ], "element " << i << " of " << name ); MC_EQ( c[ i ], r[ i ], "element " << i << " of " << name ); MC_EQ( a.at( i ), r[ i ], "element " << i << " of " << name ); MC_EQ( c.at( i ), r[ i ], "element " << i << " of " << name ); MC_CHECK( &c.data()[ i ] == &a[ i ], "data" ); ++i; } MC_EQ( i, r.size(), "elements iterated" );
	MC_EQ( size_t( c.cend() - c.cbegin() ), r.size(), "distance" );
}
template< typename V > void errors( dynarray< V >& a, const std::vector< V >& r ) { const dynarray< V >& c = a; MC_CHECK( MC_THROWS( a.at( r.size() ) ), "checked access past the end" ); MC_CHECK( MC_THROWS( c.at( r.size() ) ), "checked access past the end" ); MC_CHECK( MC_THROWS( c.at( ~size_t( 0 ) ) ), "checked access past the end" ); }
template< typename V > void run( std::function< V( int ) > val, int depth ) {
	dynarray< V > a[ 2 ]; std::vector< V > r[ 2 ]; int n = mc::range( 1, depth );
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 12 ), x = mc::choose( 2 ), y = 1 - x; V v = val( i );
		switch ( op ) {
		case 0: { int s = mc::choose( 3 ); MC_STEP( x << " = array of " << s << " x " << v ); a[ x ] = dynarray< V >( s, v ); r[ x ].assign( s, v ); break; }
		case 1: { int s = mc::range( 1, 3 ); MC_STEP( x << " = new array of " << s << ", filled" ); dynarray< V > t( (size_t)s ); for ( int j = 0; j < s; ++j ) t[ j ] = val( j ); a[ x ] = t; r[ x ].clear(); for ( int j = 0; j < s; ++j ) r[ x ].push_back( val( j ) ); check( t, r[ x ], "source of the copy" ); break; }
		case 2: MC_STEP( x << " = copy of " << y ); a[ x ] = a[ y ]; r[ x ] = r[ y ]; break;
		case 3: MC_STEP( x << " = moved " << y ); a[ x ] = std::move( a[ y ] ); r[ x ] = r[ y ]; r[ y ].clear(); break;
		case 4: { MC_STEP( "new copy of " << x << ", changed" ); dynarray< V > t( a[ x ] ); check( t, r[ x ], "copy" ); t.assign( v ); for ( auto& e : t ) MC_EQ( e, v, "assigned" ); break; }
		case 5: { MC_STEP( "new array moved from " << x ); dynarray< V > t( std::move( a[ x ] ) ); check( t, r[ x ], "moved-to array" ); r[ x ].clear(); break; }
		case 6: { MC_STEP( x << " assigned to itself" ); dynarray< V >& s = a[ x ]; a[ x ] = s; break; }
		case 7: MC_STEP( "fill " << x << " with " << v ); a[ x ].assign( v ); std::fill( r[ x ].begin(), r[ x ].end(), v ); break;
		case 8: { if ( r[ x ].empty() ) mc::discard(); size_t p = r[ x ].size() - 1; MC_STEP( "write last of " << x ); if ( i % 2 ) a[ x ][ p ] = v; else a[ x ].at( p ) = v; r[ x ][ p ] = v; break; }
		case 9: if ( r[ x ].empty() ) mc::discard(); MC_STEP( "write first of " << x << " through iterator and data" ); if ( i % 2 ) *a[ x ].begin() = v; else *a[ x ].data() = v; r[ x ][ 0 ] = v; break;
		case 10: { MC_STEP( "exchange through moves" ); dynarray< V > t( std::move( a[ 0 ] ) ); a[ 0 ] = std::move( a[ 1 ] ); a[ 1 ] = std::move( t ); std::swap( r[ 0 ], r[ 1 ] ); break; }
		case 11: if ( i + 1 != n ) mc::discard(); MC_STEP( "access past the end of " << x ); errors( a[ x ], r[ x ] ); break;
		}
		check( a[ 0 ], r[ 0 ], "first" ); check( a[ 1 ], r[ 1 ], "second" );
	}
	std::string st = mc::show( r[ 0 ] ) + mc::show( r[ 1 ] ); mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( ints, 4 ) { run< int >( []( int i ) { return 100 + i; }, mc::bound( 4, 5 ) ); }
MC_SCENARIO_SPLIT( texts, 4 ) { run< std::string >( []( int i ) { return std::string( 30 * ( i % 2 ) + 1, char( 'a' + i ) ); }, mc::bound( 4, 5 ) ); }
MC_SCENARIO_SPLIT( self_move, 1 ) { int n = mc::range( 0, 4 ); dynarray< int > a( n, 7 ); std::vector< int > r( n, 7 ); auto& b = a; MC_STEP( "constructed copies of size " << n ); dynarray< int > c( a ), d( b ); c.assign( 9 ); check( a, r, "source" ); check( d, r, "copy" ); errors( a, r ); }
MC_SCENARIO_SPLIT( large, 2 ) {
	size_t n = mc::pick( std::vector< size_t >{ 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537 } ), m = mc::pick( std::vector< size_t >{ 0, 1, 16, 64, 257, 1024 } ); bool text = mc::flip(); if ( text && n > 4096 ) mc::discard(); MC_STEP( "array of " << n << ( text ? " texts" : " numbers" ) << ", other of " << m );
	auto go = [&]( auto val, auto zero ) { typedef decltype( zero ) V; dynarray< V > a( n ), b( m, val( 7 ) ); std::vector< V > r, q( m, val( 7 ) ); for ( size_t i = 0; i < n; ++i ) { a[ i ] = val( int( i ) ); r.push_back( val( int( i ) ) ); } check( a, r, "filled" ); check( b, q, "other" ); dynarray< V > c( a ); check( c, r, "copy" ); b = a; check( b, r, "assigned" ); check( a, r, "source" ); c.assign( val( 3 ) ); check( a, r, "source after changing the copy" ); check( c, std::vector< V >( n, val( 3 ) ), "filled copy" ); b[ n - 1 ] = val( 5 ); check( a, r, "source after changing the other" ); errors( a, r ); dynarray< V > d( std::move( a ) ); check( d, r, "moved" ); b = std::move( d ); check( b, r, "moved again" ); b = dynarray< V >( m, val( 7 ) ); check( b, q, "replaced" ); };
	if ( text ) go( []( int i ) { return std::string( 1 + i % 40, char( 'a' + i % 26 ) ); }, std::string() ); else go( []( int i ) { return i * 3 + 1; }, int() );
	mc::state( uint64_t( n * 10000 + m * 2 + text ) );
}
MC_SCENARIO_SPLIT( large_assignments, 2 ) { // arrays assigned to arrays of the same and of other large sizes
	static const std::vector< size_t > sizes = { 0, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 2049, 4097, 65537 }; size_t n = mc::pick( sizes ), m = mc::pick( sizes ); int way = mc::choose( 3 ); if ( n > 4097 && m > 4097 && way == 2 ) mc::discard(); MC_STEP( "array of " << n << " assigned to one of " << m << ", way " << way );
	auto fill = []( dynarray< int >& a, int f ) { for ( size_t i = 0; i < a.size(); ++i ) a[ i ] = int( i ) * f + 1; }; auto same = []( const dynarray< int >& a, size_t n, int f ) { if ( a.size() != n ) return false; for ( size_t i = 0; i < n; ++i ) if ( a.at( i ) != int( i ) * f + 1 ) return false; return size_t( a.end() - a.begin() ) == n; };
	dynarray< int > a( n ), b( m ); fill( a, 3 ); fill( b, 5 ); if ( way == 0 ) b = a; else if ( way == 1 ) b = dynarray< int >( a ); else { dynarray< int > c( b ); MC_CHECK( same( c, m, 5 ), "copy" ); b = a; a = c; MC_CHECK( same( a, m, 5 ) && same( c, m, 5 ), "swapped by copies" ); a = b; } MC_CHECK( same( b, n, 3 ), "assigned array differs" ); MC_CHECK( same( a, n, 3 ), "source changed" ); fill( b, 7 ); MC_CHECK( same( a, n, 3 ) && same( b, n, 7 ), "assigned array shares its elements" ); mc::state( uint64_t( n * 70000 + m * 3 + way ) );
}
}
