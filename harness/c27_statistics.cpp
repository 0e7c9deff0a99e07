// C27 sequence statistics, orderings, views, channel statistics
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/prop_node.cpp flut/prop_node_tools.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all sequences of at most 9 (quick) or 11 (thorough) values over 4 values with duplicates and negatives; all sub-ranges; filtered views under 6 predicates through every iterator; longer sequences of up to 40 values and of 63..1025 values around powers of two in 6 orders; averages of more elements than there are; storages of up to 3 channels and 4 frames over 3 values; statistics of storages of up to 1025 frames and 40 channels; positions up to 100001
// MC-ORACLE: definitions evaluated by selection sort and direct sums
// MC-ASSUMES: statistics of non-empty sequences; at least one smallest element is averaged
#include "gen.hpp"
#include "flut/container_tools.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include <list>
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
template< typename T > vector< T > ssort( vector< T > v ) { for ( size_t i = 0; i < v.size(); ++i ) for ( size_t j = i + 1; j < v.size(); ++j ) if ( v[ j ] < v[ i ] ) std::swap( v[ i ], v[ j ] ); return v; }
static bool near( double a, double b ) { return std::abs( a - b ) <= 1e-12 * ( 1 + std::abs( b ) ); }
static void stats( const vector< double >& in, bool deep ) {
	vector< double > v( in ); const vector< double >& c = v; size_t n = v.size(); auto s = ssort( in );
	MC_EQ( sorted_copy( c ), s, "sorted copy" ); auto idx = sort_indices( c ); MC_EQ( idx.size(), n, "sort indices" ); vector< bool > used( n ); for ( size_t i = 0; i < n; ++i ) { MC_CHECK( idx[ i ] < n && !used[ idx[ i ] ], "sort indices are not a permutation" ); used[ idx[ i ] ] = true; MC_EQ( c[ idx[ i ] ], s[ i ], "element at sort index " << i ); }
	for ( double x : { -3.0, 0.0, 1.0, 2.5, 99.0 } ) { size_t k = 0; while ( k < n && in[ k ] != x ) ++k; MC_EQ( find_index( c, x ), k == n ? no_index : k, "find_index of " << x ); double y = x; const double z = x; MC_EQ( size_t( flut::find( v, y ) - v.begin() ), k, "find of " << x ); MC_EQ( size_t( flut::find( c, z ) - c.begin() ), k, "constant find of " << x ); MC_EQ( size_t( flut::find( v, x ) - v.begin() ), k, "find of the value " << x ); MC_EQ( size_t( flut::find_if( v, [x]( double q ) { return q == x; } ) - v.begin() ), k, "find_if of " << x ); MC_EQ( size_t( flut::find_if( c, [x]( double q ) { return q == x; } ) - c.begin() ), k, "constant find_if of " << x ); }
	if ( n == 0 ) { MC_CHECK( flut::min_element( v ) == v.end() && flut::max_element( c ) == c.end(), "extrema of an empty sequence" ); if ( deep ) { MC_CHECK( MC_THROWS( median( c ) ), "median of an empty sequence not reported" ); MC_CHECK( MC_THROWS( back_index( c ) ), "last index of an empty sequence not reported" ); } return; }
	size_t mn = 0, mx = 0; double sum = 0; for ( size_t i = 0; i < n; ++i ) { if ( in[ i ] < in[ mn ] ) mn = i; if ( in[ i ] > in[ mx ] ) mx = i; sum += in[ i ]; }
	MC_EQ( size_t( flut::min_element( v ) - v.begin() ), mn, "minimum" ); MC_EQ( size_t( flut::min_element( c ) - c.begin() ), mn, "constant minimum" ); MC_EQ( size_t( flut::max_element( v ) - v.begin() ), mx, "maximum" ); MC_EQ( size_t( flut::max_element( c ) - c.begin() ), mx, "constant maximum" );
	MC_CHECK( near( flut::average( c ), sum / n ), "average " << flut::average( c ) << " of sum " << sum ); MC_EQ( median( c ), n % 2 ? s[ n / 2 ] : ( s[ n / 2 ] + s[ n / 2 - 1 ] ) / 2, "median" ); MC_EQ( back_index( c ), n - 1, "last index" );
	double t = 0; for ( size_t k = 1; k <= n; ++k ) { t += s[ k - 1 ]; MC_CHECK( near( top_average( c, k ), t / k ), "average of the " << k << " smallest: got " << top_average( c, k ) << ", expected " << t / k ); } for ( size_t k : { n + 1, n + 2, 3 * n, n + 1000 } ) MC_CHECK( near( top_average( c, k ), t / n ), "average of the " << k << " smallest of " << n << ": got " << top_average( c, k ) << ", expected " << t / n );
	if ( deep ) for ( size_t a = 0; a < n; ++a ) { double q = 0; for ( size_t b = a; b < n; ++b ) { q += in[ b ]; MC_CHECK( near( flut::average( c.begin() + a, c.begin() + b + 1 ), q / ( b + 1 - a ) ), "average of a sub-range" ); } }
	MC_EQ( v, in, "input after computing statistics" );
}
MC_SCENARIO_SPLIT( sequences, 4 ) { int n = mc::range( 0, mc::bound( 9, 11 ) ); vector< double > v; for ( int i = 0; i < n; ++i ) v.push_back( mc::pick( { 0.0, 1.0, -3.0, 2.5 } ) ); MC_STEP( mc::show( v ) ); stats( v, n < 5 ); mc::state( mc::show( v ) ); mc::outcome( mc::show( ssort( v ) ) ); }
MC_SCENARIO_SPLIT( long_sequences, 2 ) { int n = mc::choose( 52 ); static const int big[] = { 63, 64, 65, 100, 101, 127, 129, 255, 257, 1000, 1025 }; if ( n > 40 ) n = big[ n - 41 ]; int o = mc::choose( 6 ); vector< double > v; for ( int i = 0; i < n; ++i ) v.push_back( o == 0 ? i : o == 1 ? -i : o == 2 ? ( i * 17 ) % 41 : o == 3 ? i % 3 : o == 4 ? 5 : ( i * i ) % 23 - 10.5 ); MC_STEP( mc::show( v ) ); stats( v, n < 12 ); }
MC_SCENARIO_SPLIT( texts, 3 ) { int n = mc::range( 0, 4 ); vector< string > v; for ( int i = 0; i < n; ++i ) v.push_back( mc::pick( { "", "a", "B", "ab" } ) ); MC_STEP( mc::show( v ) ); const auto& c = v; auto s = ssort( v ); MC_EQ( sorted_copy( c ), s, "sorted copy" ); auto idx = sort_indices( c ); for ( int i = 0; i < n; ++i ) MC_EQ( c[ idx[ i ] ], s[ i ], "sort index" ); if ( n ) { MC_EQ( *flut::min_element( c ), s.front(), "minimum" ); MC_EQ( *flut::max_element( c ), s.back(), "maximum" ); }
	std::ostringstream o; flut::operator<<( o, c ); string w; for ( int i = 0; i < n; ++i ) w += ( i ? "\t" : "" ) + v[ i ]; MC_EQ( o.str(), w + "\n", "printed sequence" ); }
static bool pred( int k, int x ) { return k == 0 ? true : k == 1 ? false : k == 2 ? x == 0 : k == 3 ? x != 0 : k == 4 ? x < 2 : x > 1; }
MC_SCENARIO_SPLIT( views, 4 ) {
	int n = mc::range( 0, mc::bound( 9, 11 ) ), k = mc::choose( 6 ); vector< int > v; for ( int i = 0; i < n; ++i ) v.push_back( mc::choose( 3 ) ); MC_STEP( mc::show( v ) << " with predicate " << k ); vector< int > want, got, pos; for ( int x : v ) if ( pred( k, x ) ) want.push_back( x );
	auto w = make_view_if( v, [k]( int x ) { return pred( k, x ); } ); size_t i = 0; for ( auto& x : w ) { got.push_back( x ); MC_CHECK( got.size() <= v.size(), "view does not end" ); } MC_EQ( got, want, "elements of the view" );
	got.clear(); for ( auto it = w.begin(); it != w.end(); it++ ) { got.push_back( *it ); MC_CHECK( got.size() <= v.size(), "view does not end" ); } MC_EQ( got, want, "elements of the view, post-increment" );
	if ( !want.empty() ) { auto it = w.begin(); auto old = it++; MC_CHECK( old == w.begin() && &*old == &*w.begin(), "post-increment" ); if ( want.size() == 1 ) MC_CHECK( it == w.end(), "end" ); else MC_EQ( *it, want[ 1 ], "second element" ); } else MC_CHECK( w.begin() == w.end(), "empty view" );
	const vector< int >& c = v; auto wr = make_view_if( c.begin() + n / 3, c.end() - n / 3, [k]( int x ) { return pred( k, x ); } ); want.clear(); got.clear(); for ( int j = n / 3; j < n - n / 3; ++j ) if ( pred( k, v[ j ] ) ) want.push_back( v[ j ] ); for ( auto& x : wr ) { got.push_back( x ); MC_CHECK( got.size() <= v.size(), "view does not end" ); } MC_EQ( got, want, "elements of a view of a range" );
	std::list< int > l( v.begin(), v.end() ); auto wl = make_view_if( l, [k]( int x ) { return pred( k, x ); } ); got.clear(); want.clear(); for ( int x : v ) if ( pred( k, x ) ) want.push_back( x ); for ( auto& x : wl ) got.push_back( x ); MC_EQ( got, want, "elements of a view of a list" );
	mc::state( mc::show( v ) + char( '0' + k ) ); mc::outcome( mc::show( want ) );
}
MC_SCENARIO_SPLIT( channels, 4 ) {
	int F = mc::range( 1, mc::bound( 3, 4 ) ), C = mc::range( 1, mc::bound( 2, 3 ) ); storage< double, string > s( F, C ); for ( int f = 0; f < F; ++f ) for ( int c = 0; c < C; ++c ) s( f, c ) = mc::pick( { 0.0, 1.5, -4.0 } ); const auto& cs = s; MC_STEP( F << " x " << C ); mc::state( mc::show( s.data() ) );
	auto m = compute_channel_means( cs ); MC_EQ( m.size(), size_t( C ), "means" ); vector< double > want( C ); for ( int c = 0; c < C; ++c ) { for ( int f = 0; f < F; ++f ) want[ c ] += cs( f, c ); want[ c ] /= F; MC_CHECK( near( m[ c ], want[ c ] ), "mean of channel " << c << ": got " << m[ c ] << ", expected " << want[ c ] ); }
	auto cv = compute_covariance( cs ); MC_EQ( cv.row_size(), size_t( C ), "rows" ); MC_EQ( cv.column_size(), size_t( C ), "columns" ); for ( int a = 0; a < C; ++a ) for ( int b = 0; b < C; ++b ) { double q = 0; for ( int f = 0; f < F; ++f ) q += ( cs( f, a ) - want[ a ] ) * ( cs( f, b ) - want[ b ] ); q /= F; MC_CHECK( near( cv( a, b ), q ), "covariance " << a << "," << b << ": got " << cv( a, b ) << ", expected " << q ); }
}
MC_SCENARIO_SPLIT( large_channels, 2 ) { // many frames and channels
	int F = mc::pick( { 2, 7, 8, 9, 31, 33, 49, 50, 51, 64, 65, 100, 128, 255, 256, 257, 1000, 1025 } ), C = mc::pick( { 1, 2, 3, 5, 8, 9, 16, 17, 33, 40 } ); if ( F * C * C > 300000 ) mc::discard(); storage< double, string > s( F, C ); for ( int f = 0; f < F; ++f ) for ( int c = 0; c < C; ++c ) s( f, c ) = ( ( f * 7 + c * 13 ) % 29 ) - 11.5 + c; const auto& cs = s; MC_STEP( F << " x " << C );
	auto m = compute_channel_means( cs ); MC_EQ( m.size(), size_t( C ), "means" ); vector< double > want( C ); for ( int c = 0; c < C; ++c ) { for ( int f = 0; f < F; ++f ) want[ c ] += cs( f, c ); want[ c ] /= F; MC_CHECK( std::abs( m[ c ] - want[ c ] ) <= 1e-9 * ( 1 + std::abs( want[ c ] ) ), "mean of channel " << c << ": got " << m[ c ] << ", expected " << want[ c ] ); }
	auto cv = compute_covariance( cs ); MC_EQ( cv.row_size(), size_t( C ), "rows" ); MC_EQ( cv.column_size(), size_t( C ), "columns" ); for ( int a = 0; a < C; ++a ) for ( int b = 0; b < C; ++b ) { double q = 0; for ( int f = 0; f < F; ++f ) q += ( cs( f, a ) - want[ a ] ) * ( cs( f, b ) - want[ b ] ); q /= F; MC_CHECK( std::abs( cv( a, b ) - q ) <= 1e-9 * ( 1 + std::abs( q ) ), "covariance " << a << "," << b << " of " << F << " frames: got " << cv( a, b ) << ", expected " << q ); } mc::state( uint64_t( F * 100 + C ) );
}
MC_SCENARIO( far_positions ) { int n = mc::pick( { 1, 127, 128, 255, 256, 32767, 32768, 32769, 65535, 65536, 65537, 100000 } ), w = mc::choose( 3 ); vector< int > v( n + 2, 1 ); int p = w == 0 ? n : w == 1 ? n - 1 : n + 1; v[ p ] = 5; const auto& c = v; MC_STEP( "position " << p << " of " << n + 2 ); MC_EQ( find_index( c, 5 ), size_t( p ), "find_index" ); MC_EQ( size_t( flut::find( c, 5 ) - c.begin() ), size_t( p ), "find" ); MC_EQ( size_t( flut::max_element( c ) - c.begin() ), size_t( p ), "maximum" ); v[ p ] = -5; MC_EQ( size_t( flut::min_element( c ) - c.begin() ), size_t( p ), "minimum" ); MC_EQ( sort_indices( c )[ 0 ], size_t( p ), "first sort index" ); MC_EQ( sorted_copy( c )[ 0 ], -5, "first sorted" ); MC_EQ( top_average( c, 1 ), -5, "smallest" ); MC_EQ( find_index( c, 7 ), no_index, "absent" ); mc::state( uint64_t( p ) ); }
}
