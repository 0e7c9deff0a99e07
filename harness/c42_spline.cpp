// C42 Catmull-Rom splines
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: uniform segments over all control values of -2..2 (thorough -3..3) to the power 4, scalar float/double and 3-vectors, at all eighths from -1 to 2; centripetal, chordal and uniform (alpha 0, 1/4, 1/2, 1) segments over all paths of 3 steps from 7 (thorough 12) directions; splines of 4..6 (thorough 4..7) control values over 3 values, 2 first times and 3 gaps, at all eighths of every interval, beyond both ends and at every knot; lengths of all straight and polygonal curves of 1..4 pieces for 1..12 steps; splines of up to 1000 control values
// MC-ORACLE: the Catmull-Rom basis and the Barry-Goldman pyramid in long double; the defining interpolation and tangent conditions; sums of chord lengths
#include "gen.hpp"
#include "lin.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/catmull_rom.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using std::string; using std::vector; using lin::V; typedef long double R;
template< typename T > R eps() { return sizeof( T ) == 8 ? 1e-12L : 2e-5L; }
static string s( R x ) { std::ostringstream o; o << double( x ); return o.str(); }
template< typename T > void near( T got, R want, const string& what ) { MC_CHECK( std::abs( R( got ) - want ) <= eps<T>() * ( 10 + std::abs( want ) ), what << " is " << double( got ) << ", expected " << double( want ) ); }
template< typename T > void near( const math::vec3_<T>& g, V w, const string& what ) { near( g.x, w.x, what + " x" ); near( g.y, w.y, what + " y" ); near( g.z, w.z, what + " z" ); }
static R uniform( const R* p, R t ) { return ( 2 * p[ 1 ] + ( p[ 2 ] - p[ 0 ] ) * t + ( 2 * p[ 0 ] - 5 * p[ 1 ] + 4 * p[ 2 ] - p[ 3 ] ) * t * t + ( 3 * p[ 1 ] - p[ 0 ] - 3 * p[ 2 ] + p[ 3 ] ) * t * t * t ) / 2; }
template< typename T > void segment() {
	int m = mc::bound( 2, 3 ); R p[ 4 ]; string h; for ( auto& x : p ) { x = mc::range( -m, m ); h += s( x ) + " "; } MC_STEP( "control values " << h ); T a[ 4 ]; for ( int i = 0; i < 4; ++i ) a[ i ] = T( p[ i ] ); const catmull_rom_segment< T > c( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] );
	MC_CHECK( c( T( 0 ) ) == T( p[ 1 ] ) && c( T( 1 ) ) == T( p[ 2 ] ), "segment of " << h << " runs from " << c( T( 0 ) ) << " to " << c( T( 1 ) ) );
	for ( int k = -8; k <= 16; ++k ) { mc::step(); R t = k / R( 8 ); near( c( T( t ) ), uniform( p, t ), "value at " + s( t ) + " of " + h ); }
	auto v = [&]( int i ) { return math::vec3_<T>( T( p[ i ] ), T( 1 - 2 * p[ i ] ), T( p[ 3 - i ] ) ); }; const catmull_rom_segment< math::vec3_<T> > cv( v( 0 ), v( 1 ), v( 2 ), v( 3 ) ); R r[] = { p[ 3 ], p[ 2 ], p[ 1 ], p[ 0 ] };
	for ( int k = -8; k <= 16; ++k ) { R t = k / R( 8 ), f = uniform( p, t ); near( cv( T( t ) ), V{ f, 1 - 2 * f, uniform( r, t ) }, "vector at " + s( t ) + " of " + h ); }
	mc::state( h ); mc::outcome( uint64_t( 1000 + 16 * uniform( p, 0.5L ) ) );
}
MC_SCENARIO( segment_double ) { segment< double >(); }
MC_SCENARIO( segment_float ) { segment< float >(); }

static const vector< V > dirs = { { 1, 0, 0 }, { 0, 2, 0 }, { -1, 1, 0 }, { 0, 0, -4 }, { 3, -1, 2 }, { 0.25L, 0, 0.25L }, { -2, -2, 1 }, { 0, -1, 0 }, { 5, 0, 0 }, { 0, 0, 0.5L }, { -0.5L, 0.25L, 1 }, { 1, 1, 1 } };
template< typename T > void alpha_segment() {
	int nd = mc::bound( 7, 12 ); V p[ 4 ]; p[ 0 ] = mc::flip() ? V{ 1, -2, 0.5L } : V{}; string h; for ( int i = 1; i < 4; ++i ) { int k = mc::choose( nd ); h += s( k ) + " "; p[ i ] = p[ i - 1 ] + dirs[ k ]; } R al = mc::pick( vector< R >{ 0, 0.25L, 0.5L, 1 } ); MC_STEP( "steps " << h << " alpha " << s( al ) );
	auto w = [&]( int i ) { return math::vec3_<T>( T( p[ i ].x ), T( p[ i ].y ), T( p[ i ].z ) ); }; const catmull_rom_segment_alpha< math::vec3_<T> > c( w( 0 ), w( 1 ), w( 2 ), w( 3 ), float( al ) );
	R t[ 4 ] = { 0 }; for ( int i = 1; i < 4; ++i ) t[ i ] = t[ i - 1 ] + std::pow( lin::len( p[ i ] - p[ i - 1 ] ), al );
	auto at = [&]( R u ) { R x = t[ 1 ] + u * ( t[ 2 ] - t[ 1 ] ); auto mix = [&]( V a, V b, R ta, R tb ) { return ( ( tb - x ) / ( tb - ta ) ) * a + ( ( x - ta ) / ( tb - ta ) ) * b; }; V a1 = mix( p[ 0 ], p[ 1 ], t[ 0 ], t[ 1 ] ), a2 = mix( p[ 1 ], p[ 2 ], t[ 1 ], t[ 2 ] ), a3 = mix( p[ 2 ], p[ 3 ], t[ 2 ], t[ 3 ] ); return mix( mix( a1, a2, t[ 0 ], t[ 2 ] ), mix( a2, a3, t[ 1 ], t[ 3 ] ), t[ 1 ], t[ 2 ] ); };
	// the parameters are float whatever the points are
	for ( int k = 0; k <= 8; ++k ) { mc::step(); R u = k / R( 8 ); V g; { auto x = c( float( u ) ); g = V{ x.x, x.y, x.z }; } MC_CHECK( lin::ok( lin::diff( g, at( u ) ), 1e-4L ), "point at " << s( u ) << " of " << h << "alpha " << s( al ) << " is " << lin::str( g ) << ", expected " << lin::str( at( u ) ) ); }
	mc::state( h + s( al ) ); mc::outcome( lin::str( at( 0.5L ) ) );
}
MC_SCENARIO( alpha_double ) { alpha_segment< double >(); }
MC_SCENARIO( alpha_float ) { alpha_segment< float >(); }

template< typename P, typename T > P point( R v ); template<> double point< double, double >( R v ) { return double( v ); } template<> float point< float, float >( R v ) { return float( v ); } template<> math::vec3d point< math::vec3d, double >( R v ) { return math::vec3d( double( v ), double( 1 - 2 * v ), double( v / 2 ) ); }
static void cmp( double g, R w, const string& h ) { near( g, w, h ); } static void cmp( float g, R w, const string& h ) { near( g, w, h ); } static void cmp( const math::vec3d& g, R w, const string& h ) { near( g, V{ w, 1 - 2 * w, w / 2 }, h ); }
template< typename P, typename T > void spline() {
	int n = mc::range( 4, mc::bound( 6, 7 ) ); vector< R > p, t; vector< P > pp; vector< T > tt; string h; for ( int i = 0; i < n; ++i ) { p.push_back( mc::pick( vector< int >{ 0, 3, -2 } ) ); pp.push_back( point< P, T >( p.back() ) ); h += s( p.back() ) + " "; }
	R x = mc::pick( vector< int >{ 0, -3 } ); h += "at "; for ( int i = 0; i < n - 2; ++i ) { if ( i ) x += mc::pick( vector< R >{ 1, 0.5L, 3 } ); t.push_back( x ); tt.push_back( T( x ) ); h += s( x ) + " "; } MC_STEP( "spline " << h );
	catmull_rom< P, T > c( pp, tt ); int k = n - 3; for ( int i = 0; i < n - 2; ++i ) cmp( c( tt[ i ] ), p[ i + 1 ], "value at knot " + s( t[ i ] ) + " of " + h );
	for ( int i = 0; i < k; ++i ) for ( int q = i ? 1 : -12; q < ( i == k - 1 ? 20 : 8 ); ++q ) { mc::step(); R u = q / R( 8 ), a = t[ i ] + u * ( t[ i + 1 ] - t[ i ] ); cmp( c( T( a ) ), uniform( &p[ i ], u ), "value at " + s( a ) + " of " + h ); }
	mc::state( h ); mc::outcome( uint64_t( 1000 + 16 * uniform( &p[ 0 ], 0.5L ) ) );
}
MC_SCENARIO_SPLIT( spline_double, 3 ) { spline< double, double >(); }
MC_SCENARIO_SPLIT( spline_float, 3 ) { spline< float, float >(); }
MC_SCENARIO_SPLIT( spline_vectors, 3 ) { spline< math::vec3d, double >(); }

/// too few points, or times that do not belong to the points, are refused
MC_SCENARIO( malformed ) {
	int n = mc::range( 0, 6 ), m = mc::range( 0, 6 ); vector< double > p( n, 1.0 ), t; for ( int i = 0; i < m; ++i ) t.push_back( i ); bool ok = n >= 4 && m == n - 2; MC_STEP( n << " points, " << m << " times" ); bool threw = false; try { catmull_rom< double, double > c( p, t ); } catch ( const std::exception& ) { threw = true; }
	MC_CHECK( threw == !ok, "spline of " << n << " points and " << m << " times " << ( threw ? "refused" : "accepted" ) ); mc::state( uint64_t( n * 10 + m ) ); mc::outcome( uint64_t( ok ) );
}

struct poly { vector< V > p; mutable int calls = 0; math::vec3d operator()( float t ) const { ++calls; int i = int( t ); if ( i < 0 ) i = 0; if ( i > int( p.size() ) - 2 ) i = int( p.size() ) - 2; V v = p[ i ] + ( R( t ) - i ) * ( p[ i + 1 ] - p[ i ] ); return math::vec3d( double( v.x ), double( v.y ), double( v.z ) ); } };
MC_SCENARIO( lengths ) {
	int n = mc::range( 1, mc::bound( 3, 4 ) ); poly c; c.p.push_back( {} ); string h; for ( int i = 0; i < n; ++i ) { int k = mc::choose( 5 ); c.p.push_back( c.p.back() + dirs[ k ] ); h += s( k ) + " "; } int a = mc::range( 0, n - 1 ), b = mc::range( a + 1, n ), steps = mc::range( 1, mc::bound( 12, 24 ) ); bool back = mc::flip(); if ( back ) std::swap( a, b ); MC_STEP( "curve " << h << "from " << a << " to " << b << " in " << steps );
	R want = 0; V q; for ( int i = 0; i <= steps; ++i ) { R t = a + R( b - a ) * i / steps; int j = int( float( t ) ); if ( j > n - 1 ) j = n - 1; V v = c.p[ j ] + ( t - j ) * ( c.p[ j + 1 ] - c.p[ j ] ); if ( i ) want += lin::len( v - q ); q = v; }
	double got = compute_spline_length( c, float( a ), float( b ), steps ); MC_CHECK( lin::ok( std::abs( R( got ) - want ), 1e-4L ), "length of " << h << "from " << a << " to " << b << " in " << steps << " steps is " << got << ", expected " << double( want ) );
	R full = 0; for ( int i = std::min( a, b ); i < std::max( a, b ); ++i ) full += lin::len( c.p[ i + 1 ] - c.p[ i ] ); MC_CHECK( R( got ) <= full + 1e-4L, "length exceeds that of the curve" ); if ( steps % std::abs( b - a ) == 0 ) MC_CHECK( lin::ok( std::abs( R( got ) - full ), 1e-4L ), "length of a polygon walked corner by corner is " << got << ", expected " << double( full ) );
	mc::state( h + s( a ) + s( b ) + s( steps ) ); mc::outcome( s( got ) );
}
template< typename P, typename T > void long_spline() { // many control values, none of them on a line
	int n = mc::pick( { 7, 8, 9, 16, 17, 18, 33, 64, 66, 100, 129, 257, 1000 } ), shape = mc::choose( 2 ); R first = mc::pick( vector< int >{ 0, -50 } ); vector< R > p, t; vector< P > pp; vector< T > tt; R x = first; for ( int i = 0; i < n; ++i ) { p.push_back( shape ? ( i * 37 ) % 11 - 5 : i % 3 ); pp.push_back( point< P, T >( p.back() ) ); } for ( int i = 0; i < n - 2; ++i ) { if ( i ) x += R( 1 + ( i * 5 ) % 3 ) / 2; t.push_back( x ); tt.push_back( T( x ) ); } MC_STEP( "spline of " << n << " values of shape " << shape ); catmull_rom< P, T > c( pp, tt ); string h = std::to_string( n ) + " values";
	for ( int i = 0; i < n - 3; ++i ) for ( int q = 0; q < 4; ++q ) { mc::step(); R u = q / R( 4 ), a = t[ i ] + u * ( t[ i + 1 ] - t[ i ] ); cmp( c( T( a ) ), uniform( &p[ i ], u ), "value at " + s( a ) + " of " + h ); } cmp( c( tt.back() ), p[ n - 2 ], "value at the last knot of " + h ); mc::state( uint64_t( n * 10 + shape ) * 2 + ( first < 0 ) );
}
MC_SCENARIO_SPLIT( long_double, 2 ) { long_spline< double, double >(); } MC_SCENARIO_SPLIT( long_vectors, 2 ) { long_spline< math::vec3d, double >(); }
}
