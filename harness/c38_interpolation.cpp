// C38 interpolation, sampled functions, polynomials, regression
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: keyed series of 1..4 (thorough 1..5) samples over 3 first keys, 4 gaps and 4 values (scalar float/double and 3-vectors), queried at every quarter from 3 before the first to 3 beyond the last key and far outside (up to 1e30 and infinity); indexed series of 1..5 (thorough 1..6) samples likewise; piecewise linear functions of 1..5 (thorough 1..6) intervals over 3 start points, 5 widths and every table of 3 sample values, queried from three intervals below to three above and up to 1e30 away; polynomials of degree 1..4 over all coefficients in -2..2 (degree 4: -1..1) at a grid of arguments; regression of every set of 2..4 (thorough 2..5) points over 5 x 4 values with at least two distinct x, and of all equidistant series of 2..6 points over 4 steps; series, functions and regressions of up to 1025 samples in 3 shapes; regressions of up to 4 (thorough 5) points in 5 x 3 units, with integer and single precision arguments; the named polynomial types with coefficients in -2..2; every sample approached from both sides to 2^-17
// MC-ORACLE: straight lines, defining sums and normal equations in long double
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/buffer/interpolation.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/linear_regression.hpp"
#include <deque>
#include <array>
namespace vh { // own names do not clash with names of the library
using namespace flut; using std::string; using std::vector; typedef long double R;
template< typename T > R tol() { return sizeof( T ) == 8 ? 1e-12L : 1e-4L; }
template< typename T > void near( T got, R want, const string& what ) { MC_CHECK( std::abs( R( got ) - want ) <= tol<T>() * ( 1 + std::abs( want ) ), what << " is " << double( got ) << ", expected " << double( want ) ); }
template< typename T > void near( const math::vec3_<T>& got, R want, const string& what ) { near( got.x, want, what + " x" ); near( got.y, 2 - want * 3, what + " y" ); near( got.z, want * want >= 0 ? want / 2 : want, what + " z" ); }
template< typename V > struct Make { static V at( R v ) { return V( v ); } }; template< typename T > struct Make< math::vec3_<T> > { static math::vec3_<T> at( R v ) { return math::vec3_<T>( T( v ), T( 2 - 3 * v ), T( v / 2 ) ); } }; // affine images of v
static string s( R x ) { std::ostringstream o; o << double( x ); return o.str(); }
static const vector< int > gaps = { 1, 2, 3, 8 }; static const vector< int > firsts = { 0, -5, 9 }; static const vector< int > vals = { 0, 3, -2, 7 }; // in quarters / plain

template< typename K, typename V > void keyed( int maxlen ) {
	int n = mc::range( 1, maxlen ); vector< std::pair< K, V > > c; vector< R > x, y; R k = mc::pick( firsts ) / R( 4 ); string h;
	for ( int i = 0; i < n; ++i ) { if ( i ) k += mc::pick( gaps ) / R( 4 ); R v = mc::pick( vals ); x.push_back( k ); y.push_back( v ); c.push_back( { K( k ), Make<V>::at( v ) } ); h += s( k ) + ":" + s( v ) + " "; }
	MC_STEP( "series " << h ); auto probe = [&]( R q ) { mc::step(); R want; if ( q <= x[ 0 ] ) want = y[ 0 ]; else if ( q >= x.back() ) want = y.back(); else { size_t i = 0; while ( x[ i + 1 ] < q ) ++i; want = y[ i ] + ( y[ i + 1 ] - y[ i ] ) * ( q - x[ i ] ) / ( x[ i + 1 ] - x[ i ] ); } near( interpolated_value( c, K( q ) ), want, "value at " + s( q ) + " of " + h ); };
	for ( R q = x[ 0 ] - 3; q <= x.back() + 3; q += 0.125L ) probe( q ); for ( R k0 : x ) for ( R e : { 1 / 32.0L, 1 / 256.0L, 1 / 2048.0L, 1 / 16384.0L, 1 / 131072.0L } ) { probe( k0 - e ); probe( k0 + e ); } for ( R far : { 1e9L, 1e12L, 1e20L, 1e30L, R( INFINITY ) } ) { probe( -far ); probe( far ); } mc::state( h ); mc::outcome( y.front() * 100 + y.back() );
}
MC_SCENARIO( keyed_double ) { keyed< double, double >( mc::bound( 4, 5 ) ); }
MC_SCENARIO( keyed_float ) { keyed< float, float >( mc::bound( 3, 4 ) ); }
MC_SCENARIO( keyed_vectors ) { keyed< double, math::vec3d >( mc::bound( 3, 4 ) ); }
template< typename K, typename V > void indexed( int maxlen ) {
	int n = mc::range( 1, maxlen ); vector< V > c; vector< R > y; string h; for ( int i = 0; i < n; ++i ) { R v = mc::pick( vals ); y.push_back( v ); c.push_back( Make<V>::at( v ) ); h += s( v ) + " "; }
	MC_STEP( "series " << h ); auto probe = [&]( R q ) { mc::step(); R want; if ( q <= 0 ) want = y[ 0 ]; else if ( q >= n - 1 ) want = y.back(); else { size_t i = size_t( q ); want = y[ i ] + ( y[ i + 1 ] - y[ i ] ) * ( q - i ); } near( interpolated_value( c, K( q ) ), want, "value at " + s( q ) + " of " + h ); };
	for ( R q = -3; q <= n + 3; q += 0.125L ) probe( q ); for ( int k0 = 0; k0 < n; ++k0 ) for ( R e : { 1 / 32.0L, 1 / 256.0L, 1 / 2048.0L, 1 / 16384.0L, 1 / 131072.0L } ) { probe( k0 - e ); probe( k0 + e ); } for ( R far : { 1e9L, 1e12L, 1e20L, 1e30L, R( INFINITY ) } ) { probe( -far ); probe( far ); } mc::state( h ); mc::outcome( y.front() * 100 + y.back() );
}
MC_SCENARIO( indexed_double ) { indexed< double, double >( mc::bound( 5, 6 ) ); }
MC_SCENARIO( indexed_float ) { indexed< float, float >( mc::bound( 4, 5 ) ); }
MC_SCENARIO( indexed_vectors ) { indexed< double, math::vec3d >( mc::bound( 4, 5 ) ); }

MC_SCENARIO( no_samples ) { int k = mc::choose( 4 ); MC_STEP( "empty series " << k ); vector< double > a; vector< std::pair< double, double > > b; double q = mc::pick( vector< double >{ 0, -1, 2.5 } ); MC_CHECK( k == 0 ? MC_THROWS( interpolated_value( a, q ) ) : k == 1 ? MC_THROWS( interpolated_value( b, q ) ) : k == 2 ? MC_THROWS( interpolated_value( vector< float >(), float( q ) ) ) : MC_THROWS( interpolated_value( vector< std::pair< float, float > >(), float( q ) ) ), "empty series not refused" ); mc::state( std::to_string( k ) + s( q ) ); mc::outcome( uint64_t( k ) ); }

template< typename T > void piecewise() {
	int n = mc::range( 1, mc::bound( 5, 6 ) ); static const vector< int > starts = { 0, -7, 5 }, widths = { 1, 2, 3, 8, 20 }; R lo = mc::pick( starts ) / R( 2 ), w = mc::pick( widths ) / R( 2 ); vector< R > y; string h = s( lo ) + "+" + s( w ) + ":"; for ( int i = 0; i <= n; ++i ) { y.push_back( mc::pick( vector< int >{ 0, 4, -3 } ) ); h += s( y.back() ) + " "; }
	MC_STEP( "function " << h ); R dx = w / n; vector< int > asked( n + 1, 0 );
	math::regular_piecewise_linear_function< T > f( T( lo ), T( lo + w ), n, [&]( double x ) -> double { R i = ( x - lo ) / dx; long k = lroundl( i ); if ( k < 0 || k > n || std::abs( i - k ) > ( sizeof( T ) == 8 ? 1e-9L : 1e-3L ) ) mc::fail( "function sampled at " + s( x ) + ", which is not a sample point" ); ++asked[ k ]; return y[ k ]; } );
	for ( int i = 0; i <= n; ++i ) MC_CHECK( asked[ i ] >= 1, "sample point " << i << " is not sampled" );
	for ( int q = -3 * 8; q <= ( n + 3 ) * 8; ++q ) { mc::step(); R p = q / R( 8 ); int i = int( std::floor( p ) ); if ( i < 0 ) i = 0; if ( i > n - 1 ) i = n - 1; R want = y[ i ] + ( y[ i + 1 ] - y[ i ] ) * ( p - i ); near( f( T( lo + p * dx ) ), want, "value at " + s( lo + p * dx ) + " of " + h ); }
	for ( int k = 0; k <= n; ++k ) for ( R e : { 1 / 32.0L, 1 / 1024.0L, 1 / 8192.0L, 1 / 131072.0L } ) for ( int sg : { -1, 1 } ) { mc::step(); R p = k + sg * e; int i = int( std::floor( p ) ); if ( i < 0 ) i = 0; if ( i > n - 1 ) i = n - 1; R want = y[ i ] + ( y[ i + 1 ] - y[ i ] ) * ( p - i ); near( f( T( lo + p * dx ) ), want, "value at " + s( lo + p * dx ) + " of " + h ); }
	for ( R far : { 1e5L, 1e9L, 1e10L, 1e12L, 1e20L, 1e30L } ) for ( R x : { -far, far } ) { mc::step(); R p = ( x - lo ) / dx; int i = p < 0 ? 0 : n - 1; R want = y[ i ] + ( y[ i + 1 ] - y[ i ] ) * ( p - i ); R got = f( T( x ) ); MC_CHECK( std::abs( got - want ) <= tol<T>() * ( 1 + 4 * std::abs( p ) ), "value at " << s( x ) << " of " << h << " is " << s( got ) << ", expected " << s( want ) ); }
	mc::state( h ); mc::outcome( y.front() * 100 + y.back() );
}
MC_SCENARIO( piecewise_double ) { piecewise< double >(); }
MC_SCENARIO( piecewise_float ) { piecewise< float >(); }

template< typename T, size_t D, size_t... I > polynomial< T, D > build( const vector< T >& c, std::index_sequence< I... > ) { return polynomial< T, D >( T( c[ I ] )... ); }
template< typename T, size_t D > void poly( int m ) {
	vector< T > c; string h; for ( size_t i = 0; i <= D; ++i ) { c.push_back( T( mc::range( -m, m ) ) ); h += s( c.back() ) + " "; } MC_STEP( "coefficients " << h ); const auto p = build< T, D >( c, std::make_index_sequence< D + 1 >() ); const polynomial< T, D > q( p ); polynomial< T, D > e; for ( size_t i = 0; i <= D; ++i ) { MC_CHECK( e[ i ] == 0, "default coefficient" ); e[ i ] = c[ i ]; }
	for ( size_t i = 0; i <= D; ++i ) MC_CHECK( p[ i ] == c[ i ] && q[ i ] == c[ i ] && e[ i ] == c[ i ], "coefficient " << i ); MC_CHECK( p.offset() == c[ 0 ] && p.slope() == c[ 1 ], "offset or slope" );
	for ( int k = -12; k <= 12; ++k ) { mc::step(); R x = k / R( 4 ), want = 0; for ( size_t i = 0; i <= D; ++i ) { R t = c[ i ]; for ( size_t j = 0; j < i; ++j ) t *= x; want += t; } near( p( T( x ) ), want, "value at " + s( x ) + " of " + h ); near( e( T( x ) ), want, "value at " + s( x ) + " of " + h ); near( q( T( x ) ), want, "value of a copy at " + s( x ) + " of " + h ); }
	mc::state( h ); mc::outcome( uint64_t( p( T( 2 ) ) + 1000 ) );
}
MC_SCENARIO_SPLIT( linear, 1 ) { poly< double, 1 >( mc::bound( 8, 30 ) ); }
MC_SCENARIO_SPLIT( quadratic, 2 ) { poly< double, 2 >( mc::bound( 2, 6 ) ); }
MC_SCENARIO( cubic ) { poly< double, 3 >( mc::bound( 2, 4 ) ); }
MC_SCENARIO( cubic_float ) { poly< float, 3 >( 2 ); }
MC_SCENARIO( quartic ) { poly< double, 4 >( mc::bound( 1, 2 ) ); }
MC_SCENARIO_SPLIT( intersections, 1 ) { int a = mc::range( -6, 6 ), b = mc::range( -6, 6 ); if ( b == 0 ) mc::discard(); MC_STEP( "line " << a << " + " << b << " x" ); const linear_function< double > f( double( a ) / 2, double( b ) / 2 ); for ( int k = -20; k <= 20; ++k ) { double x = k / 4.0; near( intersect_y( f, f( x ) ), x, "argument of " + s( f( x ) ) ); near( f( intersect_y( f, x ) ), x, "line at the intersection with " + s( x ) ); } mc::state( a * 100 + b ); mc::outcome( a * 100 + b ); }

template< typename T > void fits( const linear_function< T >& f, const vector< R >& x, const vector< R >& y, const string& what ) { R n = x.size(), sx = 0, sy = 0, sxx = 0, sxy = 0; for ( size_t i = 0; i < x.size(); ++i ) { sx += x[ i ]; sy += y[ i ]; sxx += x[ i ] * x[ i ]; sxy += x[ i ] * y[ i ]; } R b = ( n * sxy - sx * sy ) / ( n * sxx - sx * sx ), a = ( sy - b * sx ) / n; near( f.slope(), b, what + " slope" ); near( f.offset(), a, what + " offset" ); }
template< typename T > void regression( int maxn ) {
	int n = mc::range( 2, maxn ); vector< R > x, y; static const vector< int > xs = { 0, 1, -2, 3, 10 }; string h; for ( int i = 0; i < n; ++i ) { x.push_back( mc::pick( xs ) / R( 2 ) ); y.push_back( mc::pick( vals ) ); h += s( x.back() ) + "," + s( y.back() ) + " "; } bool distinct = false; for ( int i = 1; i < n; ++i ) distinct |= x[ i ] != x[ 0 ]; if ( !distinct ) mc::discard();
	MC_STEP( "points " << h ); vector< T > vx( x.begin(), x.end() ), vy( y.begin(), y.end() ); std::deque< T > dx( x.begin(), x.end() ); fits< T >( linear_regression( vx.begin(), vx.end(), vy.begin(), vy.end() ), x, y, "regression of ranges " + h ); fits< T >( linear_regression( vx, vy ), x, y, "regression of containers " + h ); fits< T >( linear_regression( dx, vy ), x, y, "regression of deque and vector " + h ); mc::state( h ); mc::outcome( h );
}
MC_SCENARIO( regression_double ) { regression< double >( mc::bound( 4, 5 ) ); }
MC_SCENARIO( regression_float ) { regression< float >( mc::bound( 3, 4 ) ); }
template< typename T > void equidistant() {
	int n = mc::range( 2, mc::bound( 6, 7 ) ); static const vector< int > steps = { 4, 1, 10, -2 }; R b = mc::pick( firsts ), d = mc::pick( steps ) / R( 4 ); vector< R > x, y; string h = s( b ) + "+" + s( d ) + ": "; for ( int i = 0; i < n; ++i ) { x.push_back( b + i * d ); y.push_back( mc::pick( vals ) ); h += s( y.back() ) + " "; } MC_STEP( "series " << h ); vector< T > vx( x.begin(), x.end() ), vy( y.begin(), y.end() ); fits< T >( linear_regression( T( b ), T( d ), vy ), x, y, "regression of equidistant points " + h ); fits< T >( linear_regression( vx, vy ), x, y, "regression of points " + h ); mc::state( h ); mc::outcome( h );
}
MC_SCENARIO( equidistant_double ) { equidistant< double >(); }
MC_SCENARIO( equidistant_float ) { equidistant< float >(); }
MC_SCENARIO_SPLIT( long_series, 2 ) { // sizes beyond any buffer; shapes that have no straight part
	int n = mc::pick( { 7, 8, 9, 16, 17, 33, 64, 65, 100, 129, 255, 256, 257, 1000, 1024, 1025 } ), shape = mc::choose( 3 ); R first = mc::pick( vector< int >{ 0, -300, 1000 } ); vector< double > idx; vector< std::pair< double, double > > key; vector< R > x, y; MC_STEP( n << " samples of shape " << shape << " from " << s( first ) ); R k = first; for ( int i = 0; i < n; ++i ) { R v = shape == 0 ? R( i ) * i : shape == 1 ? ( i * 37 ) % 101 : ( i % 2 ? -i : i ); if ( i ) k += R( 1 + ( i * 5 ) % 7 ) / 4; x.push_back( k ); y.push_back( v ); idx.push_back( double( v ) ); key.push_back( { double( k ), double( v ) } ); }
	for ( int i = 0; i < n; ++i ) for ( int q = 0; q < 4; ++q ) { mc::step(); R f = q / R( 4 ), want = i + 1 < n ? y[ i ] + f * ( y[ i + 1 ] - y[ i ] ) : y[ i ]; near( interpolated_value( idx, double( i + f ) ), want, "value at " + s( i + f ) + " of " + std::to_string( n ) ); R at = i + 1 < n ? x[ i ] + f * ( x[ i + 1 ] - x[ i ] ) : x[ i ] + f; near( interpolated_value( key, double( at ) ), want, "value at key " + s( at ) + " of " + std::to_string( n ) ); }
	for ( R far : { 1.0L, 500.0L, 1e6L } ) { near( interpolated_value( idx, double( -far ) ), y[ 0 ], "value before the first" ); near( interpolated_value( idx, double( n - 1 + far ) ), y.back(), "value after the last" ); near( interpolated_value( key, double( x[ 0 ] - far ) ), y[ 0 ], "value before the first key" ); near( interpolated_value( key, double( x.back() + far ) ), y.back(), "value after the last key" ); } mc::state( uint64_t( n * 10 + shape ) * 7 + uint64_t( first + 300 ) );
}
MC_SCENARIO_SPLIT( fine_functions, 2 ) {
	int n = mc::pick( { 7, 8, 9, 16, 17, 32, 33, 64, 100, 128, 256, 257, 512, 1000, 1024 } ), shape = mc::choose( 2 ); R lo = mc::pick( vector< int >{ 0, -7, 100 } ), w = mc::pick( vector< int >{ 1, 16, 500 } ); R dx = w / n; auto val = [&]( int i ) { return shape ? R( ( i * 37 ) % 101 ) : R( i ) * i; }; MC_STEP( n << " intervals from " << s( lo ) << " over " << s( w ) ); math::regular_piecewise_linear_function< double > f( double( lo ), double( lo + w ), n, [&]( double x ) -> double { return double( val( int( lroundl( ( x - lo ) / dx ) ) ) ); } );
	for ( int q = -8; q <= ( n + 2 ) * 4; ++q ) { mc::step(); R p = q / R( 4 ) + ( q % 4 ? 0 : 0.01L ); int i = int( std::floor( p ) ); if ( i < 0 ) i = 0; if ( i > n - 1 ) i = n - 1; R want = val( i ) + ( val( i + 1 ) - val( i ) ) * ( p - i ); R got = f( double( lo + p * dx ) ); MC_CHECK( std::abs( got - want ) <= 1e-7L * ( 1 + std::abs( want ) ), "value at " << s( lo + p * dx ) << " is " << s( got ) << ", expected " << s( want ) ); } mc::state( uint64_t( n * 10 + shape ) * 3000 + uint64_t( lo + 7 ) * 10 + uint64_t( w ) % 7 );
}
MC_SCENARIO_SPLIT( long_regressions, 2 ) {
	int n = mc::pick( { 8, 16, 17, 33, 64, 65, 100, 257, 1000, 1025 } ), shape = mc::choose( 3 ); R b = mc::pick( vector< int >{ 0, -9, 100 } ), d = mc::pick( vector< R >{ 1, 0.25L, -2 } ); vector< R > x, y; for ( int i = 0; i < n; ++i ) { x.push_back( b + i * d ); y.push_back( shape == 0 ? 3 * i + 1 : shape == 1 ? ( i * 37 ) % 101 : i % 2 ); } vector< double > vx( x.begin(), x.end() ), vy( y.begin(), y.end() ); MC_STEP( n << " points of shape " << shape );
	R mx = 0, my = 0, sxx = 0, sxy = 0; for ( int i = 0; i < n; ++i ) { mx += x[ i ] / n; my += y[ i ] / n; } for ( int i = 0; i < n; ++i ) { sxx += ( x[ i ] - mx ) * ( x[ i ] - mx ); sxy += ( x[ i ] - mx ) * ( y[ i ] - my ); } R sl = sxy / sxx, of = my - sl * mx; auto ok = [&]( const linear_function< double >& f, const char* w ) { MC_CHECK( std::abs( f.slope() - sl ) <= 1e-8L * ( 1 + std::abs( sl ) ) && std::abs( f.offset() - of ) <= 1e-7L * ( 1 + std::abs( of ) ), w << ": slope " << s( f.slope() ) << " offset " << s( f.offset() ) << ", expected " << s( sl ) << " and " << s( of ) ); };
	ok( linear_regression( vx, vy ), "containers" ); ok( linear_regression( vx.begin(), vx.end(), vy.begin(), vy.end() ), "ranges" ); ok( linear_regression( double( b ), double( d ), vy ), "equidistant points" ); mc::state( uint64_t( n * 10 + shape ) * 1000 + uint64_t( b + 10 ) * 3 + uint64_t( d + 3 ) );
}
MC_SCENARIO_SPLIT( scaled_regressions, 3 ) { // small and large units, far origins, integer and single precision arguments
	int n = mc::range( 2, mc::bound( 4, 5 ) ); vector< int > xi; vector< double > yv; for ( int i = 0; i < n; ++i ) { xi.push_back( mc::pick( { 0, 1, -3, 8 } ) ); yv.push_back( mc::choose( 3 ) == 0 ? 0 : ( ( i * 5 + 3 ) % 7 ) - 2.5 ); } double sx = mc::pick( { 1e-6, 1e-3, 1.0, 1e3, 1e6 } ), sy = mc::pick( { 1e-6, 1.0, 1e6 } ); bool distinct = false; for ( int i = 1; i < n; ++i ) distinct |= xi[ i ] != xi[ 0 ]; if ( !distinct ) mc::discard(); vector< double > x, y; vector< float > xf( xi.begin(), xi.end() ); R mx = 0, my = 0, num = 0, den = 0; for ( int i = 0; i < n; ++i ) { x.push_back( xi[ i ] * sx ); y.push_back( yv[ i ] * sy ); mx += xi[ i ]; my += yv[ i ]; } mx /= n; my /= n; for ( int i = 0; i < n; ++i ) { num += ( xi[ i ] - mx ) * ( yv[ i ] - my ); den += ( xi[ i ] - mx ) * ( xi[ i ] - mx ); } R b = num / den, a = my - b * mx; MC_STEP( n << " points " << mc::show( xi ) << " in units of " << sx << " and " << sy );
	auto ok = [&]( const linear_function< double >& f, R ux, R uy, const char* w ) { MC_CHECK( std::abs( f.slope() * ux / uy - b ) <= 1e-11L && std::abs( f.offset() / uy - a ) <= 1e-11L, "regression of " << w << " is " << f.offset() << " + " << f.slope() << " x, expected " << double( a * uy ) << " + " << double( b * uy / ux ) << " x" ); };
	ok( linear_regression( x, y ), sx, sy, "containers" ); ok( linear_regression( x.begin(), x.end(), y.begin(), y.end() ), sx, sy, "ranges" ); ok( linear_regression( xi, y ), 1, sy, "integer arguments" ); ok( linear_regression( xf, y ), 1, sy, "single precision arguments" ); std::deque< int > xd( xi.begin(), xi.end() ); ok( linear_regression( xd.begin(), xd.end(), y.begin(), y.end() ), 1, sy, "ranges with integer arguments" );
	mc::state( mc::show( xi ) + mc::show( y ) + std::to_string( sx ) );
}
template< typename F, int D > void named( const char* n ) { MC_STEP( n ); MC_CHECK( sizeof( F ) >= ( D + 1 ) * sizeof( double ), n << " cannot hold " << D + 1 << " coefficients" ); F f; for ( int i = 0; i <= D; ++i ) f[ i ] = mc::range( -2, 2 ); for ( int k = -4; k <= 4; ++k ) { R want = 0, p = 1; for ( int i = 0; i <= D; ++i, p *= k ) want += f[ i ] * p; near( f( double( k ) ), want, string( n ) + " at " + s( R( k ) ) ); } mc::state( string( n ) + s( R( f( 3.0 ) ) ) ); mc::outcome( uint64_t( f( 1.0 ) + 100 ) ); }
MC_SCENARIO( named_functions ) { switch ( mc::choose( 3 ) ) { case 0: named< linear_function< double >, 1 >( "linear function" ); break; case 1: named< quadratic_function< double >, 2 >( "quadratic function" ); break; default: named< cubic_function< double >, 3 >( "cubic function" ); } }
}
