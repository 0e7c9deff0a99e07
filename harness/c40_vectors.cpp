// C40 vector and angle arithmetic
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: every pair of {-2..2}^3 and every triple of {-1..1}^3 for 3-vectors, every pair of {-1..1}^4 (thorough {-2..2}^4) for 4-vectors, 7 scalars of three types, matrices of every triple of {-1..1}^3 axes, plain, assigning and self-assigning forms, float and double; angles: all multiples of 1 degree in -720..720 (thorough 1/4 degree) and of pi/24 in -4pi..4pi, all pairs of multiples of 15 degrees in -360..360 in every combination of units and value types; vectors of 26 directions at 23 (double) and 14 (float) magnitudes from 1e-300 to 1e150; literals; inverse functions at 65 arguments; vectors of {1,-2,4,0.5} scaled and divided by each of their own components
// MC-ORACLE: component-wise arithmetic on exactly representable values; trigonometry and conversion in long double
#include "gen.hpp"
#include "lin.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/mat33.hpp"
#include "flut/math/angle.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using namespace flut::math; using std::string; using std::vector; typedef long double R;
template< typename T > R eps() { return sizeof( T ) == 8 ? 1e-14L : 2e-6L; }
template< typename V, int N > struct Ops {
	template< typename A > static vector< R > of( const A& v ) { vector< R > r; for ( int i = 0; i < N; ++i ) r.push_back( v[ i ] ); return r; }
	static string show( const vector< R >& v ) { std::ostringstream o; o << "("; for ( auto x : v ) o << " " << double( x ); o << " )"; return o.str(); }
	template< typename A > static void is( const A& got, const vector< R >& want, const char* what, R t = 0 ) { auto g = of( got ); for ( int i = 0; i < N; ++i ) MC_CHECK( std::abs( g[ i ] - want[ i ] ) <= t * ( 1 + std::abs( want[ i ] ) ), what << " is " << show( g ) << ", expected " << show( want ) ); }
	template< typename F > static vector< R > map( const vector< R >& a, const vector< R >& b, F f ) { vector< R > r; for ( int i = 0; i < N; ++i ) r.push_back( f( a[ i ], b[ i ] ) ); return r; }
	template< typename T > static void pair( const V& a, const V& b ) {
		auto A = of( a ), B = of( b ); auto add = map( A, B, []( R x, R y ) { return x + y; } ), sub = map( A, B, []( R x, R y ) { return x - y; } ), neg = map( A, B, []( R x, R y ) { return -x; } ), dbl = map( A, A, []( R x, R y ) { return x + y; } ), nil = map( A, A, []( R x, R y ) { return R( 0 ); } );
		is( a + b, add, "sum" ); is( a - b, sub, "difference" ); is( -a, neg, "negation" ); V c = a; V& r1 = ( c += b ); is( c, add, "assigned sum" ); MC_CHECK( &r1 == &c, "assigned sum returns another object" ); V d = a; V& r2 = ( d -= b ); is( d, sub, "assigned difference" ); MC_CHECK( &r2 == &d, "assigned difference returns another object" ); V e = a; e += e; is( e, dbl, "vector added to itself" ); V f = a; f -= f; is( f, nil, "vector subtracted from itself" ); is( a, A, "operand" ); is( b, B, "operand" );
		is( ( a + b ) - b, A, "sum and difference" ); is( a + ( -a ), nil, "sum with the negation" );
	}
	template< typename T > static void scale( const V& a, T s ) {
		auto A = of( a ); auto m = map( A, A, [&]( R x, R ) { return x * s; } ); is( a * s, m, "scaled vector" ); is( s * a, m, "scaled vector (scalar first)" ); V c = a; V& r = ( c *= s ); is( c, m, "scaled in place" ); MC_CHECK( &r == &c, "scaling in place returns another object" ); for ( int i = 0; i < N; ++i ) { V d = a; d *= d[ i ]; is( d, map( A, A, [&]( R x, R ) { return x * A[ i ]; } ), "vector scaled by its own component" ); if ( A[ i ] != 0 ) { V e = a; e /= e[ i ]; is( e, map( A, A, [&]( R x, R ) { return x / A[ i ]; } ), "vector divided by its own component", eps<T>() ); } }
		if ( s != 0 ) { auto q = map( A, A, [&]( R x, R ) { return x / s; } ); is( a / s, q, "divided vector", eps<T>() ); V d = a; V& r3 = ( d /= s ); is( d, q, "divided in place", eps<T>() ); MC_CHECK( &r3 == &d, "division in place returns another object" ); }
		is( a, A, "operand" );
	}
};
template< typename T > vec3_<T> v3( int k, int m ) { int n = 2 * m + 1; return vec3_<T>( T( k % n - m ), T( k / n % n - m ), T( k / n / n - m ) ); }
template< typename T > vec4_<T> v4( int k, int m ) { int n = 2 * m + 1; return vec4_<T>( T( k % n - m ), T( k / n % n - m ), T( k / n / n % n - m ), T( k / n / n / n - m ) ); }
#define NEAR( got, want, t, what ) do { R g_ = ( got ), w_ = ( want ); MC_CHECK( std::abs( g_ - w_ ) <= ( t ) * ( 1 + std::abs( w_ ) ), what << " is " << double( g_ ) << ", expected " << double( w_ ) ); } while ( 0 )

template< typename T > void pairs3() { typedef vec3_<T> V; typedef Ops< V, 3 > O; int i = mc::choose( 125 ), j = mc::choose( 125 ); V a = v3<T>( i, 2 ), b = v3<T>( j, 2 ); MC_STEP( "vectors " << O::show( O::of( a ) ) << " and " << O::show( O::of( b ) ) ); O::template pair<T>( a, b ); R e = eps<T>();
	R dot = R( a.x ) * b.x + R( a.y ) * b.y + R( a.z ) * b.z; NEAR( dot_product( a, b ), dot, 0, "dot product" ); V x = cross_product( a, b ); O::is( x, { R( a.y ) * b.z - R( a.z ) * b.y, R( a.z ) * b.x - R( a.x ) * b.z, R( a.x ) * b.y - R( a.y ) * b.x }, "cross product" );
	O::is( a * b, { R( a.x ) * b.x, R( a.y ) * b.y, R( a.z ) * b.z }, "component product" ); V c = a; V& r = ( c *= b ); O::is( c, { R( a.x ) * b.x, R( a.y ) * b.y, R( a.z ) * b.z }, "assigned component product" ); MC_CHECK( &r == &c, "assigned component product returns another object" ); NEAR( distance( a, b ), std::sqrt( ( R( a.x ) - b.x ) * ( R( a.x ) - b.x ) + ( R( a.y ) - b.y ) * ( R( a.y ) - b.y ) + ( R( a.z ) - b.z ) * ( R( a.z ) - b.z ) ), e, "distance" );
	MC_EQ( a == b, i == j, "equality" ); MC_EQ( a != b, i != j, "inequality" ); mc::state( i * 125 + j ); mc::outcome( uint64_t( dot + 100 ) );
}
MC_SCENARIO_SPLIT( pairs3_double, 2 ) { pairs3< double >(); }
MC_SCENARIO_SPLIT( pairs3_float, 2 ) { pairs3< float >(); }
template< typename T > void single3() { typedef vec3_<T> V; typedef Ops< V, 3 > O; int i = mc::choose( 125 ); V a = v3<T>( i, 2 ); auto A = O::of( a ); static const vector< double > ss = { 0, 1, -1, 2, -3, 0.5, -0.25 }; double s = mc::pick( ss ); MC_STEP( "vector " << O::show( A ) << " scalar " << s ); O::template scale<T>( a, T( s ) ); O::is( a * float( s ), O::of( a * T( s ) ), "scaled by float" ); O::is( float( s ) * a, O::of( a * T( s ) ), "scaled by float" ); O::is( a * int( s ), { A[ 0 ] * int( s ), A[ 1 ] * int( s ), A[ 2 ] * int( s ) }, "scaled by integer" ); R e = eps<T>();
	R q = A[ 0 ] * A[ 0 ] + A[ 1 ] * A[ 1 ] + A[ 2 ] * A[ 2 ], l = std::sqrt( q ); NEAR( length( a ), l, e, "length" ); NEAR( a.length(), l, e, "length" ); NEAR( squared_length( a ), q, 0, "squared length" ); NEAR( a.squared_length(), q, 0, "squared length" ); MC_EQ( a.is_null(), q == 0, "is_null" );
	if ( q > 0 ) { vector< R > u = { A[ 0 ] / l, A[ 1 ] / l, A[ 2 ] / l }; O::is( normalized( a ), u, "normalized", e ); O::is( a.normalized(), u, "normalized", e ); V n = a; normalize( n ); O::is( n, u, "normalized in place", e ); MC_EQ( bool( is_normalized( a ) ), q == 1, "is_normalized" ); } else O::is( normalized( a ), { 0, 0, 0 }, "normalized null vector" );
	V c = a; c.clear(); O::is( c, { 0, 0, 0 }, "cleared" ); V d( a ); O::is( d, A, "copy" ); vec3_< double > dd( a ); Ops< vec3_< double >, 3 >::is( dd, A, "converted copy" ); vec3_< float > ff; ff = a; Ops< vec3_< float >, 3 >::is( ff, A, "converted assignment" ); V st; st.set( a.x, a.y, a.z ); O::is( st, A, "set" ); V un( ( T( s ) ) ); O::is( un, { R( T( s ) ), R( T( s ) ), R( T( s ) ) }, "uniform" ); O::is( V::uniform( T( s ) ), O::of( un ), "uniform" );
	const V& ca = a; MC_CHECK( ca[ 0 ] == a.x && ca[ 1 ] == a.y && ca[ 2 ] == a.z, "component access" ); vector< T > it( ca.begin(), ca.end() ); MC_CHECK( it.size() == 3 && it[ 0 ] == a.x && it[ 1 ] == a.y && it[ 2 ] == a.z, "iteration" ); V w; int k = 0; for ( auto& x : w ) x = T( A[ k++ ] ); O::is( w, A, "components written by iteration" ); V w2; for ( int j = 0; j < 3; ++j ) w2[ j ] = T( A[ j ] ); O::is( w2, A, "components written by index" );
	V t = T( s ) * a; std::ostringstream o; o << t; std::istringstream in( o.str() ); V rd; in >> rd; O::is( rd, O::of( t ), "text read back" ); MC_CHECK( bool( in ), "text is not readable" ); prop_node pn; pn.set( t ); O::is( pn.get< V >(), O::of( t ), "read back from properties" ); prop_node pv; pv.set_value( o.str() ); O::is( pv.get< V >(), O::of( t ), "read back from a property value" ); mc::state( i * 10 + int( s * 4 ) ); mc::outcome( uint64_t( q ) );
}
MC_SCENARIO_SPLIT( single3_double, 2 ) { single3< double >(); }
MC_SCENARIO_SPLIT( single3_float, 2 ) { single3< float >(); }
MC_SCENARIO( triples3 ) { typedef vec3d V; typedef Ops< V, 3 > O; V a = v3< double >( mc::choose( 27 ), 1 ), b = v3< double >( mc::choose( 27 ), 1 ), c = v3< double >( mc::choose( 27 ), 1 ); MC_STEP( "vectors " << O::show( O::of( a ) ) << O::show( O::of( b ) ) << O::show( O::of( c ) ) ); O::is( ( a + b ) + c, O::of( a + ( b + c ) ), "associativity" ); O::is( 2.0 * ( a + b ) - c, O::of( 2.0 * a + 2.0 * b - c ), "distributivity" ); MC_CHECK( dot_product( a, b + c ) == dot_product( a, b ) + dot_product( a, c ), "dot product is not linear" ); O::is( cross_product( a, b + c ), O::of( cross_product( a, b ) + cross_product( a, c ) ), "linear cross product" ); MC_CHECK( dot_product( a, cross_product( b, c ) ) == dot_product( b, cross_product( c, a ) ), "triple product" ); O::is( cross_product( a, cross_product( b, c ) ), O::of( dot_product( a, c ) * b - dot_product( a, b ) * c ), "double cross product" ); mc::state( O::show( O::of( a ) ) + O::show( O::of( b ) ) + O::show( O::of( c ) ) ); mc::outcome( uint64_t( 10 + dot_product( a, cross_product( b, c ) ) ) ); }
template< typename T > void matrices() { int i = mc::choose( 27 ), j = mc::choose( 27 ), k = mc::choose( 27 ); auto x = v3<T>( i, 1 ), y = T( 3 ) * v3<T>( j, 1 ), z = T( 7 ) * v3<T>( k, 1 ); MC_STEP( "axes " << i << " " << j << " " << k ); auto m = mat33_from_axes( x, y, z ); for ( int r = 0; r < 3; ++r ) { MC_CHECK( m[ r ][ 0 ] == x[ r ] && m[ r ][ 1 ] == y[ r ] && m[ r ][ 2 ] == z[ r ], "row " << r << " of the matrix of three axes" ); for ( int c = 0; c < 3; ++c ) MC_CHECK( m.ptr() + r * 3 + c == &m[ r ][ c ], "position of element " << r << "," << c ); } T* e[] = { &m.e00, &m.e01, &m.e02, &m.e10, &m.e11, &m.e12, &m.e20, &m.e21, &m.e22 }; for ( int p = 0; p < 9; ++p ) MC_CHECK( e[ p ] == &m[ p / 3 ][ p % 3 ], "named element " << p ); mat33_<T> n( x.x, y.x, z.x, x.y, y.y, z.y, x.z, y.z, z.z ), c( m ); for ( int p = 0; p < 9; ++p ) MC_CHECK( n.ptr()[ p ] == m.ptr()[ p ] && c.ptr()[ p ] == m.ptr()[ p ], "element " << p ); c[ 1 ][ 2 ] = 99; MC_CHECK( c.e12 == 99 && m.e12 == z.y, "writing an element" ); mc::state( i * 1000 + j * 30 + k ); mc::outcome( uint64_t( i ) ); }
MC_SCENARIO( matrices_double ) { matrices< double >(); }
MC_SCENARIO( matrices_float ) { matrices< float >(); }
template< typename T > void units() { typedef vec3_<T> V; typedef Ops< V, 3 > O; MC_STEP( "unit vectors" ); O::is( V::unit_x(), { 1, 0, 0 }, "unit_x" ); O::is( V::unit_y(), { 0, 1, 0 }, "unit_y" ); O::is( V::unit_z(), { 0, 0, 1 }, "unit_z" ); O::is( V::neg_unit_x(), { -1, 0, 0 }, "neg_unit_x" ); O::is( V::neg_unit_y(), { 0, -1, 0 }, "neg_unit_y" ); O::is( V::neg_unit_z(), { 0, 0, -1 }, "neg_unit_z" ); O::is( V::zero(), { 0, 0, 0 }, "zero" ); O::is( V(), { 0, 0, 0 }, "default" ); for ( int i = 0; i < 3; ++i ) O::is( V::unit( i ), { R( i == 0 ), R( i == 1 ), R( i == 2 ) }, "unit" ); typedef vec4_<T> W; typedef Ops< W, 4 > P; P::is( W::unit_x(), { 1, 0, 0, 0 }, "unit_x" ); P::is( W::unit_y(), { 0, 1, 0, 0 }, "unit_y" ); P::is( W::unit_z(), { 0, 0, 1, 0 }, "unit_z" ); P::is( W::unit_w(), { 0, 0, 0, 1 }, "unit_w" ); P::is( W::zero(), { 0, 0, 0, 0 }, "zero" ); P::is( W(), { 0, 0, 0, 0 }, "default" ); mc::state( "u" ); mc::outcome( "u" ); }
MC_SCENARIO_SPLIT( units_double, 1 ) { mc::choose( 1 ); units< double >(); }
MC_SCENARIO_SPLIT( units_float, 1 ) { mc::choose( 1 ); units< float >(); }
template< typename T > void pairs4() { typedef vec4_<T> V; typedef Ops< V, 4 > O; int m = mc::bound( 1, 2 ), n = m == 1 ? 81 : 625; int i = mc::choose( n ), j = mc::choose( n ); V a = v4<T>( i, m ), b = v4<T>( j, m ); MC_STEP( "vectors " << O::show( O::of( a ) ) << " and " << O::show( O::of( b ) ) ); O::template pair<T>( a, b ); mc::state( i * n + j ); mc::outcome( uint64_t( a.x + b.w + 10 ) ); }
MC_SCENARIO_SPLIT( pairs4_double, 2 ) { pairs4< double >(); }
MC_SCENARIO_SPLIT( pairs4_float, 2 ) { pairs4< float >(); }
template< typename T > void single4() { typedef vec4_<T> V; typedef Ops< V, 4 > O; int i = mc::choose( 625 ); V a = v4<T>( i, 2 ); auto A = O::of( a ); static const vector< double > ss = { 0, 1, -1, 2, -3, 0.5, -0.25 }; double s = mc::pick( ss ); MC_STEP( "vector " << O::show( A ) << " scalar " << s ); O::template scale<T>( a, T( s ) ); R q = 0; for ( auto x : A ) q += x * x; NEAR( a.length(), std::sqrt( q ), eps<T>(), "length" ); NEAR( a.squared_length(), q, 0, "squared length" ); MC_EQ( a.is_null(), q == 0, "is_null" ); const V c( a ); O::is( c, A, "copy" ); MC_CHECK( c[ 0 ] == c.x && c[ 1 ] == c.y && c[ 2 ] == c.z && c[ 3 ] == c.w, "component access" ); mc::state( i * 10 + int( s * 4 ) ); mc::outcome( uint64_t( q ) ); }
MC_SCENARIO_SPLIT( single4_double, 2 ) { single4< double >(); }
MC_SCENARIO_SPLIT( single4_float, 2 ) { single4< float >(); }

template< typename T > void angle_is( degree_<T> d, radian_<T> r, R deg_ ) {
	R rad_ = deg_ * lin::pi / 180, t = sizeof( T ) == 8 ? 1e-13L : 1e-6L; NEAR( d.deg_value(), deg_, 0.2L * t, "degree value of degrees" ); NEAR( d.rad_value(), rad_, t, "radian value of degrees" ); NEAR( r.rad_value(), rad_, t, "radian value of radians" ); NEAR( r.deg_value(), deg_, t, "degree value of radians" ); NEAR( d.value, deg_, 0.2L * t, "value in degrees" ); NEAR( r.value, rad_, t, "value in radians" );
	NEAR( d.radian().value, rad_, t, "degrees to radians" ); NEAR( d.degree().value, deg_, 0.2L * t, "degrees to degrees" ); NEAR( r.degree().value, deg_, t, "radians to degrees" ); NEAR( r.radian().value, rad_, t, "radians to radians" ); radian_<T> r2( d ); NEAR( r2.value, rad_, t, "radians constructed from degrees" ); degree_<T> d2( r ); NEAR( d2.value, deg_, t, "degrees constructed from radians" ); degree_<T> d3; MC_CHECK( d3.value == 0, "default angle" ); d3 = r; NEAR( d3.value, deg_, t, "degrees assigned from radians" ); radian_<T> r3; r3 = d; NEAR( r3.value, rad_, t, "radians assigned from degrees" ); degree_< double > dd( d ); NEAR( dd.value, deg_, t, "converted value type" ); radian_< float > rf; rf = r; NEAR( rf.value, rad_, 1e-6L, "converted value type" ); d3 = d; MC_CHECK( d3.value == d.value, "assigned angle" ); degree_<T> d4( d ); MC_CHECK( d4.value == d.value && d4 == d, "copied angle" );
	R ta = sizeof( T ) == 8 ? 1e-12L : 2e-5L; NEAR( flut::math::sin( d ), std::sin( rad_ ), ta, "sine of degrees" ); NEAR( flut::math::sin( r ), std::sin( rad_ ), ta, "sine of radians" ); NEAR( flut::math::cos( d ), std::cos( rad_ ), ta, "cosine of degrees" ); NEAR( flut::math::cos( r ), std::cos( rad_ ), ta, "cosine of radians" ); R c = std::cos( rad_ ); if ( std::abs( c ) > 0.05L ) { R tn = std::tan( rad_ ); NEAR( flut::math::tan( d ), tn, ta * 500, "tangent of degrees" ); NEAR( flut::math::tan( r ), tn, ta * 500, "tangent of radians" ); }
	std::ostringstream o; o.precision( 20 ); o << d; std::istringstream in( o.str() ); degree_<T> back; in >> back; MC_CHECK( back.value == d.value, "angle written as " << o.str() << " reads back as " << back.value ); string txt = o.str(); char_stream cs( txt.c_str() ); degree_<T> back2; cs >> back2; NEAR( back2.value, d.value, t, "angle read back from a text stream" ); MC_CHECK( ( -d ).value == -d.value && ( -r ).value == -r.value, "negation" ); MC_CHECK( R( double( d ) ) == R( d.value ) && R( float( r ) ) == R( float( r.value ) ) && R( double( r ) ) == R( r.value ) && R( float( d ) ) == R( float( d.value ) ), "explicit conversion to a number" );
	mc::state( uint64_t( ( deg_ + 10000 ) * 64 ) ); mc::outcome( o.str() );
}
template< typename T > void angles() { bool in_rad = mc::flip(); R v; if ( !in_rad ) { int den = mc::bound( 1, 4 ); v = R( mc::range( -720 * den, 720 * den ) ) / den; MC_STEP( "angle " << double( v ) << " degrees" ); angle_is<T>( deg( T( v ) ), rad( T( v * lin::pi / 180 ) ), v ); } else { v = mc::range( -96, 96 ) * lin::pi / 24; MC_STEP( "angle " << double( v ) << " radians" ); angle_is<T>( degree_<T>( T( v * 180 / lin::pi ) ), radian_<T>( T( v ) ), v * 180 / lin::pi ); } }
MC_SCENARIO_SPLIT( angles_double, 2 ) { angles< double >(); }
MC_SCENARIO_SPLIT( angles_float, 2 ) { angles< float >(); }
template< typename A, typename T1, typename B, typename T2 > void angle_pair() { // A of T1, B of T2
	R x = mc::range( -24, 24 ) * 15, y = mc::range( -24, 24 ) * 15; R t = sizeof( T1 ) == 8 && sizeof( T2 ) == 8 ? 1e-12L : 2e-5L; A a; a = degree_< T1 >( T1( x ) ); B b; b = degree_< T2 >( T2( y ) ); MC_STEP( "angles " << double( x ) << " and " << double( y ) );
	A c( a ); A& r = ( c += b ); NEAR( c.deg_value(), x + y, t, "assigned sum" ); MC_CHECK( &r == &c, "assigned sum returns another object" ); A d( a ); d -= b; NEAR( d.deg_value(), x - y, t, "assigned difference" ); if ( x != y ) { MC_EQ( a < b, x < y, "smaller" ); MC_EQ( a > b, x > y, "greater" ); MC_EQ( a <= b, x <= y, "smaller or equal" ); MC_EQ( a >= b, x >= y, "greater or equal" ); MC_EQ( a == b, false, "equal" ); MC_EQ( a != b, true, "different" ); }
	for ( double s : { 0.5, 2.0, -3.0, 1.0 } ) { NEAR( ( a * s ).deg_value(), x * s, t, "scaled angle" ); NEAR( ( s * a ).deg_value(), x * s, t, "scaled angle (scalar first)" ); NEAR( ( a / s ).deg_value(), x / s, t, "divided angle" ); A e( a ); e *= s; NEAR( e.deg_value(), x * s, t, "scaled in place" ); A f( a ); f /= s; NEAR( f.deg_value(), x / s, t, "divided in place" ); NEAR( ( a * int( 3 ) ).deg_value(), x * 3, t, "scaled by integer" ); }
	A same( a ); MC_CHECK( same == a && same <= a && same >= a && !( same != a ) && !( same < a ) && !( same > a ), "comparison with itself" ); mc::state( uint64_t( x * 1000 + y + 1e6 ) ); mc::outcome( uint64_t( x + y + 1e6 ) );
}
template< typename A, typename B > void same_unit() { R x = mc::range( -24, 24 ) * 15, y = mc::range( -24, 24 ) * 15; A a( x ); B b( y ); MC_STEP( "same unit " << double( x ) << " and " << double( y ) ); NEAR( ( a + b ).value, x + y, 0, "sum" ); NEAR( ( a - b ).value, x - y, 0, "difference" ); mc::state( uint64_t( x * 1000 + y + 1e6 ) ); mc::outcome( uint64_t( x - y + 1e6 ) ); }
MC_SCENARIO_SPLIT( angle_pairs_dd, 2 ) { angle_pair< degreed, double, degreed, double >(); }
MC_SCENARIO_SPLIT( angle_pairs_rd, 2 ) { angle_pair< radiand, double, degreed, double >(); }
MC_SCENARIO_SPLIT( angle_pairs_dr, 2 ) { angle_pair< degreed, double, radiand, double >(); }
MC_SCENARIO_SPLIT( angle_pairs_rf, 2 ) { angle_pair< radianf, float, degreed, double >(); }
MC_SCENARIO_SPLIT( same_unit_mixed, 2 ) { if ( mc::flip() ) same_unit< degreef, degreed >(); else same_unit< radiand, radianf >(); }
MC_SCENARIO_SPLIT( polar, 2 ) { R inc = mc::range( -12, 12 ) * 15, az = mc::range( -24, 24 ) * 15, rad_ = mc::pick( vector< int >{ 1, 3, 0, -2 } ); MC_STEP( "polar " << double( rad_ ) << " " << double( inc ) << " " << double( az ) ); R I = inc * lin::pi / 180, A = az * lin::pi / 180; auto v = vec3_from_polar( double( rad_ ), degreed( inc ), degreed( az ) ); Ops< vec3d, 3 >::is( v, { rad_ * std::sin( I ) * std::sin( A ), rad_ * std::cos( I ), rad_ * std::sin( I ) * std::cos( A ) }, "polar vector", 1e-12L ); auto w = vec3_from_polar( double( rad_ ), radiand( I ), radiand( A ) ); Ops< vec3d, 3 >::is( w, Ops< vec3d, 3 >::of( v ), "polar vector in radians", 1e-12L ); mc::state( uint64_t( inc * 10000 + az * 10 + rad_ + 1e8 ) ); mc::outcome( uint64_t( rad_ ) ); }
template< typename T > void magnitudes() { // components from tiny to huge: nothing is lost to underflow or thresholds
	typedef vec3_<T> V; typedef Ops< V, 3 > O; static const double base[] = { 0, 1, -2.5 }; int k = mc::range( 1, 26 ); V u( T( base[ k % 3 ] ), T( base[ k / 3 % 3 ] ), T( base[ k / 9 ] ) ); int ex = sizeof( T ) == 8 ? mc::pick( { -300, -200, -160, -100, -15, -14, -12, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 5, 10, 100, 150 } ) : mc::pick( { -40, -30, -20, -6, -5, -4, -3, -2, -1, 1, 2, 5, 10, 15 } ); T f = T( std::pow( 10.0L, ex ) ); V a( u.x * f, u.y * f, u.z * f ); auto A = O::of( a ); MC_STEP( "vector " << O::show( A ) );
	MC_CHECK( !a.is_null() && a != V() && !( a == V() ) && V() != a && a == V( a ), "a vector of magnitude 1e" << ex << " compares as null" ); V b( a ); b.y = b.y == 0 ? f : b.y * 2; MC_CHECK( a != b && !( a == b ), "vectors that differ by 1e" << ex << " are equal" ); O::is( -a, { -A[ 0 ], -A[ 1 ], -A[ 2 ] }, "negation" ); O::is( a + V(), A, "sum with null" ); O::is( a - V(), A, "difference with null" ); V h = a; h *= T( 2 ); O::is( h, { A[ 0 ] * 2, A[ 1 ] * 2, A[ 2 ] * 2 }, "doubled" );
	R l = std::sqrt( A[ 0 ] * A[ 0 ] + A[ 1 ] * A[ 1 ] + A[ 2 ] * A[ 2 ] ), e = eps<T>(); R tiny = sizeof( T ) == 8 ? 1e-120L : 1e-15L; if ( l > tiny ) { MC_CHECK( std::abs( a.length() / l - 1 ) <= e && std::abs( length( a ) / l - 1 ) <= e && std::abs( distance( a, V() ) / l - 1 ) <= e && std::abs( a.squared_length() / ( l * l ) - 1 ) <= 4 * e, "length " << double( a.length() ) << ", expected " << double( l ) ); O::is( a.normalized(), { A[ 0 ] / l, A[ 1 ] / l, A[ 2 ] / l }, "normalized", e ); }
	if ( l > ( sizeof( T ) == 8 ? 1e-14L : 1e-5L ) ) { O::is( normalized( a ), { A[ 0 ] / l, A[ 1 ] / l, A[ 2 ] / l }, "normalized", e ); V n = a; normalize( n ); O::is( n, { A[ 0 ] / l, A[ 1 ] / l, A[ 2 ] / l }, "normalized in place", e ); } mc::state( O::show( A ) ); mc::outcome( uint64_t( ex + 1000 ) );
}
MC_SCENARIO_SPLIT( magnitudes_double, 2 ) { magnitudes< double >(); }
MC_SCENARIO_SPLIT( magnitudes_float, 2 ) { magnitudes< float >(); }
MC_SCENARIO( angle_literals ) { MC_STEP( "literals" ); int k = mc::choose( 3 ); MC_CHECK( ( 0_degf ).value == 0 && ( 90_degf ).value == 90 && ( 360_degf ).value == 360 && ( 400_degf ).value == 400 && ( 720_degf ).value == 720 && ( 1000000_degf ).value == 1e6f, "whole degrees" ); MC_CHECK( ( 0.5_degf ).value == 0.5f && ( 179.25_degf ).value == 179.25f && ( 725.125_degf ).value == 725.125f, "fractions of degrees" ); MC_CHECK( ( 0_radf ).value == 0 && ( 1_radf ).value == 1 && ( 7_radf ).value == 7 && ( 100_radf ).value == 100 && ( 0.25_radf ).value == 0.25f && ( 6.5_radf ).value == 6.5f, "radians" ); MC_CHECK( deg( 12.5 ).value == 12.5 && rad( 12.5f ).value == 12.5f && deg( -400.0 ).value == -400 && rad( -400.0 ).value == -400, "deg and rad" ); mc::state( uint64_t( k ) ); }
MC_SCENARIO( inverse_functions ) { // of plain values and of angles in either unit
	R x = mc::range( -32, 32 ) / R( 32 ); MC_STEP( "argument " << double( x ) ); radiand r( x ); degreed d( x * 180 / lin::pi ); NEAR( flut::math::asin( r ), std::asin( x ), 1e-12L, "arc sine" ); NEAR( flut::math::acos( r ), std::acos( x ), 1e-12L, "arc cosine" ); NEAR( flut::math::atan( r ), std::atan( x ), 1e-12L, "arc tangent" ); NEAR( flut::math::atan( d ), std::atan( x ), 1e-12L, "arc tangent of degrees" ); if ( std::abs( x ) < 0.99L ) { NEAR( flut::math::asin( d ), std::asin( x ), 1e-12L, "arc sine of degrees" ); NEAR( flut::math::acos( d ), std::acos( x ), 1e-12L, "arc cosine of degrees" ); } if ( x != 0 ) for ( R k : { 1.0L, -2.0L, 0.5L } ) NEAR( ( double( k ) / r ).value, k / x, 1e-14L, "number divided by an angle" ); mc::state( uint64_t( x * 32 + 100 ) ); }
template< typename V, typename T, int N > void own_component() { // scaled or divided by one of its own components
	typedef Ops< V, N > O; static const double base[] = { 1, -2, 4, 0.5 }; V a; for ( int i = 0; i < N; ++i ) a[ i ] = T( base[ mc::choose( 4 ) ] ); int j = mc::choose( N ); bool div = mc::flip(); auto A = O::of( a ); MC_STEP( "vector " << O::show( A ) << ( div ? " divided" : " multiplied" ) << " by its component " << j ); auto want = A; for ( auto& x : want ) x = div ? x / A[ j ] : x * A[ j ]; V b = a; if ( div ) b /= b[ j ]; else b *= b[ j ]; O::is( b, want, "result" ); mc::state( O::show( A ) ); mc::outcome( O::show( want ) );
}
MC_SCENARIO_SPLIT( own_component_3d, 2 ) { own_component< vec3d, double, 3 >(); }
MC_SCENARIO_SPLIT( own_component_3f, 2 ) { own_component< vec3f, float, 3 >(); }
MC_SCENARIO_SPLIT( own_component_4d, 2 ) { own_component< vec4d, double, 4 >(); }
}
