// C36 rotation conversions
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: axes: all 124 nonzero vectors of {-2..2}^3; angles: all multiples of 15 degrees in -360..360 (quick) or of 5 degrees in -720..720 (thorough), in both units; Euler angles: all triples of multiples of 30 (quick) or 15 (thorough) degrees in all six orders; all pairs of the 124 directions (thorough: {-3..3}^3) including parallel and opposite ones at different lengths; all pairs of 60 orientations; coordinate axes of every orientation of the axis/angle grid and all 24 signed permutations; in float and double; chains of up to 7 rotations (40 x 40, thorough 80 x 80, orientations) that end at turns of 0 to 1e-3 about 4 axes; tiny rotations (6 angles from 1e-9 to 1e-3, up to 8 compositions); all axes with components out of 0, 1e-9, 1e-6, 1e-3, 0.1 and 1 of both signs (largest 1) at 15 angles at and around half, third and full turns; pitch, yaw and roll of every rotation of these grids
// MC-ORACLE: rotation matrices in long double (Rodrigues formula)
#include "gen.hpp"
#include "lin.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using namespace flut::math;
using std::string; using std::vector; using lin::V; using lin::M; using lin::R;
template< typename T > V v( const vec3_<T>& a ) { return { a.x, a.y, a.z }; }
template< typename T > string s( const quat_<T>& a ) { std::ostringstream o; o.precision( 12 ); o << "[" << a.w << " " << a.x << " " << a.y << " " << a.z << "]"; return o.str(); }
template< typename T > vec3_<T> to( V a ) { return vec3_<T>( T( a.x ), T( a.y ), T( a.z ) ); }
template< typename T > R tol() { return sizeof( T ) == 8 ? 1e-11L : 3e-5L; }     // direct formulas
template< typename T > R loose() { return sizeof( T ) == 8 ? 2e-7L : 2e-3L; }     // formulas through an arc cosine
static V small( int k ) { if ( k >= 62 ) ++k; return { R( k % 5 - 2 ), R( k / 5 % 5 - 2 ), R( k / 25 - 2 ) }; } // 124 nonzero vectors
template< typename T > M acts( const quat_<T>& q ) { M m; V c[ 3 ] = { v( q * vec3_<T>::unit_x() ), v( q * vec3_<T>::unit_y() ), v( q * vec3_<T>::unit_z() ) }; for ( int j = 0; j < 3; ++j ) { m.m[ j ] = c[ j ].x; m.m[ 3 + j ] = c[ j ].y; m.m[ 6 + j ] = c[ j ].z; } return m; }
template< typename T > void is_rotation( const quat_<T>& q, const M& want, R t, const char* what ) { M got = acts( q ); R d = lin::diff( got, want ); MC_CHECK( lin::ok( d, t ), what << ": " << s( q ) << " takes the axes to " << lin::str( lin::col( got, 0 ) ) << lin::str( lin::col( got, 1 ) ) << lin::str( lin::col( got, 2 ) ) << ", expected " << lin::str( lin::col( want, 0 ) ) << lin::str( lin::col( want, 1 ) ) << lin::str( lin::col( want, 2 ) ) ); MC_CHECK( lin::ok( std::abs( length( q ) - 1 ), t ), what << ": not of unit length" ); }
static int angle_step() { return mc::bound( 15, 5 ); } static int angle_max() { return mc::bound( 360, 720 ); }

template< typename T > void decompose( const quat_<T>& q, const M& want ) { // to axis and angle, rotation vector, axes - and back
	auto aa = axis_angle_from_quat( q ); V ax = v( aa.first ); R an = aa.second.rad_value(); MC_CHECK( lin::ok( std::abs( lin::len( ax ) - 1 ), tol<T>() * 10 ), "axis " << lin::str( ax ) << " of " << s( q ) << " is not of unit length" ); M m = lin::rot( lin::unit( ax ), an ); MC_CHECK( lin::ok( lin::diff( m, want ), loose<T>() ), "axis " << lin::str( ax ) << " and angle " << double( an ) << " of " << s( q ) << " is another rotation" );
	V rv = v( rotation_vector_from_quat( q ) ); R l = lin::len( rv ); M m2 = l > 1e-12L ? lin::rot( lin::unit( rv ), l ) : M(); MC_CHECK( lin::ok( lin::diff( m2, want ), loose<T>() ), "rotation vector " << lin::str( rv ) << " of " << s( q ) << " is another rotation" );
	struct { R sn, cs, got; const char* n; } pl[] = { { want.m[ 7 ], want.m[ 4 ], pitch( q ).rad_value(), "pitch" }, { want.m[ 2 ], want.m[ 8 ], yaw( q ).rad_value(), "yaw" }, { want.m[ 3 ], want.m[ 0 ], roll( q ).rad_value(), "roll" } }; auto eu = euler_from_quat( q ); MC_CHECK( eu.x == pitch( q ) && eu.y == yaw( q ) && eu.z == roll( q ), "Euler angles are not pitch, yaw and roll" );
	for ( auto& k : pl ) { R r = std::sqrt( k.sn * k.sn + k.cs * k.cs ); if ( r > R( 0.01 ) ) { R e = std::atan2( k.sn, k.cs ); MC_CHECK( lin::ok( std::abs( std::remainder( k.got - e, 2 * lin::pi ) ), tol<T>() * 10 / r ), k.n << " of " << s( q ) << " is " << double( k.got ) << ", expected " << double( e ) ); } } // angle of the turned axis in its coordinate plane
	auto x = q * vec3_<T>::unit_x(), y = q * vec3_<T>::unit_y(), z = q * vec3_<T>::unit_z(); is_rotation( quat_from_axes( x, y, z ), want, tol<T>() * 10, "rotation from axes" );
	is_rotation( normalized( quat_<T>( q.w * 3, q.x * 3, q.y * 3, q.z * 3 ) ), want, tol<T>() * 10, "normalized rotation" ); auto q2 = quat_<T>( q.w * T( 0.125 ), q.x * T( 0.125 ), q.y * T( 0.125 ), q.z * T( 0.125 ) ); auto& ref = normalize( q2 ); is_rotation( q2, want, tol<T>() * 10, "normalized rotation" ); MC_CHECK( &ref == &q2, "normalize returns another object" );
}
template< typename T > void axis_angles() {
	V ax = small( mc::choose( 124 ) ); int k = mc::choose( 2 * angle_max() / angle_step() + 1 ); R deg_ = -angle_max() + k * angle_step(); MC_STEP( "axis " << lin::str( ax ) << " angle " << double( deg_ ) );
	auto a = normalized( to<T>( ax ) ); M want = lin::rot( lin::unit( ax ), deg_ * lin::pi / 180 );
	auto q = quat_from_axis_angle( a, degree_<T>( deg_ ) ); is_rotation( q, want, tol<T>(), "rotation from axis and angle" ); auto qr = quat_from_axis_angle( a, radian_<T>( deg_ * lin::pi / 180 ) ); is_rotation( qr, want, tol<T>(), "rotation from axis and angle in radians" );
	decompose( q, want ); decompose( quat_<T>( -q.w, -q.x, -q.y, -q.z ), want ); auto id = q * -q; decompose( id, M() ); auto twice = q * q; decompose( twice, want * want ); auto back = twice * -q; decompose( back, want );
	int nz = ( ax.x != 0 ) + ( ax.y != 0 ) + ( ax.z != 0 ); if ( nz == 1 ) { R e = std::remainder( deg_ * ( ax.x + ax.y + ax.z > 0 ? 1 : -1 ) * lin::pi / 180, 2 * lin::pi ); R got = ax.x != 0 ? pitch( q ).rad_value() : ax.y != 0 ? yaw( q ).rad_value() : roll( q ).rad_value(); MC_CHECK( lin::ok( std::abs( std::remainder( got - e, 2 * lin::pi ) ), tol<T>() * 10 ), "angle about the axis is " << double( got ) << ", expected " << double( e ) ); auto eu = euler_from_quat( q ); R g2 = ax.x != 0 ? eu.x.rad_value() : ax.y != 0 ? eu.y.rad_value() : eu.z.rad_value(); MC_CHECK( g2 == got, "euler_from_quat component" ); }
	mc::state( lin::str( ax ) + std::to_string( k ) ); mc::outcome( s( quat_< float >( q ) ) );
}
MC_SCENARIO_SPLIT( axis_angles_double, 2 ) { axis_angles< double >(); }
MC_SCENARIO_SPLIT( axis_angles_float, 2 ) { axis_angles< float >(); }
template< typename T > void eulers() {
	int st = mc::bound( 30, 15 ), n = 360 / st; int a[ 3 ]; for ( int& x : a ) x = -180 + st * mc::choose( n ); M rx = lin::rot( { 1, 0, 0 }, a[ 0 ] * lin::pi / 180 ), ry = lin::rot( { 0, 1, 0 }, a[ 1 ] * lin::pi / 180 ), rz = lin::rot( { 0, 0, 1 }, a[ 2 ] * lin::pi / 180 );
	MC_STEP( "Euler angles " << a[ 0 ] << " " << a[ 1 ] << " " << a[ 2 ] ); typedef euler_order E; struct { E e; M m; const char* n; } o[] = { { E::xyz, rx * ry * rz, "xyz" }, { E::xzy, rx * rz * ry, "xzy" }, { E::yxz, ry * rx * rz, "yxz" }, { E::yzx, ry * rz * rx, "yzx" }, { E::zxy, rz * rx * ry, "zxy" }, { E::zyx, rz * ry * rx, "zyx" } };
	degree_<T> x( a[ 0 ] ), y( a[ 1 ] ), z( a[ 2 ] ); radian_<T> xr( x ), yr( y ), zr( z );
	for ( auto& c : o ) { auto q = quat_from_euler( x, y, z, c.e ); is_rotation( q, c.m, tol<T>(), c.n ); is_rotation( quat_from_euler( xr, yr, zr, c.e ), c.m, tol<T>(), c.n ); is_rotation( quat_from_euler( vec3_< degree_<T> >( x, y, z ), c.e ), c.m, tol<T>(), c.n ); decompose( q, c.m ); }
	is_rotation( quat_from_euler( x, y, z ), o[ 0 ].m, tol<T>(), "default order" ); mc::state( std::to_string( a[ 0 ] ) + "," + std::to_string( a[ 1 ] ) + "," + std::to_string( a[ 2 ] ) ); mc::outcome( s( quat_< float >( quat_from_euler( x, y, z ) ) ) );
}
MC_SCENARIO_SPLIT( eulers_double, 2 ) { eulers< double >(); }
MC_SCENARIO_SPLIT( eulers_float, 2 ) { eulers< float >(); }
template< typename T > void directions() {
	int n = mc::bound( 5, 7 ), c = n * n * n, h = n / 2; auto sm = [&]( int k ) { if ( k >= c / 2 ) ++k; return V{ R( k % n - h ), R( k / n % n - h ), R( k / ( n * n ) - h ) }; };
	V a = sm( mc::choose( c - 1 ) ), b = sm( mc::choose( c - 1 ) ); MC_STEP( "from " << lin::str( a ) << " to " << lin::str( b ) ); auto q = quat_from_directions( to<T>( a ), to<T>( b ) ); V got = v( q * normalized( to<T>( a ) ) ), want = lin::unit( b );
	MC_CHECK( lin::ok( lin::diff( got, want ), loose<T>() ), "rotation from " << lin::str( a ) << " to " << lin::str( b ) << " is " << s( q ) << ", which gives " << lin::str( got ) ); MC_CHECK( lin::ok( std::abs( length( q ) - 1 ), loose<T>() ), "not of unit length: " << s( q ) );
	// the shortest rotation: nothing along the common normal is turned, and the angle is the angle between the directions
	V nrm = lin::cross( a, b ); if ( lin::len( nrm ) > 1e-6L ) { V u = lin::unit( nrm ); MC_CHECK( lin::ok( lin::diff( v( q * to<T>( u ) ), u ), loose<T>() ), "rotation " << s( q ) << " is not about the common normal" ); }
	mc::state( lin::str( a ) + lin::str( b ) ); mc::outcome( s( quat_< float >( q ) ) );
}
MC_SCENARIO_SPLIT( directions_double, 2 ) { directions< double >(); }
MC_SCENARIO_SPLIT( directions_float, 2 ) { directions< float >(); }
template< typename T > void pairs() {
	auto gen = [&]( int k, M& m ) { V ax = lin::unit( small( ( k * 29 ) % 124 ) ); R a = ( k % 12 * 30 - 150 ) * lin::pi / 180; m = lin::rot( ax, a ); return quat_<T>( T( std::cos( a / 2 ) ), T( std::sin( a / 2 ) * ax.x ), T( std::sin( a / 2 ) * ax.y ), T( std::sin( a / 2 ) * ax.z ) ); };
	M ma, mb; auto a = gen( mc::choose( 60 ), ma ), b = gen( mc::choose( 60 ), mb ); MC_STEP( "from " << s( a ) << " to " << s( b ) ); auto r = quat_from_quats( a, b ); is_rotation( r, lin::transposed( ma ) * mb, tol<T>(), "rotation between orientations" ); is_rotation( a * r, mb, tol<T>(), "applying the rotation between orientations" ); decompose( r, lin::transposed( ma ) * mb ); decompose( a * b, ma * mb ); mc::state( s( a ) + s( b ) ); mc::outcome( s( quat_< float >( r ) ) );
}
MC_SCENARIO_SPLIT( pairs_double, 2 ) { pairs< double >(); }
MC_SCENARIO_SPLIT( pairs_float, 2 ) { pairs< float >(); }
MC_SCENARIO_SPLIT( signed_permutations, 2 ) {
	static const int perm[ 6 ][ 3 ] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; int p = mc::choose( 6 ), sg = mc::choose( 8 ); V c[ 3 ]; for ( int j = 0; j < 3; ++j ) { R g = sg >> j & 1 ? -1 : 1; c[ j ] = { g * ( perm[ p ][ j ] == 0 ), g * ( perm[ p ][ j ] == 1 ), g * ( perm[ p ][ j ] == 2 ) }; }
	if ( lin::dot( lin::cross( c[ 0 ], c[ 1 ] ), c[ 2 ] ) < 0 ) mc::discard(); MC_STEP( "axes " << lin::str( c[ 0 ] ) << lin::str( c[ 1 ] ) << lin::str( c[ 2 ] ) ); M m; for ( int j = 0; j < 3; ++j ) { m.m[ j ] = c[ j ].x; m.m[ 3 + j ] = c[ j ].y; m.m[ 6 + j ] = c[ j ].z; }
	auto q = quat_from_axes( to< double >( c[ 0 ] ), to< double >( c[ 1 ] ), to< double >( c[ 2 ] ) ); is_rotation( q, m, tol< double >(), "rotation from axes" ); decompose( q, m ); is_rotation( quat_from_axes( to< float >( c[ 0 ] ), to< float >( c[ 1 ] ), to< float >( c[ 2 ] ) ), m, tol< float >(), "rotation from axes" ); mc::state( s( q ) ); mc::outcome( s( q ) );
}
MC_SCENARIO_SPLIT( normalizing, 2 ) {
	V a = small( mc::choose( 124 ) ); double f = mc::pick( { 1.0, 1e-3, 1e3, 0.1, 1e-5, 1e-8, 1e-12, 1e6, 1e12 } ); int w = mc::range( -2, 2 ); MC_STEP( "normalize " << f << " times " << lin::str( a ) ); vec3d p = to< double >( f * a ), n = normalized( p ), n2 = p; normalize( n2 ); V u = lin::unit( a ); for ( auto& x : { n, n2, p.normalized() } ) MC_CHECK( lin::ok( lin::diff( v( x ), u ), 1e-14L ), "normalized " << lin::str( v( x ) ) ); vec3f pf( p ); if ( f > 1e-6 ) MC_CHECK( lin::ok( lin::diff( v( normalized( pf ) ), u ), 1e-6L ), "normalized float vector" );
	quatd q( w * f, p.x, p.y, p.z ), k = normalized( q ); R l = std::sqrt( R( q.w ) * q.w + R( q.x ) * q.x + R( q.y ) * q.y + R( q.z ) * q.z ); MC_CHECK( lin::ok( std::max( { std::abs( k.w - q.w / l ), std::abs( k.x - q.x / l ), std::abs( k.y - q.y / l ), std::abs( k.z - q.z / l ) } ), 1e-14L ), "normalized " << s( k ) ); quatd z = normalized( quatd( 0, 0, 0, 0 ) ); MC_CHECK( z.w == 0 && z.x == 0, "normalized null" ); mc::state( lin::str( v( p ) ) + std::to_string( w ) ); mc::outcome( lin::str( v( n ) ) );
}
template< typename T > void tiny() {
	V ax = lin::unit( small( mc::choose( 124 ) ) ); double a = mc::pick( { 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6 } ); int n = mc::range( 1, 8 ); MC_STEP( n << " rotations by " << a << " about " << lin::str( ax ) ); R t = sizeof( T ) == 8 ? 1e-11L : 2e-5L;
	quat_<T> e( T( std::cos( R( a ) / 2 ) ), T( std::sin( R( a ) / 2 ) * ax.x ), T( std::sin( R( a ) / 2 ) * ax.y ), T( std::sin( R( a ) / 2 ) * ax.z ) ), q; for ( int i = 0; i < n; ++i ) q = q * e; if ( mc::flip() ) normalize( q );
	V rv = v( rotation_vector_from_quat( q ) ); auto aa = axis_angle_from_quat( q ); V want = ( n * a ) * ax; MC_CHECK( lin::ok( lin::diff( rv, want ), loose<T>() ), "rotation vector " << lin::str( rv ) << " of " << s( q ) << ", expected " << lin::str( want ) ); V got = R( aa.second.rad_value() ) * v( aa.first ); MC_CHECK( lin::ok( lin::diff( got, want ), loose<T>() ), "axis times angle " << lin::str( got ) << " of " << s( q ) << ", expected " << lin::str( want ) );
	auto d = quat_from_directions( to<T>( ax ), q * to<T>( ax ) ); V same = v( d * to<T>( ax ) ); MC_CHECK( lin::ok( lin::diff( same, ax ), loose<T>() ), "rotation between almost equal directions " << s( d ) );
	V other = lin::unit( std::abs( ax.x ) < 0.5L ? lin::cross( ax, { 1, 0, 0 } ) : lin::cross( ax, { 0, 1, 0 } ) ); auto o = to<T>( other ), o2 = q * o; auto f = quat_from_directions( o, o2 ); V r = v( f * o ); MC_CHECK( lin::ok( lin::diff( r, v( o2 ) ), loose<T>() ), "rotation between close directions " << s( f ) ); auto g = quat_from_directions( o, -o2 ); V r2 = v( g * o ); MC_CHECK( lin::ok( lin::diff( r2, v( -o2 ) ), loose<T>() ), "rotation between almost opposite directions " << s( g ) << " gives " << lin::str( r2 ) );
	mc::state( lin::str( ax ) + std::to_string( a ) + std::to_string( n ) ); mc::outcome( lin::str( rv ) );
}
// chains of rotations that end up close to the identity: rounding leaves a scalar part slightly above or below one
template< typename T > void chains() {
	auto gen = [&]( int k ) { V ax = lin::unit( small( ( k * 37 + 5 ) % 124 ) ); R a = ( k % 17 * 23 + 7 ) * lin::pi / 180; return quat_<T>( T( std::cos( a / 2 ) ), T( std::sin( a / 2 ) * ax.x ), T( std::sin( a / 2 ) * ax.y ), T( std::sin( a / 2 ) * ax.z ) ); };
	int n = mc::bound( 40, 80 ); auto a = gen( mc::choose( n ) ), b = gen( mc::choose( n ) + 3 ); V ax = lin::unit( small( mc::choose( 4 ) * 31 ) ); R t = mc::pick( { 1e-7L, 1e-5L, 1e-4L, 5e-4L, 1e-3L, 0.0L } ); MC_STEP( "a = " << s( a ) << ", b = " << s( b ) << ", turn of " << double( t ) << " about " << lin::str( ax ) );
	quat_<T> e( T( std::cos( t / 2 ) ), T( std::sin( t / 2 ) * ax.x ), T( std::sin( t / 2 ) * ax.y ), T( std::sin( t / 2 ) * ax.z ) ); auto q = -( a * b ) * ( a * ( b * e ) ); V want = t * ax; uint64_t h = 0;
	for ( int k = 0; k < 3; ++k ) { if ( k == 1 ) q = q * -q * q; if ( k == 2 ) normalize( q ); V rv = v( rotation_vector_from_quat( q ) ); auto aa = axis_angle_from_quat( q ); V got = R( aa.second.rad_value() ) * v( aa.first ); MC_CHECK( lin::ok( lin::diff( rv, want ), loose<T>() ), "rotation vector " << lin::str( rv ) << " of " << s( q ) << ", expected " << lin::str( want ) ); MC_CHECK( lin::ok( lin::diff( got, want ), loose<T>() ), "axis times angle " << lin::str( got ) << " of " << s( q ) << ", expected " << lin::str( want ) ); MC_CHECK( lin::ok( std::abs( lin::len( v( aa.first ) ) - 1 ), tol<T>() * 10 ), "axis " << lin::str( v( aa.first ) ) << " of " << s( q ) << " is not of unit length" ); h += q.w > 1 ? 1 : 0; }
	mc::state( s( q ) ); mc::outcome( h );
}
MC_SCENARIO_SPLIT( chains_double, 2 ) { chains< double >(); }
MC_SCENARIO_SPLIT( chains_float, 2 ) { chains< float >(); }
MC_SCENARIO_SPLIT( tiny_double, 2 ) { tiny< double >(); }
MC_SCENARIO_SPLIT( tiny_float, 2 ) { tiny< float >(); }

// axes with components of very different size, at and around half and full turns: every pivot of the conversions, close to where they change
template< typename T > void skewed() {
	static const double comp[] = { 0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3, 0.1, -0.1, 1, -1 }; static const double ang[] = { 180, 180 + 1e-7, 180 - 1e-7, 180 + 1e-3, 180 - 1e-3, 179, 120, 120 + 1e-6, 120 - 1e-6, 90, -180, -180 + 1e-5, 240, 359.9, 1e-3 };
	V a; a.x = comp[ mc::choose( 11 ) ]; a.y = comp[ mc::choose( 11 ) ]; a.z = comp[ mc::choose( 11 ) ]; if ( std::max( { std::abs( a.x ), std::abs( a.y ), std::abs( a.z ) } ) < 1 ) mc::discard(); double d = ang[ mc::choose( 15 ) ]; V u = lin::unit( a ); R h = R( d ) * lin::pi / 360; M want = lin::rot( u, 2 * h ); MC_STEP( "axis " << lin::str( a ) << " angle " << d );
	quat_<T> q( T( std::cos( h ) ), T( std::sin( h ) * u.x ), T( std::sin( h ) * u.y ), T( std::sin( h ) * u.z ) ); is_rotation( q, want, tol<T>(), "rotation of vectors" ); decompose( q, want ); decompose( quat_<T>( -q.w, -q.x, -q.y, -q.z ), want ); mc::state( lin::str( a ) + std::to_string( d ) ); mc::outcome( s( quat_< float >( q ) ) );
}
MC_SCENARIO_SPLIT( skewed_double, 2 ) { skewed< double >(); }
MC_SCENARIO_SPLIT( skewed_float, 2 ) { skewed< float >(); }
}
