// C35 rotation and rigid transform groups
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: the 24 exactly representable unit rotations (Hurwitz units) closed under composition: all pairs, all triples, all vectors of {-2..2}^3, compared exactly in float and double; all words of at most 5 (quick) or 7 (thorough) over 7 general rotations; all words of at most 4 (5) over 8 rigid transforms with exact rotations and integer translations, acting on points, orientations and transforms; components out of 5 values converted between types, assigned and printed
// MC-ORACLE: 3x3 rotation matrices in long double computed from axis and angle or from the quaternion; exact integer arithmetic
#include "gen.hpp"
#include "lin.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using namespace flut::math;
using std::string; using std::vector; using lin::V; using lin::M; using lin::R;
template< typename T > V v( const vec3_<T>& a ) { return { a.x, a.y, a.z }; }
template< typename T > bool same( const quat_<T>& a, const quat_<T>& b ) { return a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z; }
template< typename T > string s( const quat_<T>& a ) { std::ostringstream o; o.precision( 17 ); o << "[" << a.w << " " << a.x << " " << a.y << " " << a.z << "]"; return o.str(); }
template< typename T > M mat( const quat_<T>& q ) { R w = q.w, x = q.x, y = q.y, z = q.z; M m; m.m = { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ), 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ), 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } }; return m; }
template< typename T > const vector< quat_<T> >& units() { static vector< quat_<T> > u; if ( u.empty() ) { for ( int k = 0; k < 4; ++k ) for ( T g : { T( 1 ), T( -1 ) } ) { T c[ 4 ] = {}; c[ k ] = g; u.push_back( quat_<T>( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ) ); } for ( int b = 0; b < 16; ++b ) { T h = T( 0.5 ); u.push_back( quat_<T>( b & 1 ? -h : h, b & 2 ? -h : h, b & 4 ? -h : h, b & 8 ? -h : h ) ); } } return u; }
template< typename T > vec3_<T> small( int k ) { return vec3_<T>( T( k % 5 - 2 ), T( k / 5 % 5 - 2 ), T( k / 25 - 2 ) ); }
template< typename T > void exact_group() {
	auto& u = units<T>(); auto a = mc::pick( u ); auto b = mc::pick( u ); MC_STEP( "a=" << s( a ) << " b=" << s( b ) ); auto id = quat_<T>::identity(); auto ab = a * b;
	MC_CHECK( std::any_of( u.begin(), u.end(), [&]( auto& x ) { return same( x, ab ); } ), "product " << s( ab ) << " is no unit of the group" );
	MC_CHECK( same( a * id, a ) && same( id * a, a ), "identity" ); MC_CHECK( same( a * -a, id ) && same( -a * a, id ), "conjugate of " << s( a ) << " is not its inverse" ); MC_CHECK( same( -ab, -b * -a ), "conjugate of a product" ); MC_CHECK( same( -( -a ), a ), "conjugate of the conjugate" );
	MC_CHECK( length( ab ) == T( 1 ) && is_normalized( ab ), "length of a product" ); MC_CHECK( lin::diff( mat( ab ), mat( a ) * mat( b ) ) == 0, "product " << s( ab ) << " of " << s( a ) << " and " << s( b ) << " is another rotation" );
	for ( auto& c : u ) MC_CHECK( same( ( a * b ) * c, a * ( b * c ) ), "not associative with " << s( c ) );
	for ( int k = 0; k < 125; ++k ) {
		auto p = small<T>( k ); auto r = ab * p; V want = mat( a ) * ( mat( b ) * v( p ) ); MC_CHECK( lin::diff( v( r ), want ) == 0, s( ab ) << " turns " << lin::str( v( p ) ) << " into " << lin::str( v( r ) ) << ", expected " << lin::str( want ) );
		MC_CHECK( a * ( b * p ) == r, "rotating in sequence differs" ); MC_CHECK( -ab * r == p, "inverse rotation" ); MC_CHECK( squared_length( r ) == squared_length( p ), "length changed" );
	}
	for ( int k = 0; k < 125; ++k ) { auto p = small<T>( k ), q = small<T>( ( k * 37 + 11 ) % 125 ); MC_CHECK( dot_product( a * p, a * q ) == dot_product( p, q ), "dot product changed" ); MC_CHECK( cross_product( a * p, a * q ) == a * cross_product( p, q ), "cross product changed" ); }
	mc::state( s( a ) + s( b ) ); mc::outcome( s( ab ) );
}
MC_SCENARIO_SPLIT( exact_group_double, 2 ) { exact_group< double >(); }
MC_SCENARIO_SPLIT( exact_group_float, 2 ) { exact_group< float >(); }
template< typename T > void words( T tol ) {
	static const struct { V ax; R deg; } g[] = { { { 1, 0, 0 }, 90 }, { { 0, 1, 0 }, 90 }, { { 0, 0, 1 }, -90 }, { { 1, 1, 1 }, 40 }, { { 1, -2, 2 }, 137 }, { { -3, 4, 0 }, 180 }, { { 2, 1, -1 }, -200 } };
	int n = mc::range( 1, mc::bound( 5, 7 ) ); quat_<T> q; M m; string st; vector< quat_<T> > qs;
	for ( int i = 0; i < n; ++i ) { int k = mc::choose( 7 ); MC_STEP( "compose rotation " << k ); V ax = lin::unit( g[ k ].ax ); R a = g[ k ].deg * lin::pi / 360; quat_<T> e( T( std::cos( a ) ), T( std::sin( a ) * ax.x ), T( std::sin( a ) * ax.y ), T( std::sin( a ) * ax.z ) ); q = q * e; qs.push_back( e ); m = m * lin::rot( ax, 2 * a ); st += char( '0' + k ); }
	for ( int k = 0; k < 125; k += 7 ) {
		auto p = small<T>( k ); V r = v( q * p ), want = m * v( p ); MC_CHECK( lin::ok( lin::diff( r, want ), tol ), "rotated " << lin::str( v( p ) ) << " to " << lin::str( r ) << ", expected " << lin::str( want ) );
		auto t = p; for ( int i = n; i-- > 0; ) t = qs[ i ] * t; MC_CHECK( lin::ok( lin::diff( v( t ), want ), tol ), "rotating in sequence gives " << lin::str( v( t ) ) ); MC_CHECK( lin::ok( lin::diff( v( -q * ( q * p ) ), v( p ) ), tol ), "inverse rotation" ); MC_CHECK( lin::ok( std::abs( length( q * p ) - length( p ) ), tol ), "length changed" );
	}
	MC_CHECK( lin::ok( std::abs( length( q ) - 1 ), tol ), "length of a product of rotations is " << length( q ) ); mc::state( st ); mc::outcome( s( quat_< float >( q ) ) );
}
MC_SCENARIO_SPLIT( words_double, 3 ) { words< double >( 1e-12 ); }
MC_SCENARIO_SPLIT( words_float, 3 ) { words< float >( 1e-4f ); }
template< typename T > void transforms() {
	typedef transform_<T> X; typedef vec3_<T> W; auto& u = units<T>(); static const int uq[] = { 0, 2, 4, 7, 8, 11, 13, 21 }; static const int pt[] = { 62, 0, 124, 31, 88, 5, 117, 62 };
	auto gen = [&]( int k ) { return X( small<T>( pt[ k ] ), u[ uq[ k ] ] ); }; int n = mc::range( 1, mc::bound( 4, 5 ) ); X t = X::identity(); M m; V o; vector< X > xs; string st;
	for ( int i = 0; i < n; ++i ) { int k = mc::choose( 8 ); MC_STEP( "compose transform " << k ); X g = gen( k ); t = t * g; xs.push_back( g ); o = o + m * v( g.p ); m = m * mat( g.q ); st += char( '0' + k ); }
	X inv = t.inverse(), neg = -t; MC_CHECK( inv.p == neg.p && same( inv.q, neg.q ), "negation is not the inverse" ); X e = t * inv, e2 = inv * t; MC_CHECK( e.p.is_null() && e2.p.is_null() && same( e.q, quat_<T>::identity() ) && same( e2.q, e.q ), "inverse of a transform" );
	if ( n >= 2 ) { X r = xs.back(); for ( int i = n - 1; i-- > 0; ) r = xs[ i ] * r; MC_CHECK( r.p == t.p && same( r.q, t.q ), "composition is not associative" ); X r2 = xs.back(); for ( int i = n - 1; i-- > 0; ) r2 = xs[ i ].transform( r2 ); MC_CHECK( r2.p == t.p && same( r2.q, t.q ), "transform() differs from composition" ); }
	for ( int k = 0; k < 125; k += 3 ) {
		W p = small<T>( k ); V want = o + m * v( p ); W a = t * p; MC_CHECK( lin::diff( v( a ), want ) == 0, "transform takes " << lin::str( v( p ) ) << " to " << lin::str( v( a ) ) << ", expected " << lin::str( want ) ); MC_CHECK( t.transform( p ) == a, "transform() differs from operator*" );
		MC_CHECK( t.inv_transform( a ) == p && inv * a == p, "inverse transform does not return the point " << lin::str( v( p ) ) ); MC_CHECK( t * t.inv_transform( p ) == p, "inverse transform of a point" ); W z = p; for ( int i = n; i-- > 0; ) z = xs[ i ] * z; MC_CHECK( z == a, "transforming in sequence differs" );
	}
	for ( auto& q : u ) { MC_CHECK( same( t * q, t.q * q ) && same( t.transform( q ), t.q * q ), "transform of an orientation" ); MC_CHECK( same( t.inv_transform( t.transform( q ) ), q ), "inverse transform of an orientation" ); }
	for ( int k = 0; k < 8; ++k ) { X g = gen( k ); X a = t.transform( g ), b = t.inv_transform( a ), c = inv * a; MC_CHECK( b.p == g.p && same( b.q, g.q ) && c.p == g.p && same( c.q, g.q ), "inverse transform of a transform" ); }
	X po( small<T>( 33 ) ), qo( u[ 9 ] ); MC_CHECK( same( po.q, quat_<T>::identity() ) && po.p == small<T>( 33 ) && qo.p.is_null() && same( qo.q, u[ 9 ] ), "partial construction" ); X dd; MC_CHECK( dd.p.is_null() && same( dd.q, quat_<T>::identity() ), "default construction" );
	mc::state( st ); mc::outcome( lin::str( v( t.p ) ) + s( t.q ) );
}
MC_SCENARIO_SPLIT( transforms_double, 3 ) { transforms< double >(); }
MC_SCENARIO_SPLIT( transforms_float, 3 ) { transforms< float >(); }
MC_SCENARIO( components ) { // conversion between value types, assignment and printing keep every component in place
	double c[ 4 ]; for ( double& x : c ) x = mc::pick( { 0.0, 1.0, -1.0, 0.25, 2.5 } ); MC_STEP( "components " << c[ 0 ] << " " << c[ 1 ] << " " << c[ 2 ] << " " << c[ 3 ] ); quat_<double> d( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ); quat_<float> f( d ), g; MC_CHECK( g.w == 1 && g.x == 0 && g.y == 0 && g.z == 0, "default rotation" ); g = d; quat_<double> e( f ), h; h = g; quat_<float> k; k.set( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ); quat_<double> l( k ), n( d ), o; o = d;
	for ( auto& q : { d, e, h, l, n, o } ) MC_CHECK( q.w == c[ 0 ] && q.x == c[ 1 ] && q.y == c[ 2 ] && q.z == c[ 3 ], "components changed to " << s( q ) ); std::ostringstream p, w; p << d << '|' << f; for ( int i = 0; i < 8; ++i ) w << ( i == 4 ? "|" : i ? " " : "" ) << c[ i % 4 ]; MC_EQ( p.str(), w.str(), "printed rotations" ); mc::state( w.str() );
}
}
