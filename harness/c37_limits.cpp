// C37 clamping, wrapping, bounds and bounding boxes
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all values and limits on a grid of eighths (quick: -5..5, thorough: -9..9) for float and double, and of integers; boundary fractions 1/16..1/2; soft clamping also of values up to 1e6 times the range, and monotonicity on every pair of neighbouring grid values; helpers on all integers -300..300 (thorough -70000..70000), powers of two of every width and sixteenths; bounding boxes: every order of up to 4 (thorough 5) points and boxes out of 14, starting empty, from a point or from corners, and every pair of points of {-2..2}^3; values up to 1e30 outside the limits, reversed limits and boundary 0; the named constants for float and double
// MC-ORACLE: definitions evaluated independently in long double / 128-bit integers; exact arithmetic on dyadic grids
#include "gen.hpp"
#include "lin.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/bounding_box.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using std::string; using std::vector; typedef long double R;
template< typename T > struct Grid { static constexpr int den = 8; }; template<> struct Grid< int > { static constexpr int den = 1; };
template< typename T > int lim() { return mc::bound( 5, 9 ); }
template< typename T > T value() { int m = lim<T>() * Grid<T>::den; return T( mc::range( -m, m ) ) / Grid<T>::den; }
template< typename T > void limits( T& lo, T& hi ) { int m = 3 * ( Grid<T>::den > 1 ? 2 : 1 ), d = Grid<T>::den > 1 ? 2 : 1; lo = T( mc::range( -m, m ) ) / d; static const vector< int > widths = { 1, 2, 3, 5, 8 }; hi = lo + T( mc::pick( widths ) ) / d; }
template< typename T > string str( T v ) { std::ostringstream o; o.precision( 20 ); o << v; return o.str(); }
#define SAME( got, want, what ) do { auto g_ = ( got ); auto w_ = ( want ); MC_CHECK( R( g_ ) == R( w_ ), what << " is " << str( g_ ) << ", expected " << str( w_ ) ); } while ( 0 )

template< typename T > void clamping() {
	T lo, hi; limits( lo, hi ); if ( mc::flip() ) hi = lo; T v = value<T>(); MC_STEP( "clamp " << str( v ) << " to " << str( lo ) << ".." << str( hi ) );
	T want = v < lo ? lo : v > hi ? hi : v; bool in = v >= lo && v <= hi;
	SAME( math::clamped( v, lo, hi ), want, "clamped" ); T w = v; T& r = math::clamp( w, lo, hi ); SAME( w, want, "clamp" ); MC_CHECK( &r == &w, "clamp returns another object" );
	bounds< T > b( lo, hi ); T w2 = v; T& r2 = b.clamp( w2 ); SAME( w2, want, "bounds clamp" ); MC_CHECK( &r2 == &w2, "bounds clamp returns another object" );
	MC_EQ( b.is_within( v ), in, "is_within" ); MC_EQ( math::is_between( v, lo, hi ), in, "is_between" ); SAME( b.range(), hi - lo, "range" ); SAME( b.get_violation( v ), v - want, "violation" );
	bounds< T > n = -b; SAME( n.lower, -hi, "negated lower" ); SAME( n.upper, -lo, "negated upper" ); MC_EQ( n.is_within( -v ), in, "negated bounds contain the negated value" ); SAME( b.lower, lo, "lower" ); SAME( b.upper, hi, "upper" );
	bounds< double > bd( b ); SAME( bd.lower, lo, "converted lower" ); SAME( bd.upper, hi, "converted upper" ); bounds< T > one( v ); SAME( one.lower, v, "single value" ); SAME( one.upper, v, "single value" ); bounds< T > none; SAME( none.lower, 0, "default" ); SAME( none.upper, 0, "default" );
	T s1 = v; math::set_if_smaller( s1, lo ); SAME( s1, lo < v ? lo : v, "set_if_smaller" ); T s2 = v; T& r3 = math::set_if_bigger( s2, hi ); SAME( s2, hi > v ? hi : v, "set_if_bigger" ); MC_CHECK( &r3 == &s2, "set_if_bigger returns another object" );
	std::ostringstream o; o << b; auto txt = o.str(); char_stream cs( txt.c_str() ); bounds< T > rb; cs >> rb; MC_CHECK( !cs.fail(), "bounds written as " << txt << " are not readable" ); SAME( rb.lower, lo, "lower read back" ); SAME( rb.upper, hi, "upper read back" );
	mc::state( str( lo ) + str( hi ) + str( v ) ); mc::outcome( str( want ) );
}
MC_SCENARIO( clamp_double ) { clamping< double >(); }
MC_SCENARIO( clamp_float ) { clamping< float >(); }
MC_SCENARIO( clamp_int ) { clamping< int >(); }

template< typename T > T soft( T v, T lo, T hi, T b ) { // all forms agree
	T a = math::soft_clamped( v, lo, hi, b ); T w = v; T r = math::soft_clamp( w, lo, hi, b ); SAME( r, a, "soft_clamp result" ); SAME( w, a, "soft_clamp in place" );
	bounds< T > bb( lo, hi ); T w2 = v; T& r2 = bb.soft_clamp( w2, b ); SAME( w2, a, "bounds soft_clamp in place" ); SAME( r2, a, "bounds soft_clamp result" ); return a;
}
template< typename T > void soft_clamping() {
	T lo, hi; limits( lo, hi ); static const vector< int > bs = { 1, 2, 4, 8 }; T b = T( mc::pick( bs ) ) / 16; int far = mc::choose( 3 ); // near grid, far values above / below
	T v; if ( far == 0 ) v = value<T>(); else { static const vector< double > k = { 20, 100, 1000, 1e4, 1e5 }; v = far == 1 ? hi + T( mc::pick( k ) ) * ( hi - lo ) * T( 0.125 ) : lo - T( mc::pick( k ) ) * ( hi - lo ) * T( 0.125 ); }
	MC_STEP( "soft clamp " << str( v ) << " to " << str( lo ) << ".." << str( hi ) << " boundary " << str( b ) );
	T got = soft( v, lo, hi, b ); R L = lo, H = hi, r = R( b ) * ( H - L ), V = v; MC_CHECK( got > lo && got < hi, "soft clamped value " << str( got ) << " is not strictly inside" );
	R inL = L + r, inH = H - r; if ( V >= inL && V <= inH ) SAME( got, v, "value in the inner range" ); else MC_CHECK( V > inH ? ( got >= T( inH ) && got <= v ) : ( got <= T( inL ) && got >= v ), "value outside the inner range is moved to " << str( got ) << ", which is not between it and the inner range" );
	R want = V > inH ? H - r * r / ( V - inH + r ) : V < inL ? L + r * r / ( inL - V + r ) : V; MC_CHECK( std::abs( got - want ) <= ( sizeof( T ) == 8 ? 1e-12L : 2e-5L ), "soft clamped value " << str( got ) << " is not on the limit curve, which gives " << double( want ) );
	if ( far == 0 ) { T next = v + T( 1 ) / 8; T g2 = soft( next, lo, hi, b ); MC_CHECK( g2 > got, "not increasing: " << str( v ) << " gives " << str( got ) << " but " << str( next ) << " gives " << str( g2 ) ); T m = soft<T>( lo + hi - v, lo, hi, b ); MC_CHECK( std::abs( R( m ) - ( L + H - got ) ) <= ( sizeof( T ) == 8 ? 1e-12L : 2e-5L ), "not symmetric" ); }
	mc::state( str( lo ) + str( hi ) + str( v ) + str( b ) ); mc::outcome( str( got ) );
}
MC_SCENARIO( soft_clamp_double ) { soft_clamping< double >(); }
MC_SCENARIO( soft_clamp_float ) { soft_clamping< float >(); }

template< typename T > void wrapping() {
	T lo, hi; limits( lo, hi ); T v = value<T>(); if ( mc::flip() ) v = v * 64 + lo; MC_STEP( "wrap " << str( v ) << " into " << str( lo ) << ".." << str( hi ) );
	T got = math::wrapped( v, lo, hi ); T w = v; T& r = math::wrap( w, lo, hi ); SAME( w, got, "wrap" ); MC_CHECK( &r == &w, "wrap returns another object" );
	MC_CHECK( got >= lo && got <= hi, "wrapped value " << str( got ) << " is outside" ); R n = ( R( v ) - got ) / ( R( hi ) - lo ); MC_CHECK( n == std::floor( n ), "wrapped value " << str( got ) << " differs by " << double( n ) << " periods" ); if ( v > lo && v < hi ) SAME( got, v, "value inside the range" );
	mc::state( str( lo ) + str( hi ) + str( v ) ); mc::outcome( str( got ) );
}
MC_SCENARIO( wrap_double ) { wrapping< double >(); }
MC_SCENARIO( wrap_float ) { wrapping< float >(); }
MC_SCENARIO( wrap_int ) { wrapping< int >(); }

template< typename T > void int_helpers( long long v0 ) {
	T v = T( v0 ); typedef __int128 W; W w = v; MC_STEP( "integer " << v0 << " of " << sizeof( T ) << " bytes" );
	MC_EQ( math::is_even( v ), w % 2 == 0, "is_even" ); MC_EQ( math::is_odd( v ), w % 2 != 0, "is_odd" ); bool p = false; for ( int k = 0; k < 64; ++k ) p |= w == ( W( 1 ) << k ); if ( v != std::numeric_limits<T>::min() || v == 0 ) MC_EQ( math::is_power_of_two( v ), p, "is_power_of_two" );
	MC_CHECK( math::sign( v ) == ( w >= 0 ? T( 1 ) : T( -1 ) ), "sign" ); mc::outcome( p * 4 + ( w % 2 != 0 ) * 2 + ( w > 0 ) );
}
MC_SCENARIO_SPLIT( integers, 2 ) { int type = mc::choose( 4 ); int m = mc::bound( 300, 70000 ); long long v; if ( mc::flip() ) { int k = mc::choose( type == 0 || type == 1 ? 32 : 64 ), d = mc::range( -2, 2 ); v = (long long)( ( 1ull << k ) + d ); if ( mc::flip() ) v = (long long)( 0ull - (unsigned long long)v ); } else v = mc::range( -m, m );
	if ( type == 0 ) int_helpers< int >( v ); else if ( type == 1 ) int_helpers< unsigned >( v ); else if ( type == 2 ) int_helpers< long long >( v ); else int_helpers< unsigned long long >( v ); mc::state( v * 4 + type ); }
template< typename T > void real_helpers() {
	int m = mc::bound( 20 * 16, 200 * 16 ); T v = T( mc::range( -m, m ) ) / 16; MC_STEP( "real " << str( v ) ); R V = v;
	SAME( math::sign( v ), V >= 0 ? 1 : -1, "sign" ); SAME( math::squared( v ), T( V * V ), "squared" ); SAME( math::cubed( v ), T( V * V * V ), "cubed" ); R e = sizeof( T ) == 8 ? 1e-15L : 1e-6L;
	R sq = V >= 0 ? std::sqrt( V ) : -std::sqrt( -V ); MC_CHECK( std::abs( math::signed_sqrt( v ) - sq ) <= e * 4 * ( 1 + std::abs( sq ) ), "signed_sqrt is " << str( math::signed_sqrt( v ) ) ); if ( V != 0 ) MC_CHECK( std::abs( math::inv( v ) * V - 1 ) <= e * 4, "inv" ); if ( V > 0 ) MC_CHECK( std::abs( math::invsqrt( v ) * std::sqrt( V ) - 1 ) <= e * 4, "invsqrt" );
	R k = std::floor( V ); SAME( math::square_wave( v ), std::fmod( std::abs( k ), 2.0L ) == 0 ? 1 : -1, "square wave" );
	MC_CHECK( math::equals( v, v ), "a value equals itself" ); if ( V != 0 ) { T up = v * T( 1 + 1e-3 ); MC_CHECK( !math::equals( v, up ), "values 0.1% apart are equal" ); MC_CHECK( math::equals( v, up, T( 2e-3 ) ), "values 0.1% apart differ at a tolerance of 0.2%" ); MC_CHECK( !math::equals( v, up, T( 5e-4 ) ), "values 0.1% apart are equal at 0.05%" ); MC_CHECK( !math::equals( v, -v ), "opposite values are equal" ); T n = std::nextafter( v, std::numeric_limits<T>::infinity() ), p = std::nextafter( v, -std::numeric_limits<T>::infinity() ); MC_CHECK( math::equals( v, n ) && math::equals( v, p ), "neighbouring floating point numbers differ" ); }
	R pi = lin::pi; MC_CHECK( std::abs( math::deg_to_rad( v ) - V * pi / 180 ) <= e * 20 * ( 1 + std::abs( V ) ), "deg_to_rad" ); MC_CHECK( std::abs( math::rad_to_deg( v ) - V * 180 / pi ) <= e * 2000 * ( 1 + std::abs( V ) ), "rad_to_deg" );
	mc::state( int64_t( V * 16 ) ); mc::outcome( str( math::square_wave( v ) ) + str( math::sign( v ) ) );
}
MC_SCENARIO( reals_double ) { real_helpers< double >(); }
MC_SCENARIO( reals_float ) { real_helpers< float >(); }

template< typename T > void boxes() { using namespace flut::math; typedef vec3_<T> V; typedef bounding_box_<T> B;
	static const vector< V > pts = { V( 0, 0, 0 ), V( 1, 2, 3 ), V( -1, -2, -3 ), V( 3, -1, 2 ), V( -3, 1, 0.5 ), V( 2, 2, 2 ), V( -2, -2, -2 ), V( 0.25, 5, -5 ), V( 5, 0, 0 ), V( 0, 0, -7 ) };
	struct Item { V lo, hi; bool box; }; static vector< Item > items; if ( items.empty() ) { for ( auto& p : pts ) items.push_back( { p, p, false } ); items.push_back( { V( -1, -1, -1 ), V( 1, 1, 1 ), true } ); items.push_back( { V( 2, 3, 4 ), V( 3, 4, 5 ), true } ); items.push_back( { V( -9, -4, -4 ), V( -8, 0, 9 ), true } ); items.push_back( { V( 0, -6, 0 ), V( 0.5, 6, 0.5 ), true } ); }
	V lo, hi; bool any = false; auto join = [&]( const V& a, const V& b ) { if ( !any ) { lo = a; hi = b; any = true; return; } lo = V( std::min( lo.x, a.x ), std::min( lo.y, a.y ), std::min( lo.z, a.z ) ); hi = V( std::max( hi.x, b.x ), std::max( hi.y, b.y ), std::max( hi.z, b.z ) ); };
	int start = mc::choose( 3 ); B bb; MC_STEP( "start " << start ); if ( start == 1 ) { V p( -0.5, 4, 1 ); bb = B( p ); join( p, p ); } else if ( start == 2 ) { V a( -1, 0, 1 ), b( 0, 1, 6 ); bb = B( a, b ); join( a, b ); }
	int n = mc::range( 0, mc::bound( 4, 5 ) ); string h = std::to_string( start ); for ( int i = 0; i < n; ++i ) { int k = mc::choose( int( items.size() ) ); h += char( 'a' + k ); auto& it = items[ k ]; MC_STEP( "add " << ( it.box ? "box " : "point " ) << k ); B* r; if ( it.box ) { B o( it.lo, it.hi ); r = &( bb += o ); } else r = &( bb += it.lo ); MC_CHECK( r == &bb, "result of adding is another object" ); join( it.lo, it.hi );
		auto& l = bb.lower_bounds; auto& u = bb.upper_bounds; MC_CHECK( l.x == lo.x && l.y == lo.y && l.z == lo.z, "lower corner is " << l.x << " " << l.y << " " << l.z << ", expected " << lo.x << " " << lo.y << " " << lo.z ); MC_CHECK( u.x == hi.x && u.y == hi.y && u.z == hi.z, "upper corner is " << u.x << " " << u.y << " " << u.z << ", expected " << hi.x << " " << hi.y << " " << hi.z ); }
	if ( mc::flip() ) { B e; bb += e; if ( any ) MC_CHECK( bb.lower_bounds.x == lo.x && bb.upper_bounds.z == hi.z && bb.lower_bounds.y == lo.y && bb.upper_bounds.y == hi.y && bb.lower_bounds.z == lo.z && bb.upper_bounds.x == hi.x, "adding an empty box changes the box" ); B c; c += bb; MC_CHECK( c.lower_bounds.x == bb.lower_bounds.x && c.upper_bounds.y == bb.upper_bounds.y && c.lower_bounds.z == bb.lower_bounds.z, "adding to an empty box" ); }
	mc::state( h ); std::ostringstream o; o << lo.x << lo.y << lo.z << hi.x << hi.y << hi.z; mc::outcome( o.str() );
}
MC_SCENARIO( boxes_double ) { boxes< double >(); }
MC_SCENARIO( boxes_float ) { boxes< float >(); }
MC_SCENARIO_SPLIT( box_pairs, 2 ) { using namespace flut::math; int a = mc::choose( 125 ), b = mc::choose( 125 ); vec3_<double> p( a % 5 - 2, a / 5 % 5 - 2, a / 25 - 2 ), q( b % 5 - 2, b / 5 % 5 - 2, b / 25 - 2 ); MC_STEP( "points " << a << " " << b ); bounding_boxd bb; bb += p; bb += q; MC_CHECK( bb.lower_bounds.x == std::min( p.x, q.x ) && bb.lower_bounds.y == std::min( p.y, q.y ) && bb.lower_bounds.z == std::min( p.z, q.z ), "lower corner" ); MC_CHECK( bb.upper_bounds.x == std::max( p.x, q.x ) && bb.upper_bounds.y == std::max( p.y, q.y ) && bb.upper_bounds.z == std::max( p.z, q.z ), "upper corner" ); mc::state( a * 125 + b ); mc::outcome( a / 25 * 5 + b / 25 ); }
template< typename T > void far_values() { // far outside, reversed limits, no boundary
	static const double vs[] = { 1e3, 65537, 1e6, 16777216, 2147483647.0, 2147483648.0, 2147483649.0, 4294967296.0, 1e12, 1e15, 9007199254740992.0, 1e18, 1e19, 1e30 }; double m = vs[ mc::choose( 14 ) ]; bool neg = mc::flip(); T lo, hi; limits( lo, hi ); T v = T( neg ? -m : m ); MC_STEP( "value " << double( v ) << " and limits " << str( lo ) << ".." << str( hi ) ); SAME( math::clamped( v, lo, hi ), neg ? lo : hi, "clamped" ); MC_EQ( math::is_between( v, lo, hi ), false, "is_between" ); bounds< T > b( lo, hi ); MC_EQ( b.is_within( v ), false, "is_within" ); SAME( b.get_violation( v ), v - ( neg ? lo : hi ), "violation" ); SAME( math::sign( v ), neg ? -1 : 1, "sign" );
	R k = std::floor( R( v ) ); SAME( math::square_wave( v ), std::fmod( std::abs( k ), 2.0L ) == 0 ? 1 : -1, "square wave" ); T w = math::wrapped( v, lo, hi ); MC_CHECK( w >= lo && w <= hi, "wrapped value " << str( w ) << " is outside" );
	T half = v + T( 0.5 ); k = std::floor( R( half ) ); SAME( math::square_wave( half ), std::fmod( std::abs( k ), 2.0L ) == 0 ? 1 : -1, "square wave" ); T one = v + T( 1 ); k = std::floor( R( one ) ); SAME( math::square_wave( one ), std::fmod( std::abs( k ), 2.0L ) == 0 ? 1 : -1, "square wave" );
	T mid = ( lo + hi ) / 2; if ( lo < hi ) { MC_EQ( math::is_between( mid, hi, lo ), false, "is_between reversed limits" ); T s = math::soft_clamped( v, lo, hi, T( 0 ) ); MC_CHECK( s >= lo && s <= hi, "soft clamped without boundary: " << str( s ) ); SAME( math::soft_clamped( mid, lo, hi, T( 0 ) ), mid, "soft clamped without boundary" ); } mc::state( str( v ) + str( lo ) + str( hi ) );
}
MC_SCENARIO( far_values_double ) { far_values< double >(); }
MC_SCENARIO( far_values_float ) { far_values< float >(); }
template< typename T > void named_constants() { using C = constants< T >; R e = std::max( R( 1e-13L ), R( 4 * std::numeric_limits< T >::epsilon() ) ); MC_STEP( "constants" );
	auto near = [&]( R got, R want, const char* n ) { MC_CHECK( std::abs( got - want ) <= e * 10, n << " is " << double( got ) << ", expected " << double( want ) ); mc::step(); }; near( C::pi(), lin::pi, "pi" ); near( C::half_pi(), lin::pi / 2, "half_pi" ); near( C::two_pi(), lin::pi * 2, "two_pi" ); near( double_pi, lin::pi, "double_pi" ); MC_CHECK( std::abs( R( float_pi ) - lin::pi ) < 1e-6L && std::abs( R( real_pi ) - lin::pi ) < 1e-6L, "float_pi or real_pi" );
	SAME( C::zero(), T( 0 ), "zero" ); SAME( C::one(), T( 1 ), "one" ); SAME( C::epsilon(), std::numeric_limits< T >::epsilon(), "epsilon" ); MC_CHECK( C::relaxed_epsilon() > C::epsilon() && C::relaxed_epsilon() < 100 * C::epsilon(), "relaxed_epsilon" ); SAME( C::max(), std::numeric_limits< T >::max(), "max" ); SAME( C::lowest(), std::numeric_limits< T >::lowest(), "lowest" ); SAME( C::min(), std::numeric_limits< T >::min(), "min" ); T n = C::nan(); MC_CHECK( n != n, "nan" ); mc::state( sizeof( T ) ); mc::outcome( uint64_t( C::pi() * 1000 ) );
}
MC_SCENARIO( constants_double ) { named_constants< double >(); }
MC_SCENARIO( constants_float ) { named_constants< float >(); }
}
