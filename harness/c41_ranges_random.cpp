// C41 ranges, averages, differences, random numbers
// MC-SOURCES: flut/math/random.cpp flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all ranges with bounds in -8..8 (thorough -20..20) and every step -4..4, whether it divides them or not and whichever way it points, for signed, unsigned, 64-bit and 8-bit integers; all sequences up to 5 (thorough 6) of additions (4 values x 3 nonnegative weights), resets and queries on an average, float and double; all sequences up to 6 (thorough 7) of values for differences, scalars and vectors; every sequence up to 5 (thorough 6) of draws and reseedings over two generators and the global one; 400 (thorough 4000) seeds x 7 ranges x 100 draws; ranges of up to 640 and averages of up to 10000 members; differences of values of 8 magnitudes; weights scaled by 1e-12 to 1e12
// MC-ORACLE: list of members, exact sums on dyadic values, and an independent generator per seed that replays the draws made since the last seeding
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/types.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/irange.hpp"
#include "flut/math/average.hpp"
#include "flut/math/delta.hpp"
#include "flut/math/random.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut; using std::string; using std::vector; typedef long double R;
static string s( R x ) { std::ostringstream o; o << double( x ); return o.str(); }
template< typename C > void visits( const C& r, const vector< long long >& want, const string& what ) {
	vector< long long > got; size_t cap = want.size() + 3; for ( auto it = r.begin(); it != r.end(); ++it ) { got.push_back( (long long)( *it ) ); if ( got.size() > cap ) break; } auto show = [&]( const vector< long long >& v ) { string t; for ( auto x : v ) t += std::to_string( x ) + " "; return t; }; MC_CHECK( got == want, what << " visits " << show( got ) << ", expected " << show( want ) );
	vector< long long > g2; for ( auto v : r ) { g2.push_back( (long long)v ); if ( g2.size() > cap ) break; } MC_CHECK( g2 == want, what << " in a loop visits " << show( g2 ) ); auto a = r.begin(), b = r.end(); MC_CHECK( ( a == b ) == want.empty() && ( a != b ) == !want.empty(), what << " comparison of begin and end" ); MC_CHECK( (long long)( b - a ) == (long long)want.size(), what << " distance is " << (long long)( b - a ) );
	if ( !want.empty() ) { auto c = r.begin(); auto old = c++; MC_CHECK( (long long)old == want[ 0 ], what << " postfix increment gives " << (long long)old ); if ( want.size() > 1 ) { MC_CHECK( (long long)*c == want[ 1 ], what << " after postfix increment" ); auto d = r.begin(); MC_CHECK( (long long)( ++d ) == want[ 1 ], what << " prefix increment" ); MC_CHECK( c == d, what << " iterators at the same member differ" ); } }
}
template< typename T > void ranges() {
	int m = mc::bound( 8, 20 ); int lo = std::numeric_limits<T>::is_signed ? -m : 0; int b = mc::range( lo, m ), e = mc::range( lo, m ), st = mc::range( std::numeric_limits<T>::is_signed ? -4 : 1, 4 ); if ( st == 0 ) mc::discard(); MC_STEP( "range " << b << ".." << e << " step " << st ); vector< long long > want; for ( int v = b; st > 0 ? v < e : v > e; v += st ) want.push_back( v );
	string w = "range " + std::to_string( b ) + ".." + std::to_string( e ) + " step " + std::to_string( st ); if ( st == 1 ) { visits( irange< T >( T( b ), T( e ) ), want, w ); visits( make_irange( T( b ), T( e ) ), want, w ); visits( irange_step< T >( T( b ), T( e ) ), want, w ); visits( irange_step< T >( irange< T >( T( b ), T( e ) ) ), want, w ); if ( b == 0 ) visits( make_irange( T( e ) ), want, w ); visits( irange< T >(), {}, "default range" ); }
	visits( irange_step< T >( T( b ), T( e ), T( st ) ), want, w ); visits( make_irange( T( b ), T( e ), T( st ) ), want, w ); visits( make_irange( irange< T >( T( b ), T( e ) ), T( st ) ), want, w ); visits( irange_step< T >( irange< T >( T( b ), T( e ) ), T( st ) ), want, w ); mc::state( w ); mc::outcome( want.size() );
}
MC_SCENARIO( ranges_int ) { ranges< int >(); }
MC_SCENARIO( ranges_size ) { ranges< size_t >(); }
MC_SCENARIO( ranges_long ) { ranges< long long >(); }
MC_SCENARIO( ranges_byte ) { ranges< signed char >(); }

template< typename T > void averages() {
	math::average_<T> a; R tv = 0, tw = 0; static const vector< double > vs = { 1, -2, 0.5, 8 }, ws = { 1, 0, 3 }; int n = mc::range( 1, mc::bound( 5, 6 ) ); string h; MC_CHECK( a.empty() && a.get() == 0, "new average" );
	for ( int i = 0; i < n; ++i ) { int k = mc::choose( 14 ); if ( k == 12 ) { a.reset(); tv = tw = 0; h += "reset "; MC_STEP( "reset" ); } else if ( k == 13 ) { T v = T( 4 ); a.add( v ); tv += 4; tw += 1; h += "4 "; MC_STEP( "add 4" ); } else { R v = vs[ k / 3 ], w = ws[ k % 3 ]; a.add( T( v ), T( w ) ); tv += v * w; tw += w; h += s( v ) + "*" + s( w ) + " "; MC_STEP( "add " << s( v ) << " weight " << s( w ) ); }
		R want = tw > 0 ? tv / tw : 0; MC_CHECK( std::abs( a.get() - want ) <= ( sizeof( T ) == 8 ? 1e-14L : 1e-6L ) * ( 1 + std::abs( want ) ), "average after " << h << "is " << s( a.get() ) << ", expected " << s( want ) ); MC_EQ( a.empty(), tw == 0, "empty after " << h ); }
	mc::state( h ); mc::outcome( s( tw > 0 ? tv / tw : 0 ) );
}
MC_SCENARIO( averages_double ) { averages< double >(); }
MC_SCENARIO( averages_float ) { averages< float >(); }
template< typename T, typename F > void deltas( F make ) { static const vector< int > vs = { 0, 3, -5, 100 }; int p = mc::pick( vs ); delta< T > d( make( p ) ); int n = mc::range( 1, mc::bound( 6, 7 ) ); string h = std::to_string( p ); for ( int i = 0; i < n; ++i ) { int v = mc::pick( vs ); h += " " + std::to_string( v ); MC_STEP( "value " << v ); T got = d( make( v ) ); MC_CHECK( got == make( v - p ), "difference after " << h ); p = v; } mc::state( h ); mc::outcome( h ); }
MC_SCENARIO( differences_int ) { deltas< int >( []( int v ) { return v; } ); }
MC_SCENARIO( differences_double ) { deltas< double >( []( int v ) { return v * 0.25; } ); }
MC_SCENARIO( differences_vector ) { deltas< math::vec3d >( []( int v ) { return math::vec3d( v, v * 2, v * 0.5 ); } ); }

/// draws: kind 0..3
struct Draw { int kind; }; static R draw( math::random_number_generator& g, int kind ) { switch ( kind ) { case 0: return g.uni< double >(); case 1: return g.uni( -3.0, 5.0 ); case 2: return g.uni( 2.0f, 2.5f ); default: return g.norm( 1.0, 2.0 ); } }
static void check_range( R v, int kind, const string& h ) { if ( kind == 0 ) MC_CHECK( v >= 0 && v <= 1, "draw " << s( v ) << " outside 0..1 after " << h ); else if ( kind == 1 ) MC_CHECK( v >= -3 && v <= 5, "draw " << s( v ) << " outside -3..5 after " << h ); else if ( kind == 2 ) MC_CHECK( v >= 2 && v <= 2.5L, "draw " << s( v ) << " outside 2..2.5 after " << h ); else MC_CHECK( std::isfinite( double( v ) ), "draw is not finite after " << h ); }
MC_SCENARIO( generators ) { // any interleaving of draws from three generators: each depends on its own seed and draws only
	auto& glob = math::random_number_generator::global_instance(); MC_CHECK( &glob == &math::random_number_generator::global_instance(), "global generator is another object" ); math::random_number_generator a, b( 77 ); glob.seed( 5 ); math::random_number_generator* g[ 3 ] = { &a, &b, &glob }; unsigned seed[ 3 ] = { 123, 77, 5 }; vector< int > hist[ 3 ]; string h; int n = mc::range( 1, mc::bound( 5, 6 ) );
	for ( int i = 0; i < n; ++i ) { int w = mc::choose( 3 ), op = mc::choose( 5 ); h += string( 1, "ab*"[ w ] ) + std::to_string( op ) + " "; MC_STEP( "generator " << w << " operation " << op ); if ( op == 4 ) { g[ w ]->seed( 42 ); seed[ w ] = 42; hist[ w ].clear(); continue; } R got; if ( w == 2 && op == 1 ) got = rand_uni( -3.0, 5.0 ); else if ( w == 2 && op == 3 ) got = rand_norm( 1.0, 2.0 ); else got = draw( *g[ w ], op ); check_range( got, op, h ); hist[ w ].push_back( op ); math::random_number_generator r( seed[ w ] ); R want = 0; for ( int k : hist[ w ] ) want = draw( r, k ); MC_CHECK( got == want, "draw after " << h << "is " << s( got ) << ", but a new generator with that seed gives " << s( want ) ); }
	mc::state( h ); mc::outcome( h );
}
MC_SCENARIO_SPLIT( seeds, 2 ) { unsigned k = mc::choose( mc::bound( 400, 4000 ) ); unsigned seed = k < 200 ? k : k * 2654435761u; static const vector< std::pair< double, double > > rs = { { 0, 1 }, { -1, 1 }, { 5, 6 }, { -1e6, 1e6 }, { 0, 1e-6 }, { 3, 3.0000001 }, { -7, -6 } }; auto r = mc::pick( rs ); MC_STEP( "seed " << seed << " range " << r.first << ".." << r.second ); math::random_number_generator g( seed ), g2, g3( seed ), f( seed ), u( seed ); g2.seed( seed ); bool differ = false; double first = 0; uint64_t hh = 0;
	for ( int i = 0; i < 100; ++i ) { double v = g.uni( r.first, r.second ); MC_CHECK( v >= r.first && v <= r.second, "draw " << i << " is " << v ); MC_CHECK( v == g2.uni( r.first, r.second ), "reseeded generator differs at draw " << i ); double unit = u.uni< double >(); MC_CHECK( std::abs( v - ( r.first + unit * ( r.second - r.first ) ) ) <= 1e-9 * ( 1 + std::abs( r.first ) + std::abs( r.second ) ), "draw is not the scaled unit draw" ); if ( i == 0 ) first = v; else differ |= v != first; float fv = f.uni( float( r.first ), float( r.second ) ); MC_CHECK( fv >= float( r.first ) && fv <= float( r.second ), "float draw " << i << " is " << fv ); hh = mc::hash_bytes( &v, 8, hh ); double z = g3.norm( r.first, 0.5 ); MC_CHECK( std::isfinite( z ) && std::abs( z - r.first ) < 10, "normal draw " << z ); }
	MC_CHECK( differ, "all draws are equal" ); mc::state( uint64_t( seed ) * 16 + uint64_t( r.first + 1e7 ) ); mc::outcome( hh ); }
MC_SCENARIO_SPLIT( different_seeds, 1 ) { unsigned a = mc::choose( 60 ) + 1, b = mc::choose( 60 ) + 1; MC_STEP( "seeds " << a << " and " << b ); math::random_number_generator x( a ), y( b ); bool same = true; for ( int i = 0; i < 5; ++i ) same &= x.uni< double >() == y.uni< double >(); MC_EQ( same, a == b, "equal sequences" ); mc::state( a * 100 + b ); mc::outcome( same ); }
MC_SCENARIO_SPLIT( long_ranges, 2 ) { static const vector< long long > bs = { 0, -100, 1000, 2147483000ll, -2147483648ll }; long long b = mc::pick( bs ); int n = mc::pick( { 100, 127, 128, 129, 255, 256, 257, 640 } ), st = mc::pick( { 1, 2, 3, 7, -1, -5 } ); if ( st < 0 && b < -1000 ) mc::discard(); long long e = st > 0 ? b + n : b - n; MC_STEP( "range " << b << ".." << e << " step " << st ); vector< long long > want; for ( long long v = b; st > 0 ? v < e : v > e; v += st ) want.push_back( v ); string w = "range " + std::to_string( b ) + ".." + std::to_string( e ) + " step " + std::to_string( st );
	visits( irange_step< long long >( b, e, st ), want, w ); visits( make_irange( b, e, (long long)st ), want, w ); if ( e < 2147483640ll && e > -2147483640ll ) { visits( irange_step< int >( int( b ), int( e ), st ), want, w ); if ( st == 1 ) { visits( irange< int >( int( b ), int( e ) ), want, w ); visits( make_irange( int( b ), int( e ) ), want, w ); } } mc::state( w ); }
MC_SCENARIO_SPLIT( long_averages, 2 ) { int n = mc::pick( { 10, 100, 255, 256, 257, 1000, 10000 } ), shape = mc::choose( 4 ); bool weights = mc::flip(); math::average_< double > a; R tv = 0, tw = 0; MC_STEP( n << " values of shape " << shape ); for ( int i = 0; i < n; ++i ) { R v = shape == 0 ? i : shape == 1 ? ( i * 37 ) % 101 - 50 : shape == 2 ? 3 : i % 2, w = weights ? ( i * 5 ) % 4 : 1; if ( weights ) a.add( double( v ), double( w ) ); else a.add( double( v ) ); tv += v * w; tw += w; mc::step(); R want = tw > 0 ? tv / tw : 0; MC_CHECK( std::abs( a.get() - want ) <= 1e-10L * ( 1 + std::abs( want ) ), "average of " << i + 1 << " values is " << a.get() << ", expected " << s( want ) ); } mc::state( uint64_t( n * 10 + shape * 2 + weights ) ); }
MC_SCENARIO( differences_far ) { // each difference is the one between the two values, however different their magnitudes
	static const vector< double > vs = { 0, 1, 0.1, 1e20, -1e20, 1e300, 1e-300, -3.5 }; double prev = mc::pick( vs ); delta< double > d( prev ); delta< float > e( float( std::max( -1e30, std::min( 1e30, prev ) ) ) ); float pf = float( std::max( -1e30, std::min( 1e30, prev ) ) ); string h = mc::show( prev ); int n = mc::range( 1, mc::bound( 3, 4 ) ); for ( int i = 0; i < n; ++i ) { double v = mc::pick( vs ); float f = float( std::max( -1e30, std::min( 1e30, v ) ) ); h += " " + mc::show( v ); MC_STEP( "values " << h ); double w = v - prev; float wf = f - pf; MC_EQ( d( v ), w, "difference" ); MC_EQ( e( f ), wf, "difference" ); prev = v; pf = f; } mc::state( h );
}
MC_SCENARIO_SPLIT( average_weight_scales, 2 ) { // only the proportions of the weights count
	double sc = mc::pick( { 1e-12, 1e-9, 1e-6, 1.0, 1e6, 1e12 } ); int n = mc::range( 1, mc::bound( 3, 4 ) ); math::average_< double > a; R tv = 0, tw = 0; string h = mc::show( sc ); for ( int i = 0; i < n; ++i ) { double v = mc::pick( { -3.0, 0.0, 1.0, 10.0 } ), w = mc::pick( { 1.0, 2.0, 5.0 } ); h += " " + mc::show( v ) + "*" + mc::show( w ); MC_STEP( "weights scaled by " << h ); a.add( v, w * sc ); tv += R( v ) * w; tw += w; MC_CHECK( std::abs( a.get() - tv / tw ) <= 1e-12L * 10, "average is " << a.get() << ", expected " << s( tv / tw ) ); } a.reset(); MC_EQ( a.get(), 0.0, "average after a reset" ); a.add( 7, sc ); MC_CHECK( std::abs( a.get() - 7 ) <= 1e-12, "average of one value after a reset is " << a.get() ); mc::state( h );
}
}
