// C39 delay lines and filters
// MC-SOURCES: flut/prop_node.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: delay lines of resolution 2, 3, 4 and 5, 1..4 samples per window, 3 step sizes, 3 initial values (scalars and 3-vectors), all input signals up to 9 (thorough 12) samples over two values and 7 (thorough 9) over three; the smooth variant also with every sequence of varying steps up to 5 (thorough 6) out of 4 sizes not exceeding the window; filters of order 1..3 over coefficients {-1,0,1/2} (all tuples for order 1 and 2; 6 tuples for order 3) on all signals up to 6 (thorough 8) samples over 3 values; low-pass design at 9 cut-off ratios on all signals up to 6 (thorough 8) samples, frequency response on a grid of 15 frequencies, constants and shifted and summed signals; delay lines up to resolution 100 and filters up to order 16 on long signals
// MC-ORACLE: closed formulas over the whole input history in long double (no state machine); analytic Butterworth response
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/types.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/delayer.hpp"
#include "flut/filter.hpp"
#include <complex>
namespace vh { // own names do not clash with names of the library
using namespace flut; using std::string; using std::vector; typedef long double R;
static string s( R x ) { std::ostringstream o; o << double( x ); return o.str(); }
template< typename T > R tol() { return sizeof( T ) == 8 ? 1e-11L : 2e-5L; }
static const R dtol = 2e-5L; // delay lines keep their time in single precision
template< typename V > struct Comp { static V make( R v ) { return V( v ); } static R err( const V& g, R v ) { return std::abs( R( g ) - v ); } static string show( const V& g ) { return s( g ); } };
template< typename T > struct Comp< math::vec3_<T> > { typedef math::vec3_<T> V; static V make( R v ) { return V( T( v ), T( 1 - v ), T( 3 * v ) ); } static R err( const V& g, R v ) { return std::max( { std::abs( R( g.x ) - v ), std::abs( R( g.y ) - ( 1 - v ) ), std::abs( R( g.z ) - 3 * v ) } ); } static string show( const V& g ) { return s( g.x ) + " " + s( g.y ) + " " + s( g.z ); } };
template< typename V, int N > void delay() {
	typedef Comp<V> C; int k = mc::range( 1, 4 ); R dt = mc::pick( vector< int >{ 1, 4, 16 } ) / R( 16 ); R init = mc::pick( vector< int >{ 0, 5, -1 } ); vector< int > alpha = mc::flip() ? vector< int >{ 1, 3 } : vector< int >{ 0, 2, -3 }; int n = alpha.size() == 2 ? mc::bound( 9, 12 ) : mc::bound( 7, 9 ); if ( N > 3 || sizeof( V ) != 8 ) n -= 2;
	R W = k * dt; delayer< V, N > d( float( W * ( N - 1 ) ), C::make( init ) ); MC_STEP( "delay line of resolution " << N << ", " << k << " samples per window, initial value " << s( init ) ); MC_CHECK( C::err( d(), init ) <= dtol, "initial output is " << C::show( d() ) ); vector< R > x( 1, init ); string h;
	for ( int i = 1; i <= n; ++i ) { R v = mc::pick( alpha ); x.push_back( v ); h += s( v ) + " "; V got = d( C::make( v ), float( dt ) ); MC_STEP( "in " << s( v ) << " out " << C::show( got ) ); R pos = R( i ) / k - ( N - 1 ); R m = std::floor( pos ), w = pos - m; auto at = [&]( R j ) { return j <= 0 ? init : x[ size_t( j ) * k ]; }; R want = ( 1 - w ) * at( m ) + ( w > 0 ? w * at( m + 1 ) : 0 ); MC_CHECK( C::err( got, want ) <= dtol * 20, "output after " << h << "is " << C::show( got ) << ", expected " << s( want ) ); MC_CHECK( C::err( d.delayed_value(), want ) <= dtol * 20 && C::err( d(), want ) <= dtol * 20, "output read again differs" ); }
	mc::state( s( dt ) + s( init ) + ":" + std::to_string( k ) + h ); mc::outcome( C::show( d() ) );
}
MC_SCENARIO_SPLIT( delay_2, 5 ) { delay< double, 2 >(); }
MC_SCENARIO_SPLIT( delay_3, 5 ) { delay< double, 3 >(); }
MC_SCENARIO_SPLIT( delay_4, 5 ) { delay< double, 4 >(); }
MC_SCENARIO_SPLIT( delay_5, 5 ) { delay< double, 5 >(); }
MC_SCENARIO_SPLIT( delay_float, 5 ) { delay< float, 3 >(); }
MC_SCENARIO_SPLIT( delay_vectors, 5 ) { delay< math::vec3f, 3 >(); }

template< typename V, int N > void smooth( bool varying ) {
	typedef Comp<V> C; R init = mc::pick( vector< int >{ 0, 5, -1 } ); vector< R > steps; R W = 1; int n;
	if ( varying ) { W = mc::pick( vector< int >{ 8, 6 } ) / R( 8 ); steps = { 0.25L, 0.5L, 0.625L, 0.125L }; n = mc::bound( 5, 6 ); } else { int k = mc::range( 1, 4 ); R dt = mc::pick( vector< int >{ 1, 4, 16 } ) / R( 16 ); W = k * dt; steps = { dt }; n = mc::bound( 7, 10 ); }
	vector< int > alpha = varying ? vector< int >{ 1, 4 } : mc::flip() ? vector< int >{ 1, 3 } : vector< int >{ 0, 2, -3 }; if ( alpha.size() == 3 ) n = mc::bound( 6, 8 ); if ( !varying && ( N > 2 || sizeof( V ) != 8 ) ) --n; smooth_delayer< V, N > d( float( W * ( R( N ) - 0.5L ) ), C::make( init ) ); MC_STEP( "smooth delay line of resolution " << N << ", window " << s( W ) << ", initial value " << s( init ) ); MC_CHECK( C::err( d(), init ) <= dtol, "initial output is " << C::show( d() ) );
	struct Seg { R a, b, v; }; vector< Seg > seg; R t = 0; string h; auto avg = [&]( R m ) { if ( m <= 0 ) return init; R lo = ( m - 1 ) * W, hi = m * W, sum = 0; for ( auto& g : seg ) { R a = std::max( g.a, lo ), b = std::min( g.b, hi ); if ( b > a ) sum += ( b - a ) * g.v; } return sum / W; }; // mean of the input over window m
	for ( int i = 1; i <= n; ++i ) { R v = mc::pick( alpha ), dt = steps.size() > 1 ? mc::pick( steps ) : steps[ 0 ]; seg.push_back( { t, t + dt, v } ); t += dt; h += s( v ) + "@" + s( t ) + " "; V got = d( C::make( v ), float( dt ) ); MC_STEP( "in " << s( v ) << " for " << s( dt ) << " out " << C::show( got ) ); R pos = t / W, m = std::floor( pos ), w = pos - m; R want = ( 1 - w ) * avg( m - N + 1 ) + w * avg( m - N + 2 ); MC_CHECK( C::err( got, want ) <= dtol * 20, "output after " << h << "is " << C::show( got ) << ", expected " << s( want ) ); MC_CHECK( C::err( d.delayed_value(), want ) <= dtol * 20 && C::err( d(), want ) <= dtol * 20, "output read again differs" ); }
	mc::state( s( init ) + ":" + s( W ) + h ); mc::outcome( C::show( d() ) );
}
MC_SCENARIO_SPLIT( smooth_2, 5 ) { smooth< double, 2 >( false ); }
MC_SCENARIO_SPLIT( smooth_3, 5 ) { smooth< double, 3 >( false ); }
MC_SCENARIO_SPLIT( smooth_5, 5 ) { smooth< double, 5 >( false ); }
MC_SCENARIO_SPLIT( smooth_float, 5 ) { smooth< float, 3 >( false ); }
MC_SCENARIO_SPLIT( smooth_vectors, 5 ) { smooth< math::vec3f, 2 >( false ); }
MC_SCENARIO_SPLIT( smooth_varying_2, 5 ) { smooth< double, 2 >( true ); }
MC_SCENARIO_SPLIT( smooth_varying_3, 5 ) { smooth< double, 3 >( true ); }
MC_SCENARIO_SPLIT( smooth_varying_4, 5 ) { smooth< float, 4 >( true ); }

/// the difference equation over the whole history
struct Equation { R b0; vector< R > b, a, x, y; R next( R v ) { R r = b0 * v; for ( size_t i = 0; i < b.size(); ++i ) { if ( x.size() > i ) r += b[ i ] * x[ x.size() - 1 - i ] + a[ i ] * y[ y.size() - 1 - i ]; } x.push_back( v ); y.push_back( r ); return r; } };
template< typename F > R vel( const F& f, std::true_type ) { return f.velocity(); } template< typename F > R vel( const F&, std::false_type ) { return 0; }
template< typename T, int N, typename F > void drive( F& f, Equation e, int n, R t, const string& what ) {
	string h; R prev = 0; MC_CHECK( f() == 0, "output before any input" ); static const vector< int > in = { 0, 1, -2 }; for ( int i = 0; i < n; ++i ) { R v = mc::pick( in ); h += s( v ) + " "; R want = e.next( v ); T got = f( T( v ) ); MC_STEP( "in " << s( v ) << " out " << s( got ) ); R lim = t * ( 1 + std::abs( want ) ); MC_CHECK( std::abs( got - want ) <= lim, what << " after " << h << "gives " << s( got ) << ", expected " << s( want ) ); MC_CHECK( f() == got, "output read again differs" ); if ( N > 1 ) MC_CHECK( std::abs( vel( f, std::integral_constant< bool, ( N > 1 ) >() ) - ( want - prev ) ) <= 2 * lim + t * ( 1 + std::abs( prev ) ), "velocity after " << h ); prev = want; }
	mc::state( what + h ); mc::outcome( s( prev ) );
}
template< typename T, int N > void filters() {
	iir_filter< T, N > f; Equation e; static const vector< R > cs = { 0, 0.5L, -1 }; string w = "filter"; if ( N < 3 ) { e.b0 = mc::pick( cs ); for ( int i = 0; i < N; ++i ) e.b.push_back( mc::pick( cs ) ); for ( int i = 0; i < N; ++i ) e.a.push_back( mc::pick( cs ) ); }
	else { static const vector< vector< R > > sets = { { 1, 0, 0, 0, 0, 0, 0 }, { 0, 0, 0, 1, 0, 0, 0 }, { 1, 0, 0, 0, 0, 0, -1 }, { 0.5L, 1, -1, 2, 0.5L, -0.5L, 0.25L }, { 0, 1, 2, 3, 0, 0.5L, -1 }, { -1, 0.5L, 0, 0.25L, 1, 0, 0.5L } }; auto& q = mc::pick( sets ); e.b0 = q[ 0 ]; e.b.assign( q.begin() + 1, q.begin() + 4 ); e.a.assign( q.begin() + 4, q.end() ); }
	f.b0_ = T( e.b0 ); w += " " + s( e.b0 ); for ( int i = 0; i < N; ++i ) { f.b_[ i ] = T( e.b[ i ] ); f.a_[ i ] = T( e.a[ i ] ); w += "," + s( e.b[ i ] ) + "/" + s( e.a[ i ] ); } MC_STEP( w ); drive< T, N >( f, e, N == 2 ? mc::bound( 5, 7 ) : mc::bound( 6, 8 ), tol<T>(), w );
}
MC_SCENARIO( order_1 ) { filters< double, 1 >(); }
MC_SCENARIO( order_2 ) { filters< double, 2 >(); }
MC_SCENARIO( order_3 ) { filters< double, 3 >(); }
MC_SCENARIO( order_3_float ) { filters< float, 3 >(); }

static const vector< R > ratios = { 0.01L, 0.05L, 0.1L, 0.15L, 0.2L, 0.25L, 0.3L, 0.4L, 0.45L }; static const R pi = 3.14159265358979323846264338327950288L;
static Equation butterworth( R r ) { R K = std::tan( pi * r ), q = std::sqrt( R( 2 ) ), n = 1 / ( 1 + q * K + K * K ); Equation e; e.b0 = K * K * n; e.b = { 2 * K * K * n, K * K * n }; e.a = { -2 * ( K * K - 1 ) * n, -( 1 - q * K + K * K ) * n }; return e; } // bilinear transform of the analog prototype
template< typename T > void lowpass() { R r = mc::pick( ratios ); auto f = make_lowpass_butterworth_2nd_order( T( r ) ); MC_STEP( "cut-off ratio " << s( r ) ); drive< T, 2 >( f, butterworth( r ), mc::bound( 6, 8 ), sizeof( T ) == 8 ? 1e-9L : 2e-4L, "low-pass filter at ratio " + s( r ) ); }
MC_SCENARIO_SPLIT( lowpass_double, 2 ) { lowpass< double >(); }
MC_SCENARIO_SPLIT( lowpass_float, 2 ) { lowpass< float >(); }
MC_SCENARIO_SPLIT( response, 2 ) { // amplitude at each frequency from the impulse response
	R r = mc::pick( ratios ); int k = mc::choose( 15 ); R fr = k == 14 ? r : ( k + 0.5L ) / 28; MC_STEP( "cut-off ratio " << s( r ) << " frequency ratio " << s( fr ) ); auto f = make_lowpass_butterworth_2nd_order( double( r ) ); std::complex< R > H = 0; for ( int n = 0; n < 4000; ++n ) H += R( f( n == 0 ? 1.0 : 0.0 ) ) * std::polar( R( 1 ), -2 * pi * fr * n ); R want = 1 / std::sqrt( 1 + std::pow( std::tan( pi * fr ) / std::tan( pi * r ), R( 4 ) ) ); MC_CHECK( std::abs( std::abs( H ) - want ) <= 1e-7L, "amplitude is " << s( std::abs( H ) ) << ", expected " << s( want ) ); mc::state( s( r ) + " " + s( fr ) ); mc::outcome( s( want ) );
}
MC_SCENARIO_SPLIT( constants_pass, 2 ) { R r = mc::pick( ratios ); double c = mc::pick( vector< double >{ 1, -3, 100, 0, 0.001 } ); MC_STEP( "cut-off ratio " << s( r ) << " constant " << c ); auto f = make_lowpass_butterworth_2nd_order( double( r ) ); double y = 0; for ( int i = 0; i < 4000; ++i ) y = f( c ); MC_CHECK( std::abs( y - c ) <= 1e-8 * std::abs( c ), "constant " << c << " gives " << y ); MC_CHECK( std::abs( f.velocity() ) <= 1e-8 * std::abs( c ), "constant gives a velocity" ); mc::state( s( r ) + s( c ) ); mc::outcome( s( c ) ); }
MC_SCENARIO( linear_and_time_invariant ) { R r = mc::pick( ratios ); auto f = make_lowpass_butterworth_2nd_order( double( r ) ), g = f, h = f, d = f; int n = mc::bound( 4, 5 ), delay = mc::range( 1, 3 ); vector< double > a, out; string t; for ( int i = 0; i < n; ++i ) { double x = mc::pick( vector< int >{ 0, 1, -2 } ), y = mc::pick( vector< int >{ 0, 3 } ); t += s( x ) + "," + s( y ) + " "; MC_STEP( "in " << x << " and " << y ); double fx = f( x ), gy = g( y ), sum = h( 2 * x - y ); MC_CHECK( std::abs( sum - ( 2 * fx - gy ) ) <= 1e-11, "response to a combination after " << t ); a.push_back( x ); out.push_back( fx ); } for ( int i = 0; i < delay; ++i ) d( 0.0 ); for ( int i = 0; i < n; ++i ) MC_CHECK( std::abs( d( a[ i ] ) - out[ i ] ) <= 1e-12, "delayed response" ); mc::state( s( r ) + t + std::to_string( delay ) ); mc::outcome( s( out.back() ) ); }
template< int N, bool SMOOTH > void long_delay() {
	int k = mc::pick( { 1, 2, 4, 7 } ); R dt = 1 / R( 64 ), W = k * dt, init = mc::pick( vector< int >{ 0, 5 } ); int n = ( SMOOTH ? 5 : 4 ) * N * k + 3, shape = mc::choose( 3 ); MC_STEP( ( SMOOTH ? "smooth " : "" ) << "delay line of resolution " << N << ", " << k << " samples per window, " << n << " samples" ); typename std::conditional< SMOOTH, smooth_delayer< double, N >, delayer< double, N > >::type d( float( SMOOTH ? W * ( R( N ) - 0.5L ) : W * ( N - 1 ) ), double( init ) ); vector< R > x( 1, init );
	for ( int i = 1; i <= n; ++i ) { R v = shape == 0 ? i : shape == 1 ? ( i * 37 ) % 101 : i % 9 == 0; x.push_back( v ); R got = d( double( v ), float( dt ) ); mc::step(); int m = i / k; R w = R( i % k ) / k; auto at = [&]( int j ) -> R { if ( j <= 0 ) return init; if ( !SMOOTH ) return x[ size_t( j ) * k ]; R sum = 0; for ( int q = ( j - 1 ) * k + 1; q <= j * k; ++q ) sum += x[ q ]; return sum / k; }; R want = SMOOTH ? ( 1 - w ) * at( m - N + 1 ) + ( w > 0 ? w * at( m - N + 2 ) : 0 ) : ( 1 - w ) * at( m - ( N - 1 ) ) + ( w > 0 ? w * at( m + 1 - ( N - 1 ) ) : 0 ); MC_CHECK( std::abs( got - want ) <= 1e-3L * ( 1 + std::abs( want ) ), "output " << i << " is " << s( got ) << ", expected " << s( want ) ); }
	mc::state( uint64_t( N * 1000 + k * 10 + shape + ( SMOOTH ? 5 : 0 ) ) * 10 + uint64_t( init ) );
}
MC_SCENARIO( long_delay_2 ) { long_delay< 2, false >(); } MC_SCENARIO( long_delay_6 ) { long_delay< 6, false >(); } MC_SCENARIO( long_delay_8 ) { long_delay< 8, false >(); } MC_SCENARIO( long_delay_16 ) { long_delay< 16, false >(); } MC_SCENARIO( long_delay_17 ) { long_delay< 17, false >(); } MC_SCENARIO( long_delay_64 ) { long_delay< 64, false >(); } MC_SCENARIO( long_delay_100 ) { long_delay< 100, false >(); }
MC_SCENARIO( long_smooth_2 ) { long_delay< 2, true >(); } MC_SCENARIO( long_smooth_6 ) { long_delay< 6, true >(); } MC_SCENARIO( long_smooth_8 ) { long_delay< 8, true >(); } MC_SCENARIO( long_smooth_17 ) { long_delay< 17, true >(); } MC_SCENARIO( long_smooth_64 ) { long_delay< 64, true >(); }
template< int N > void high_order() { iir_filter< double, N > f; Equation e; e.b0 = 0.5L; int shape = mc::choose( 4 ); for ( int i = 0; i < N; ++i ) { e.b.push_back( shape == 0 ? 0 : ( ( i * 5 ) % 7 ) / R( 8 ) ); e.a.push_back( shape == 1 ? 0 : ( shape == 2 ? ( i == N - 1 ? 0.5L : 0 ) : ( ( i * 3 ) % 5 - 2 ) / R( 8 * N ) ) ); f.b_[ i ] = double( e.b[ i ] ); f.a_[ i ] = double( e.a[ i ] ); } f.b0_ = 0.5; MC_STEP( "filter of order " << N << " coefficients " << shape ); for ( int i = 0; i < 6 * N; ++i ) { R v = i == 0 ? 1 : ( i * 7 ) % 5 - 2; R want = e.next( v ); double got = f( double( v ) ); mc::step(); MC_CHECK( std::abs( got - want ) <= 1e-9L * ( 1 + std::abs( want ) ), "output " << i << " of order " << N << " is " << got << ", expected " << s( want ) ); MC_CHECK( f() == got, "output read again differs" ); } mc::state( uint64_t( N * 10 + shape ) ); }
MC_SCENARIO( order_4 ) { high_order< 4 >(); } MC_SCENARIO( order_5 ) { high_order< 5 >(); } MC_SCENARIO( order_8 ) { high_order< 8 >(); } MC_SCENARIO( order_16 ) { high_order< 16 >(); }
}
