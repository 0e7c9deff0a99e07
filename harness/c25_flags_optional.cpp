// C25 flag_set and optional
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp
// MC-BOUNDS: all sequences of at most 4 (quick) or 5 (thorough) operations out of 12 kinds on two flag sets over 4 flags at every group of bit positions of 8, 32 and 64 bit storage, and all pairs of flags of a 64 bit set; all sequences of at most 4 (quick) or 5 (thorough) optional operations for 7 value types; all texts of at most 4 characters read into an optional
// MC-ORACLE: array of booleans; pair (present, value)
// MC-ASSUMES: the value an optional integer reserves for absence, and NaN, are not assigned
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/flag_set.hpp"
#include "flut/math/math.hpp"
#include "flut/char_stream.hpp"
#include "flut/math/optional.hpp"
#include <climits>
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;
enum class F : int { };
template< typename S > void flags( const std::vector< int >& bits, int depth ) {
	typedef flag_set< F, S > FS; int W = int( sizeof( S ) * 8 ); FS a[ 2 ]; std::vector< bool > r[ 2 ] = { std::vector< bool >( W ), std::vector< bool >( W ) };
	int n = mc::range( 1, depth );
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 9 ), x = i == 0 ? 0 : mc::choose( 2 ), k = 0, k2 = 0; if ( op < 7 ) k = mc::pick( bits ); if ( op == 3 || op == 4 ) k2 = mc::pick( bits );
		switch ( op ) {
		case 0: MC_STEP( x << ": set " << k ); MC_CHECK( &a[ x ].set( F( k ) ) == &a[ x ], "set returns the set" ); r[ x ][ k ] = true; break;
		case 1: MC_STEP( x << ": set " << k << " true" ); a[ x ].set( F( k ), true ); r[ x ][ k ] = true; break;
		case 2: MC_STEP( x << ": set " << k << " false" ); a[ x ].set( F( k ), false ); r[ x ][ k ] = false; break;
		case 3: MC_STEP( x << ": set { " << k << "," << k2 << "}" ); a[ x ].set( { F( k ), F( k2 ) } ); r[ x ][ k ] = r[ x ][ k2 ] = true; break;
		case 4: MC_STEP( x << ": clear { " << k << "," << k2 << "}" ); a[ x ].clear( { F( k ), F( k2 ) } ); r[ x ][ k ] = r[ x ][ k2 ] = false; break;
		case 5: MC_STEP( x << ": new set { " << k << " }" ); a[ x ] = FS( { F( k ) } ); r[ x ].assign( W, false ); r[ x ][ k ] = true; break;
		case 6: MC_STEP( x << ": copy of the other, changed at " << k ); { FS c( a[ 1 - x ] ); c.set( F( k ) ); MC_CHECK( c.get( F( k ) ), "flag of the copy" ); a[ x ] = a[ 1 - x ]; r[ x ] = r[ 1 - x ]; } break;
		case 7: MC_STEP( x << ": clear" ); a[ x ].clear(); r[ x ].assign( W, false ); break;
		case 8: MC_STEP( x << ": set { }" ); a[ x ].set( std::initializer_list< F >{} ); a[ x ].clear( std::initializer_list< F >{} ); break;
		}
		for ( int y = 0; y < 2; ++y ) { bool any = false; for ( int b = 0; b < W; ++b ) { MC_EQ( a[ y ].get( F( b ) ), bool( r[ y ][ b ] ), "flag " << b << " of " << y ); MC_EQ( a[ y ]( F( b ) ), bool( r[ y ][ b ] ), "flag " << b << " of " << y ); any = any || r[ y ][ b ]; } MC_EQ( a[ y ].any(), any, "any flag of " << y ); }
	}
	string st = std::to_string( W ); for ( int y = 0; y < 2; ++y ) for ( int b = 0; b < W; ++b ) st += r[ y ][ b ] ? '1' : '0'; mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( flags32, 4 ) { flags< unsigned int >( mc::pick( std::vector< std::vector< int > >{ { 0, 1, 31 }, { 7, 8, 16 } } ), mc::bound( 3, 4 ) ); }
MC_SCENARIO_SPLIT( flags8, 4 ) { flags< unsigned char >( { 0, 6, 7 }, mc::bound( 3, 4 ) ); }
MC_SCENARIO_SPLIT( flags64, 4 ) { flags< unsigned long long >( mc::pick( std::vector< std::vector< int > >{ { 0, 31, 32 }, { 33, 62, 63 } } ), mc::bound( 3, 4 ) ); }
MC_SCENARIO_SPLIT( every_pair, 2 ) {
	int i = mc::choose( 64 ), j = mc::choose( 64 ); typedef flag_set< F, unsigned long long > FS; FS s; s.set( F( i ) ); s.set( F( j ), true ); s.set( F( i ), false ); MC_STEP( "flags " << i << " and " << j );
	for ( int b = 0; b < 64; ++b ) MC_EQ( s.get( F( b ) ), b == j && i != j, "flag " << b ); FS t = { F( i ), F( j ) }; for ( int b = 0; b < 64; ++b ) MC_EQ( t( F( b ) ), b == j || b == i, "flag " << b ); t.clear( { F( j ) } ); for ( int b = 0; b < 64; ++b ) MC_EQ( t( F( b ) ), b == i && i != j, "flag " << b );
}
template< int B > void one_static() {
	typedef flag_set< F, unsigned long long > FS; FS s, u; for ( int b = 0; b < 64; ++b ) u.set( F( b ) ); MC_STEP( "static flag " << B );
	s.template set< F( B ) >(); for ( int b = 0; b < 64; ++b ) MC_EQ( s.get( F( b ) ), b == B, "flag " << b ); MC_CHECK( s.template get< F( B ) >(), "static get" );
	u.template clear< F( B ) >(); for ( int b = 0; b < 64; ++b ) MC_EQ( u.get( F( b ) ), b != B, "flag " << b ); MC_CHECK( !u.template get< F( B ) >(), "static get" );
	u.template set< F( B ) >( true ); for ( int b = 0; b < 64; ++b ) MC_CHECK( u.get( F( b ) ), "flag " << b ); s.template set< F( B ) >( false ); MC_CHECK( !s.any(), "any" ); s.template clear< F( B ) >(); s.clear( F( B ) ); MC_CHECK( !s.any(), "clearing an absent flag set something" ); s.template set< F( B ) >().template set< F( B ) >(); s.set( F( B ) ).set( F( B ), true ); for ( int b = 0; b < 64; ++b ) MC_EQ( s.get( F( b ) ), b == B, "flag " << b << " after setting it again" ); s.template set< F( ( B + 1 ) % 64 ) >().template clear< F( B ) >().template clear< F( B ) >(); for ( int b = 0; b < 64; ++b ) MC_EQ( s.get( F( b ) ), b == ( B + 1 ) % 64, "flag " << b << " after clearing twice" );
}
template< int... B > void statics( int k, std::integer_sequence< int, B... > ) { void ( *f[] )() = { &one_static< B >... }; f[ k ](); }
MC_SCENARIO( static_flags ) { statics( mc::choose( 64 ), std::make_integer_sequence< int, 64 >() ); }

template< typename T > void opt( const char* type, const std::vector< T >& vals, int depth ) {
	typedef optional< T > O; O a[ 2 ]; bool has[ 2 ] = { false, false }; T val[ 2 ] = { vals[ 0 ], vals[ 0 ] }; int n = mc::range( 0, depth );
	auto check = [&] { for ( int y = 0; y < 2; ++y ) { MC_EQ( bool( a[ y ] ), has[ y ], type << ": presence of " << y ); if ( has[ y ] ) { T g = *a[ y ]; MC_EQ( g, val[ y ], type << ": value of " << y ); } } }; check();
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 7 ), x = mc::choose( 2 ); T v = vals[ 0 ]; if ( op < 3 || op == 6 ) v = mc::pick( vals );
		switch ( op ) {
		case 0: MC_STEP( type << " " << x << " = " << mc::show( v ) ); a[ x ] = v; has[ x ] = true; val[ x ] = v; break;
		case 1: MC_STEP( type << " " << x << " = optional( " << mc::show( v ) << " )" ); a[ x ] = O( v ); has[ x ] = true; val[ x ] = v; break;
		case 2: { MC_STEP( type << " " << x << " = moved " << mc::show( v ) ); T t = v; a[ x ] = std::move( t ); has[ x ] = true; val[ x ] = v; break; }
		case 3: MC_STEP( type << " " << x << " = other" ); a[ x ] = a[ 1 - x ]; has[ x ] = has[ 1 - x ]; val[ x ] = val[ 1 - x ]; break;
		case 4: MC_STEP( type << " " << x << " = empty" ); a[ x ] = O(); has[ x ] = false; break;
		case 6: { MC_STEP( type << " " << x << " = optional( moved " << mc::show( v ) << " )" ); T t = v; O c( std::move( t ) ); MC_CHECK( bool( c ), "optional made of a moved value is empty" ); a[ x ] = std::move( c ); has[ x ] = true; val[ x ] = v; break; }
		case 5: { MC_STEP( type << " copy of " << x ); O c( a[ x ] ); MC_EQ( bool( c ), has[ x ], "presence of the copy" ); if ( has[ x ] ) { T g = *c; MC_EQ( g, val[ x ], "value of the copy" ); } break; }
		}
		check();
	}
	string st = type; for ( int y = 0; y < 2; ++y ) st += has[ y ] ? mc::show( val[ y ] ) : "-"; mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( optionals, 4 ) {
	int d = mc::bound( 3, 4 );
	switch ( mc::choose( 8 ) ) {
	case 0: opt< int >( "int", { 0, 1, -1, INT_MAX, INT_MIN + 1 }, d ); break;
	case 1: opt< size_t >( "size_t", { 0, 1, ~size_t( 0 ) - 1 }, d ); break;
	case 2: opt< float >( "float", { 0.f, -0.5f, 1e30f, HUGE_VALF, -HUGE_VALF }, d ); break;
	case 3: opt< double >( "double", { 0., -0.5, 1e300, HUGE_VAL }, d ); break;
	case 4: opt< string >( "string", { "", "abc", string( 40, 'x' ) }, d ); break;
	case 5: { struct W { bool b; bool operator==( const W& o ) const { return b == o.b; } operator bool() const { return b; } }; optional< bool > o; MC_CHECK( !o, "empty optional<bool>" ); bool v = mc::flip(); MC_STEP( "optional<bool> = " << v ); o = v; MC_CHECK( bool( o ), "assigned optional<bool> is empty" ); MC_EQ( bool( *o ), v, "value" ); optional< bool > p( v ); MC_CHECK( bool( p ) && *p == v, "constructed optional<bool>" ); break; }
	case 6: opt< long long >( "long long", { 0, LLONG_MAX, -5 }, d ); break;
	case 7: opt< char >( "char", { 'a', '\0', '\x7f' }, d ); break;
	}
}
MC_SCENARIO_SPLIT( from_text, 3 ) {
	string s = gen::str( "1-. x", 0, mc::bound( 4, 5 ) ); bool preset = mc::flip(); int kind = mc::choose( 4 ); MC_STEP( "optional from " << mc::show( s ) << ( preset ? " preset" : "" ) << " kind " << kind );
	auto expect = [&]( auto& o, auto def, bool ok, auto v ) { if ( ok ) { MC_CHECK( bool( o ), "value not stored" ); MC_EQ( double( *o ), double( v ), "value" ); } else { MC_EQ( bool( o ), preset, "presence after unreadable text" ); if ( preset ) MC_EQ( double( *o ), double( def ), "value after unreadable text" ); } mc::outcome( mc::show( ok ) + mc::show( v ) ); };
	if ( kind == 0 ) { std::istringstream t( s ), u( s ); optional< int > o; if ( preset ) o = 77; int v = 0; bool ok = bool( u >> v ); t >> o; MC_EQ( !t.fail(), ok, "stream state" ); expect( o, 77, ok, v ); }
	else if ( kind == 1 ) { std::istringstream t( s ), u( s ); optional< double > o; if ( preset ) o = 77; double v = 0; bool ok = bool( u >> v ); t >> o; expect( o, 77, ok, v ); }
	else if ( kind == 2 ) { char_stream t( s.c_str() ), u( s.c_str() ); optional< int > o; if ( preset ) o = 77; int v = 0; u >> v; bool ok = !u.fail(); t >> o; expect( o, 77, ok, v ); }
	else { char_stream t( s.c_str() ), u( s.c_str() ); optional< float > o; if ( preset ) o = 77; float v = 0; u >> v; bool ok = !u.fail(); t >> o; expect( o, 77, ok, v ); }
	mc::state( s + char( 'a' + kind ) );
}
}
