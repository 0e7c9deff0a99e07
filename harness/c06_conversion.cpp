// C06 conversion to and from text, formatting
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all integers -1000..1000, all powers of two +-2 and type limits for 11 integer types; all multiples of 1/64 up to 1024, powers of ten 1e-6..1e15 and limits for float and double; all strings of length <= 4 over 8 bytes; all formatted texts of length 0..1100 (thorough 0..5000) by 4 formats plus 4095..65537 boundaries; enumerations of 8 underlying types at 27 values
// MC-ORACLE: identity (floating point: half a unit of the sixth decimal); formatted text assembled independently
// MC-ASSUMES: "C" locale; char-sized integers are written as characters and are left out
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/system/path.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

template< typename T > string ref_int( T v ) {
	if ( v == 0 ) return "0";
	bool neg = v < 0; unsigned __int128 m = neg ? -(__int128)v : (__int128)v; string s;
	while ( m ) { s.insert( s.begin(), char( '0' + int( m % 10 ) ) ); m /= 10; }
	return neg ? "-" + s : s;
}
template< typename T > void int_rt( T v )
{
	string s = to_str( v );
	MC_STEP( "integer -> " << s );
	MC_EQ( s, ref_int( v ), "to_str of an integer" );
	MC_EQ( from_str< T >( s ), v, "from_str( to_str( " << s << " ) )" );
	MC_EQ( from_str< T >( " " + s + " x" ), v, "from_str with surrounding text" );
	MC_CHECK( string_is< T >( s ), "string_is rejects " << s );
	mc::state( s ); mc::outcome( s );
}
template< typename T > void int_type()
{
	int k = mc::choose( 4 );
	T lo = std::numeric_limits< T >::min(), hi = std::numeric_limits< T >::max();
	if ( k == 0 ) { int r = mc::range( -1000, 1000 ); int_rt( T( r ) ); }
	else if ( k == 1 ) { int b = mc::choose( sizeof( T ) * 8 ), d = mc::range( -2, 2 ); int_rt( T( T( T( 1 ) << b ) + T( d ) ) ); }
	else if ( k == 2 ) { int b = mc::choose( sizeof( T ) * 8 ), d = mc::range( -2, 2 ); int_rt( T( T( hi >> b ) + T( d ) ) ); }
	else { int d = mc::range( 0, 2 ); int_rt( mc::flip() ? T( lo + d ) : T( hi - d ) ); }
}
enum plain_enum { pe_a, pe_b = 5, pe_c = -3, pe_d = 2000000000 };
enum class scoped_enum { x = 1, y = -2147483647 - 1, z = 2147483647 };
MC_SCENARIO( integers ) {
	switch ( mc::choose( 9 ) ) {
	case 0: int_type< int >(); break; case 1: int_type< unsigned >(); break; case 2: int_type< long >(); break; case 3: int_type< unsigned long >(); break;
	case 4: int_type< long long >(); break; case 5: int_type< unsigned long long >(); break; case 6: int_type< short >(); break; case 7: int_type< unsigned short >(); break;
	case 8: {
		plain_enum p = mc::pick( { pe_a, pe_b, pe_c, pe_d } ); scoped_enum e = mc::pick( { scoped_enum::x, scoped_enum::y, scoped_enum::z } );
		MC_STEP( "enum " << int( p ) << " " << int( e ) );
		MC_EQ( to_str( p ), std::to_string( int( p ) ), "to_str of an enumeration" );
		MC_EQ( to_str( e ), std::to_string( int( e ) ), "to_str of a scoped enumeration" );
		MC_CHECK( from_str< plain_enum >( to_str( p ) ) == p && from_str< scoped_enum >( to_str( e ) ) == e, "enumeration round trip of " << int( p ) << " / " << int( e ) );
		break; }
	}
}
template< typename T > void real_rt( T v )
{
	string s = to_str( v );
	MC_STEP( "real " << v << " -> " << s );
	T w = from_str< T >( s );
	double tol = 0.5000001e-6 + std::abs( double( v ) ) * ( std::is_same< T, float >::value ? 6e-8 : 1.2e-16 );
	MC_CHECK( std::abs( double( w ) - double( v ) ) <= tol, "round trip of " << mc::show( v ) << " through " << s << " gives " << mc::show( w ) );
	MC_CHECK( string_is< T >( s ), "string_is rejects " << s );
	mc::state( s ); mc::outcome( s );
}
MC_SCENARIO( reals ) {
	int k = mc::choose( 4 ); double v = 0;
	if ( k == 0 ) v = mc::range( -4096, 4096 ) / 64.0;
	else if ( k == 1 ) { int e = mc::range( -6, 15 ); double m = mc::range( -99, 99 ) / 10.0; v = m * std::pow( 10.0, e ); }
	else if ( k == 2 ) { int e = mc::range( -30, 100 ); int d = mc::range( -1, 1 ); v = std::ldexp( 1.0, e ); v = d < 0 ? -v : d > 0 ? std::nextafter( v, 2 * v ) : v; }
	else v = mc::pick( { 0.0, -0.0, 1.0 / 3, 2.0 / 3, 1e-6, 1.5e-6, 123456.789012, 1e9 + 0.5, 3.4028234e38, -3.4028234e38 } );
	if ( mc::flip() ) real_rt< float >( float( v ) ); else real_rt< double >( v );
}
MC_SCENARIO( largest ) { double v = mc::pick( { 1.7976931348623157e308, -1.7976931348623157e308, 1e300, 1.2345678901234567e200 } ); real_rt< double >( v ); }
MC_SCENARIO( texts ) {
	string s = gen::str( string( "a \"\\\n\xe9/.", 8 ), 0, mc::bound( 5, 6 ) ) + mc::pick( { "", "0123456789012345678901234567890123456789" } );
	MC_STEP( "text " << mc::show( s ) );
	MC_EQ( to_str( s ), s, "to_str of a string" );
	MC_EQ( from_str< string >( s ), s, "from_str of a string" );
	path p( s );
	MC_EQ( to_str( p ), s, "to_str of a path" );
	MC_EQ( from_str< path >( s ).str(), s, "from_str of a path" );
	MC_EQ( to_str( s.c_str() ), s, "to_str of a C string" );
	mc::state( s );
}
// texts that do not start with a number are rejected
MC_SCENARIO( rejected ) {
	string s = gen::str( "x1-. ", 0, mc::bound( 5, 6 ) );
	size_t i = 0; while ( i < s.size() && s[ i ] == ' ' ) ++i; if ( i < s.size() && s[ i ] == '-' ) ++i;
	bool is_int = i < s.size() && s[ i ] == '1';
	bool is_real = is_int || ( i + 1 < s.size() && s[ i ] == '.' && s[ i + 1 ] == '1' );
	MC_STEP( "text " << mc::show( s ) );
	MC_EQ( string_is< long >( s ), is_int, "string_is< long >( " << mc::show( s ) << " )" );
	MC_EQ( string_is< long long >( s ), is_int, "string_is< long long >( " << mc::show( s ) << " )" );
	MC_EQ( string_is< unsigned long >( s ), is_int, "string_is< unsigned long >( " << mc::show( s ) << " )" );
	MC_EQ( string_is< unsigned long long >( s ), is_int, "string_is< unsigned long long >( " << mc::show( s ) << " )" );
	MC_EQ( string_is< double >( s ), is_real, "string_is< double >( " << mc::show( s ) << " )" );
	MC_EQ( string_is< float >( s ), is_real, "string_is< float >( " << mc::show( s ) << " )" );
	MC_EQ( MC_THROWS( from_str< double >( s ) ), !is_real, "from_str< double >( " << mc::show( s ) << " ) throws" );
	mc::state( s );
}
// formatting
static void fmt( int n, int kind )
{
	string x( n, 'x' ); for ( int i = 0; i < n; ++i ) x[ i ] = char( 'a' + i % 26 );
	string got, want;
	switch ( kind ) {
	case 0: got = stringf( "%s", x.c_str() ); want = x; break;
	case 1: got = stringf( "%d:%s:%g|", n, x.c_str(), 0.5 ); want = std::to_string( n ) + ":" + x + ":0.5|"; break;
	case 2: got = stringf( "%*d", n, 7 ); want = n > 1 ? string( n - 1, ' ' ) + "7" : "7"; break;
	case 3: { string f = x; got = stringf( f.c_str() ); want = x; break; }
	}
	MC_STEP( "format kind " << kind << " length " << n );
	MC_EQ( got, want, "formatted text of length " << n );
	mc::state( std::to_string( kind * 100000 + n ) ); mc::outcome( got );
}
MC_SCENARIO( formatted ) { int k = mc::choose( 4 ); fmt( mc::range( 0, mc::bound( 1100, 5000 ) ), k ); }
MC_SCENARIO( formatted_null ) { // a null character is a character like any other
	int n = mc::pick( { 0, 1, 5, 250, 253, 254, 255, 256, 257, 300, 1000 } ), m = mc::pick( { 0, 1, 4, 255, 400 } ), c = mc::pick( { 0, 1, int( 'x' ), 255 } ); string x( n, 'x' ), y( m, 'y' ); MC_STEP( "format " << n << " characters, byte " << c << " and " << m << " characters" ); MC_EQ( stringf( "%s%c%s", x.c_str(), c, y.c_str() ), x + char( c ) + y, "formatted text" ); mc::state( uint64_t( n * 1000000 + m * 1000 + c ) ); mc::outcome( uint64_t( n + m ) );
}
MC_SCENARIO( formatted_long ) { int k = mc::choose( 4 ); fmt( mc::pick( { 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537 } ), k ); }
MC_SCENARIO( formatted_numbers ) {
	int n = mc::range( -300, 300 ); int w = mc::range( 0, 5 );
	MC_STEP( "format " << n << " width " << w );
	string d = ref_int( n ), p = d; while ( int( p.size() ) < w ) p.insert( p.begin(), ' ' );
	MC_EQ( stringf( "%*d", w, n ), p, "padded number" );
	MC_EQ( stringf( "%d.%d/%s%%", n, w, d.c_str() ), d + "." + ref_int( w ) + "/" + d + "%", "several arguments" );
	MC_EQ( stringf( "%.2f", n / 4.0 ), ( n < 0 ? "-" : "" ) + ref_int( std::abs( n ) / 4 ) + string( "." ) + string( &"00\0" "25\0" "50\0" "75\0"[ 3 * ( std::abs( n ) % 4 ) ] ), "number with decimals" );
}
enum class schar_enum : signed char { a }; enum class uchar_enum : unsigned char { a }; enum class short_enum : short { a }; enum class uint_enum : unsigned { a }; enum class long_enum : long long { a }; enum class ulong_enum : unsigned long long { a }; enum big_enum { be_a = 1, be_b = 1ll << 40, be_c = -( 1ll << 62 ) }; enum class bool_enum : bool { no, yes };
template< typename E > void enum_rt( long long v ) { E e = static_cast< E >( v ); MC_STEP( typeid( E ).name() << " " << v ); E back = from_str< E >( to_str( e ) ); MC_CHECK( back == e, "enumeration value " << v << " written as " << to_str( e ) << " reads back as " << (long long)( back ) ); }
MC_SCENARIO( enumerations ) { // of every underlying type
	int t = mc::choose( 8 ); long long v = mc::pick( vector< long long >{ 0, 1, -1, 9, 10, 48, 65, 127, -128, 128, 255, 32767, -32768, 32768, 65535, 2147483647ll, -2147483648ll, 2147483648ll, 4294967295ll, 4294967296ll, 1ll << 40, -( 1ll << 40 ), 9007199254740993ll, 4611686018427387904ll, -4611686018427387904ll, 9223372036854775807ll, -9223372036854775807ll - 1 } );
	if ( t == 0 ) enum_rt< schar_enum >( (signed char)v ); if ( t == 1 ) enum_rt< uchar_enum >( (unsigned char)v ); if ( t == 2 ) enum_rt< short_enum >( (short)v ); if ( t == 3 ) enum_rt< uint_enum >( (unsigned)v ); if ( t == 4 ) enum_rt< long_enum >( v ); if ( t == 5 ) enum_rt< ulong_enum >( v ); if ( t == 6 ) enum_rt< big_enum >( v == 1ll << 40 || v == -4611686018427387904ll ? v : 1 ); if ( t == 7 ) enum_rt< bool_enum >( v & 1 );
	mc::state( std::to_string( t ) + ":" + std::to_string( v ) ); mc::outcome( uint64_t( v ) );
}
}
