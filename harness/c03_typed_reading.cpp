// C03 typed reading from text
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all texts of <= 3 (thorough 4) items out of 20 (numbers of every form, words, junk) with every separator, x all sequences of up to 4 (5) read operations out of 12 types; all texts of length <= 7 (8) over digits, sign, dot, blank and letter for scan_str and str_to_vec with all maxima; boundary values of every integer and floating point type, with leading zeros; decimal texts at and next to the middle of two values (121 exponents, both types and signs); lists of 15..4097 values; file-backed streams; every byte value in words, lines and lists; words and lines of up to 200000 characters
// MC-ORACLE: an independent cursor over the text with hand-written number prefix rules; values compared exactly
// MC-ASSUMES: numbers fit the type read; default delimiters (and comma for lists of numbers)
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/char_stream.hpp"
#include "flut/system/log.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

struct ref_stream
{
	string t, delim; size_t p = 0; bool fail = false;
	ref_stream( const string& s, const string& d = " \t\r\n\f\v" ) : t( s ), delim( d ) { skip(); }
	static bool space( char c ) { return c == ' ' || ( c >= 9 && c <= 13 ); }
	void skip() { while ( p < t.size() && delim.find( t[ p ] ) != string::npos ) ++p; }
	bool eof() const { return p == t.size(); }
	bool digit( size_t i ) const { return i < t.size() && t[ i ] >= '0' && t[ i ] <= '9'; }
	size_t ws( size_t i ) const { while ( i < t.size() && space( t[ i ] ) ) ++i; return i; }
	size_t int_end() const { // end of the number at p, or p
		size_t i = ws( p ); if ( i < t.size() && ( t[ i ] == '-' || t[ i ] == '+' ) ) ++i;
		if ( !digit( i ) ) return p;
		while ( digit( i ) ) ++i;
		return i;
	}
	size_t real_end() const {
		size_t i = ws( p ), n = 0; if ( i < t.size() && ( t[ i ] == '-' || t[ i ] == '+' ) ) ++i;
		while ( digit( i ) ) ++i, ++n;
		if ( i < t.size() && t[ i ] == '.' && ( n > 0 || digit( i + 1 ) ) ) { ++i; while ( digit( i ) ) ++i, ++n; }
		if ( n == 0 ) return p;
		if ( i < t.size() && ( t[ i ] == 'e' || t[ i ] == 'E' ) ) {
			size_t j = i + 1; if ( j < t.size() && ( t[ j ] == '-' || t[ j ] == '+' ) ) ++j;
			if ( digit( j ) ) { while ( digit( j ) ) ++j; i = j; }
		}
		return i;
	}
	void end( size_t e ) { if ( e == p ) fail = true; else { p = e; skip(); } }
	template< typename T > bool integer( T& v ) {
		size_t e = int_end(), i = ws( p ); if ( e == p ) { fail = true; return false; }
		bool neg = t[ i ] == '-'; if ( t[ i ] == '-' || t[ i ] == '+' ) ++i;
		unsigned __int128 m = 0; for ( ; i < e; ++i ) m = m * 10 + ( t[ i ] - '0' );
		v = neg ? T( -(__int128)m ) : T( m );
		end( e ); return true;
	}
	bool real( double& v ) {
		size_t e = real_end(); if ( e == p ) { fail = true; return false; }
		v = std::stod( t.substr( p, e - p ) ); end( e ); return true;
	}
	bool word( string& v ) { size_t e = p; while ( e < t.size() && !space( t[ e ] ) ) ++e; v = t.substr( p, e - p ); end( e ); return !v.empty(); }
	string line() { size_t e = p; while ( e < t.size() && t[ e ] != '\n' && t[ e ] != '\r' ) ++e; string v = t.substr( p, e - p ); end( e ); return v; }
};

template< typename T > void read_int( char_stream& st, ref_stream& ref, const char* name )
{
	T v{ T( 77 ) }, w{}; st >> v;
	MC_STEP( "read " << name << " -> " << mc::show( v ) );
	if ( ref.integer( w ) ) MC_EQ( v, w, "value read as " << name );
}

static void run_ops( const string& text, int max_ops )
{
	MC_STEP( "text " << mc::show( text ) );
	ref_stream ref( text );
	std::vector< char > exact( text.begin(), text.end() ); exact.push_back( 0 );
	char_stream st( exact.data() );
	for ( int i = 0; i < max_ops; ++i ) {
		MC_EQ( st.eof(), ref.eof(), "end of text before operation " << i << " on " << mc::show( text ) );
		MC_EQ( st.fail(), ref.fail, "failure before operation " << i << " on " << mc::show( text ) );
		MC_EQ( st.good(), !ref.eof() && !ref.fail, "good() before operation " << i << " on " << mc::show( text ) );
		if ( ref.fail ) break;
		mc::state( text.substr( ref.p ) + ( ref.fail ? "F" : "" ) );
		int op = mc::choose( 8 );
		switch ( op ) {
		case 0: read_int< int >( st, ref, "int" ); break;
		case 1: { double v = -77, w; st >> v; MC_STEP( "read double -> " << v ); if ( ref.real( w ) ) MC_EQ( v, w, "value read as double from " << mc::show( text ) ); break; }
		case 2: { string v = "?", w; st >> v; MC_STEP( "read word -> " << mc::show( v ) ); if ( ref.word( w ) ) MC_EQ( v, w, "word read from " << mc::show( text ) ); break; }
		case 3: { string v = st.get_line(), w = ref.line(); MC_STEP( "line -> " << mc::show( v ) ); MC_EQ( v, w, "line read from " << mc::show( text ) ); break; }
		case 4: read_int< long long >( st, ref, "long long" ); break;
		case 5: { float v = -77; double w; st >> v; MC_STEP( "read float -> " << v ); if ( ref.real( w ) ) MC_EQ( v, float( w ), "value read as float from " << mc::show( text ) ); break; }
		case 6: read_int< short >( st, ref, "short" ); break;
		case 7: { // peek and get one character
			if ( ref.eof() ) { char e = st.getc(); MC_STEP( "character beyond the end" ); MC_EQ( int( e ), 0, "character read beyond the end of " << mc::show( text ) ); ref.fail = true; MC_CHECK( st.fail() && st.eof() && !st.good(), "reading a character beyond the end of " << mc::show( text ) << " does not report failure" ); for ( int k = 0; k < 3; ++k ) MC_EQ( int( st.getc() ), 0, "character read far beyond the end" ); MC_CHECK( st.fail() && st.eof(), "state beyond the end" ); break; }
			char c = st.peekc(), d = st.getc(); MC_STEP( "character " << int( d ) );
			MC_CHECK( c == text[ ref.p ] && d == text[ ref.p ], "character read from " << mc::show( text ) << ": " << int( c ) << "/" << int( d ) );
			++ref.p; break; } // does not skip delimiters
		}
	}
	MC_EQ( st.eof(), ref.eof(), "end of text at the end of operations on " << mc::show( text ) );
	MC_EQ( st.fail(), ref.fail, "failure at the end of operations on " << mc::show( text ) );
	mc::outcome( text.substr( ref.p ) + ( ref.fail ? "F" : "" ) + ( ref.eof() ? "E" : "" ) );
}

static const std::vector< string > items = { "0", "-7", "12", "1.5", "ab", "+3", "-.25", "1e3", "2.", "-", ".", "1e", "3x", "z9", "30000", "--4", "010", "5,6", "-0.1", "089" };

MC_SCENARIO( items_and_reads ) {
	int n = mc::range( 0, mc::bound( 2, 3 ) ); string t = mc::pick( { "", " ", "\n" } );
	for ( int i = 0; i < n; ++i ) { t += mc::pick( items ); t += mc::pick( { " ", "\n", i + 1 < n ? " \t\r\n" : "" } ); }
	run_ops( t, mc::bound( 3, 4 ) );
}
MC_SCENARIO( texts_and_reads ) { run_ops( gen::str( "1-. \na", 0, 5 ), mc::bound( 3, 4 ) ); }

template< typename T > void boundary( T v )
{
	string s = std::to_string( v );
	int pad = mc::choose( 3 ); if ( pad ) s.insert( s[ 0 ] == '-' ? 1 : 0, pad == 1 ? "0" : "000" );
	string t = mc::pick( { "", " \n" } ) + s + mc::pick( { "", " ", " 9", "x" } );
	MC_STEP( "read " << t );
	char_stream st( t.c_str() ); T w{}; st >> w;
	MC_EQ( w, v, "boundary value read from " << mc::show( t ) );
	MC_CHECK( !st.fail(), "failure reported for " << mc::show( t ) );
	MC_EQ( st.eof(), s.size() && ( t.back() != '9' || t.find( " 9" ) == string::npos ) && t.back() != 'x', "end state after " << mc::show( t ) );
	mc::state( t );
}
template< typename T > void boundaries() {
	T lo = std::numeric_limits< T >::min(), hi = std::numeric_limits< T >::max();
	boundary< T >( mc::pick( { lo, T( lo + 1 ), T( lo / 2 ), T( 0 ), T( 1 ), T( 127 ), T( 255 ), T( hi / 2 ), T( hi / 2 + 1 ), T( hi - 1 ), hi } ) );
}
MC_SCENARIO_SPLIT( integer_boundaries, 2 ) {
	switch ( mc::choose( 8 ) ) {
	case 0: boundaries< int >(); break; case 1: boundaries< unsigned >(); break; case 2: boundaries< long >(); break; case 3: boundaries< unsigned long >(); break;
	case 4: boundaries< long long >(); break; case 5: boundaries< unsigned long long >(); break; case 6: boundaries< short >(); break; case 7: boundaries< unsigned short >(); break;
	}
}

template< typename T > void real_boundary( const char* fmt ) {
	typedef std::numeric_limits< T > L; T v = mc::pick( std::vector< T >{ T( 0.1 ), T( 1 ) / 3, T( -2 ) / 7, L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), 1 + L::epsilon(), T( 16777217 ), T( 9007199254740991.0 ), T( 1e-7 ), T( 123456.789 ), T( 6.02214076e23 ) } );
	char b[ 64 ]; snprintf( b, sizeof b, fmt, double( v ) ); string t = mc::pick( { "", " \n" } ) + string( b ) + mc::pick( { "", " ", " 9" } ); MC_STEP( "read " << t ); char_stream st( t.c_str() ); T w{}; st >> w; MC_EQ( w, v, "value read from " << mc::show( t ) ); MC_CHECK( !st.fail(), "failure reported for " << mc::show( t ) );
	if ( t.size() > 2 && t.substr( t.size() - 2 ) == " 9" ) { T n{}; st >> n; MC_EQ( n, T( 9 ), "next value" ); } MC_CHECK( st.eof(), "end not reported after " << mc::show( t ) ); auto vec = str_to_vec< T >( t, no_index ); MC_CHECK( vec.size() >= 1 && vec[ 0 ] == v, "list read from " << mc::show( t ) ); T x{}; MC_CHECK( scan_str( t, x ) == 1 && x == v, "variable read from " << mc::show( t ) ); mc::state( t + char( sizeof( T ) ) ); mc::outcome( t );
}
MC_SCENARIO( rounding ) { // decimal texts next to the middle of two values: rounded once, to the nearest
	int e = mc::range( -60, 60 ), side = mc::choose( 3 ), odd = mc::choose( 2 ); bool single = mc::flip(), neg = mc::flip(); int bits = single ? 24 : 53; // value (2^(bits-1) + odd) * 2^e and the next one
	long double lo = std::ldexp( (long double)( ( 1ull << ( bits - 1 ) ) + odd ), e ), hi = lo + std::ldexp( 1.0L, e ), mid = lo + std::ldexp( 1.0L, e - 1 ); char b[ 400 ]; snprintf( b, sizeof b, "%.150Lf", mid ); string t = b; // exact decimal expansion of the middle
	if ( side == 1 ) t += "1"; else if ( side == 2 ) { size_t i = t.find_last_not_of( "0." ); t[ i ] -= 1; for ( ++i; i < t.size(); ++i ) if ( t[ i ] == '0' ) t[ i ] = '9'; t += "9"; } if ( neg ) t = "-" + t;
	long double want = side == 0 ? ( odd ? hi : lo ) : side == 1 ? hi : lo; if ( neg ) want = -want; MC_STEP( "read " << t << " as " << ( single ? "float" : "double" ) ); char_stream st( t.c_str() ), st2( t.c_str() ); if ( single ) { float v = 0; st >> v; MC_CHECK( v == float( want ), "read " << t << " as " << mc::show( v ) << ", nearest is " << mc::show( float( want ) ) ); } else { double v = 0; st >> v; MC_CHECK( v == double( want ), "read " << t << " as " << mc::show( v ) << ", nearest is " << mc::show( double( want ) ) ); } MC_CHECK( st.eof() && !st.fail(), "end state" ); mc::state( t + char( '0' + single ) ); mc::outcome( t );
}
MC_SCENARIO( real_boundaries_double ) { real_boundary< double >( mc::pick( { "%.17g", "%.17e", "%.16e" } ) ); }
MC_SCENARIO( real_boundaries_float ) { real_boundary< float >( mc::pick( { "%.9g", "%.9e", "%.12g" } ) ); }

// several variables at once
static void scan_check( const string& t )
{
	MC_STEP( "scan_str " << mc::show( t ) );
	int kind = mc::choose( 3 );
	ref_stream ref( t );
	int n = 0; bool stop = false;
	if ( kind == 0 ) {
		int a[ 3 ] = { -55, -55, -55 }, w[ 3 ] = { -55, -55, -55 };
		int got = scan_str( t, a[ 0 ], a[ 1 ], a[ 2 ] );
		int failed_at = 3;
		for ( int i = 0; i < 3 && !stop; ++i ) {
			if ( i > 0 && ref.eof() ) { failed_at = 3; break; }
			if ( ref.integer( w[ i ] ) ) ++n; else { stop = true; failed_at = i; }
		}
		MC_EQ( got, n, "number of integers read from " << mc::show( t ) );
		for ( int i = 0; i < 3; ++i ) if ( i != failed_at ) MC_EQ( a[ i ], w[ i ], "integer variable " << i << " after reading " << mc::show( t ) );
	}
	else if ( kind == 1 ) {
		string s = "?", ws = "?"; int i = -55, wi = -55; double d = -5.5, wd = -5.5;
		int got = scan_str( t, s, i, d );
		int failed_at = 9;
		if ( ref.word( ws ) ) { ++n; if ( !ref.eof() ) { if ( ref.integer( wi ) ) { ++n; if ( !ref.eof() ) { if ( ref.real( wd ) ) ++n; else failed_at = 2; } } else failed_at = 1; } } else failed_at = 0;
		MC_EQ( got, n, "number of mixed values read from " << mc::show( t ) );
		if ( failed_at != 0 ) MC_EQ( s, ws, "text variable" );
		if ( failed_at != 1 ) MC_EQ( i, wi, "integer variable after " << mc::show( t ) );
		if ( failed_at != 2 ) MC_EQ( d, wd, "real variable after " << mc::show( t ) );
	}
	else {
		double d = -5.5, wd = -5.5;
		int got = scan_str( t, d );
		if ( ref.real( wd ) ) { ++n; MC_EQ( d, wd, "single real variable" ); }
		MC_EQ( got, n, "number of values read from " << mc::show( t ) );
	}
	mc::state( t ); mc::outcome( t.substr( ref.p ) );
}
MC_SCENARIO( scan_texts ) { scan_check( gen::str( "10-. \na", 0, mc::bound( 6, 8 ) ) ); }
MC_SCENARIO( scan_items ) { string t; int n = mc::range( 0, 4 ); for ( int i = 0; i < n; ++i ) { t += mc::pick( items ); t += i + 1 < n ? mc::pick( { " ", "\n " } ) : mc::pick( { "", " " } ); } scan_check( t ); }

// lists
static void list_check( const string& t )
{
	int maxsel = mc::choose( 6 ); size_t max = maxsel == 5 ? no_index : maxsel;
	bool comma = mc::flip();
	string delim = comma ? "," : " \t\r\n\f\v";
	MC_STEP( "str_to_vec " << mc::show( t ) << " max " << max << ( comma ? " comma" : "" ) );
	int kind = mc::choose( comma ? 2 : 3 );
	ref_stream ref( t, delim );
	if ( kind == 0 ) {
		std::vector< int > got = comma ? str_to_vec< int >( t, max, "," ) : str_to_vec< int >( t, max ), want;
		int v; while ( want.size() < max && !ref.eof() && ref.integer( v ) ) want.push_back( v );
		MC_EQ( got, want, "integers of " << mc::show( t ) );
	}
	else if ( kind == 1 ) {
		std::vector< double > got = comma ? str_to_vec< double >( t, max, "," ) : str_to_vec< double >( t, max ), want;
		double v; while ( want.size() < max && !ref.eof() && ref.real( v ) ) want.push_back( v );
		MC_EQ( got, want, "reals of " << mc::show( t ) );
	}
	else {
		std::vector< string > got = str_to_vec< string >( t, max ), want;
		string v; while ( want.size() < max && !ref.eof() && ref.word( v ) ) want.push_back( v );
		MC_EQ( got, want, "words of " << mc::show( t ) );
	}
	mc::state( t );
}
MC_SCENARIO( lists ) { list_check( gen::str( "12-., a", 0, mc::bound( 5, 6 ) ) ); }
MC_SCENARIO( list_items ) { string t; int n = mc::range( 0, mc::bound( 3, 4 ) ); for ( int i = 0; i < n; ++i ) { t += mc::pick( items ); t += i + 1 < n ? mc::pick( { " ", ",", "\n" } ) : mc::pick( { "", " " } ); } list_check( t ); }

MC_SCENARIO( long_lists ) { // lists beyond any buffer
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4097 } ), kind = mc::choose( 3 ), limit = mc::choose( 4 ); string sep = mc::pick( { " ", ",", "\n\t " } ); if ( kind == 2 && sep == "," ) mc::discard(); size_t max = limit == 0 ? no_index : limit == 1 ? size_t( n ) : limit == 2 ? size_t( n / 2 ) : size_t( n + 5 ); string t; for ( int i = 0; i < n; ++i ) t += ( i ? sep : "" ) + std::to_string( i * 37 % 1009 - 500 ) + ( kind == 1 ? ".25" : "" ); MC_STEP( "list of " << n << " values, kind " << kind << ", at most " << max );
	size_t want = std::min< size_t >( n, max ); bool comma = sep == ","; auto val = []( int i ) { return i * 37 % 1009 - 500; };
	if ( kind == 0 ) { auto v = comma ? str_to_vec< int >( t, max, "," ) : str_to_vec< int >( t, max ); MC_EQ( v.size(), want, "number of values" ); for ( size_t i = 0; i < want; ++i ) MC_EQ( v[ i ], val( int( i ) ), "value " << i ); }
	else if ( kind == 1 ) { auto v = comma ? str_to_vec< double >( t, max, "," ) : str_to_vec< double >( t, max ); MC_EQ( v.size(), want, "number of values" ); for ( size_t i = 0; i < want; ++i ) { int x = val( int( i ) ); MC_EQ( v[ i ], x < 0 ? x - 0.25 : x + 0.25, "value " << i ); } }
	else { auto v = str_to_vec< string >( t, max ); MC_EQ( v.size(), want, "number of values" ); for ( size_t i = 0; i < want; ++i ) MC_EQ( v[ i ], std::to_string( val( int( i ) ) ), "value " << i ); }
	if ( !comma ) { char_stream st( t.c_str() ); int k = 0; while ( st.good() && k <= n ) { if ( kind == 1 ) { double x; st >> x; } else { int x = 0; st >> x; MC_EQ( x, val( k ), "value " << k ); } ++k; } MC_EQ( k, n, "values read one by one" ); MC_CHECK( st.eof() && !st.fail(), "end" ); } mc::state( uint64_t( n * 100 + kind * 10 + limit ) ); mc::outcome( uint64_t( n ) );
}
// a stream backed by a file
MC_SCENARIO( from_file ) {
	string t = gen::str( "1 \na", 0, 4 ) + mc::pick( { string(), string( 5000, 'x' ) + " 8\n" } );
	string fn = "stream_" + std::to_string( getpid() ) + ".txt";
	{ FILE* f = fopen( fn.c_str(), "wb" ); if ( !f || fwrite( t.data(), 1, t.size(), f ) != t.size() || fclose( f ) ) mc::internal_error( "scratch file" ); }
	MC_STEP( "file with " << mc::show( t ) );
	ref_stream ref( t );
	{
		char_stream st = load_char_stream( path( fn ) );
		char_stream st2( ( path( fn ) ) );
		for ( int i = 0; i < 8 && !ref.eof(); ++i ) {
			string w; ref.word( w ); string v, v2; st >> v; st2 >> v2;
			MC_EQ( v, w, "word of the file" ); MC_EQ( v2, w, "word of the file" );
		}
		MC_CHECK( st.eof() && !st.fail() && st2.eof() && !st2.fail(), "stream not at the end of the file" );
	}
	unlink( fn.c_str() );
	mc::state( t );
}
MC_SCENARIO_SPLIT( every_byte, 2 ) { // words and lines hold any byte that does not end them
	int a = mc::range( 1, 255 ), b = mc::pick( { 120, 1, 127, 128, 160, 255 } ), form = mc::choose( 3 ); bool blank = a == ' ' || ( a >= 9 && a <= 13 ); if ( blank ) mc::discard(); string w = string( form == 1 ? "u" : "" ) + char( a ) + ( form == 2 ? string( "u" ) : string() ) + char( b ); MC_STEP( "word " << mc::show( w ) );
	{ string t = w + " 7"; char_stream s( t.c_str() ); string v; int i = 0; s >> v; MC_EQ( v, w, "word" ); s >> i; MC_EQ( i, 7, "number after the word" ); MC_CHECK( s.eof() && !s.fail(), "end" ); }
	{ string l = "p " + w + " q", t = l + "\nnext"; char_stream s( t.c_str() ); MC_EQ( s.get_line(), l, "line" ); MC_EQ( s.get_line(), string( "next" ), "next line" ); MC_CHECK( s.eof() && !s.fail(), "end" ); }
	{ string t = w + " b " + w; auto v = str_to_vec< string >( t, no_index ); MC_CHECK( ( v == std::vector< string >{ w, "b", w } ), "list of " << mc::show( t ) ); } mc::state( w );
}
MC_SCENARIO( long_words ) { // words and lines beyond any buffer
	int n = mc::pick( { 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 200000 } ); bool line = mc::flip(), owned = mc::flip(); MC_STEP( n << " characters" ); string w( n, 'w' ); for ( int i = 0; i < n; i += 7 ) w[ i ] = char( 'a' + i % 26 ); if ( line ) w[ n / 2 ] = ' '; string t = w + "\n12 last";
	char_stream s = owned ? char_stream( string( t ) ) : char_stream( t.c_str() ); string v; int i = 0; if ( line ) v = s.get_line(); else s >> v; MC_CHECK( v == w, "text of " << v.size() << " instead of " << n << " characters" ); s >> i >> v; MC_EQ( i, 12, "number after it" ); MC_EQ( v, string( "last" ), "word after it" ); MC_CHECK( s.eof() && !s.fail(), "end" ); mc::state( uint64_t( n * 4 + line * 2 + owned ) );
}
}
