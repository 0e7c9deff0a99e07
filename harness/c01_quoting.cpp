// C01 quoting round trip
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all byte strings (0..255) of length <= 2 (3 over a 24-byte alphabet, thorough 3 over 256 bytes); all strings of length <= 6 (thorough 7) over 13 structural bytes; long strings of 15..8193 bytes with a special piece at 4 positions; all texts of length <= 7 (9) over quote, backslash, digits and letters for unquoting of malformed text
// MC-ORACLE: identity on the original bytes; the quoted form is printable, on one line and delimited by unescaped quotes only at both ends
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/char_stream.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static void check_quoted_form( const string& s, const string& q )
{
	MC_CHECK( q.size() >= 2 && q.front() == '"' && q.back() == '"', "quoted form of " << mc::show( s ) << " lacks quotes: " << mc::show( q ) );
	bool esc = false;
	for ( size_t i = 1; i + 1 < q.size(); ++i ) {
		unsigned char c = q[ i ];
		MC_CHECK( c >= 32, "quoted form of " << mc::show( s ) << " contains a control character: " << mc::show( q ) );
		if ( esc ) esc = false;
		else if ( c == '\\' ) esc = true;
		else MC_CHECK( c != '"', "quoted form of " << mc::show( s ) << " contains a bare quote: " << mc::show( q ) );
	}
	MC_CHECK( !esc, "quoted form of " << mc::show( s ) << " ends in an escape that swallows its closing quote: " << mc::show( q ) );
}

static void round_trip( const string& s )
{
	MC_STEP( "string " << mc::show( s ) );
	string q = quoted( s );
	MC_STEP( "quoted -> " << mc::show( q ) );
	check_quoted_form( s, q );
	MC_EQ( try_unquoted( q ), s, "try_unquoted( quoted( " << mc::show( s ) << " ) )" );
	string tq = try_quoted( s );
	MC_STEP( "try_quoted -> " << mc::show( tq ) );
	bool need = needs_quotes( s );
	MC_EQ( tq, need ? q : s, "try_quoted( " << mc::show( s ) << " )" );
	MC_EQ( try_unquoted( tq ), s, "try_unquoted( try_quoted( " << mc::show( s ) << " ) )" );
	// anything that a reader would split, unescape or unquote has to be quoted
	for ( unsigned char c : s ) if ( c <= 32 || c == '"' || c == '\\' ) MC_CHECK( need, "needs_quotes( " << mc::show( s ) << " ) is false" );
	// character by character
	for ( char c : s ) {
		string e = encode_char( c ); int len = -1;
		char d = decode_char( e.data(), e.size(), &len );
		MC_EQ( int( d ), int( c ), "decode_char( encode_char( " << int( c ) << " ) )" );
		if ( e.size() > 1 ) MC_EQ( size_t( len ), e.size(), "length consumed by decode_char for " << mc::show( e ) );
	}
	// through a stream of tokens
	{
		string text = q + " next";
		char_stream st( text.c_str() );
		string t1 = st.get_token(), t2 = st.get_token();
		MC_STEP( "tokens " << mc::show( t1 ) << ", " << mc::show( t2 ) );
		MC_EQ( t1, s, "token read from " << mc::show( text ) );
		MC_EQ( t2, string( "next" ), "second token of " << mc::show( text ) );
		string text2 = "k " + q;
		char_stream st2( text2.c_str() ); // quoted text at the very end of the input
		MC_EQ( st2.get_token(), string( "k" ), "first token" );
		MC_EQ( st2.get_token(), s, "last token" );
		MC_CHECK( st2.eof(), "stream not at its end after the last token" );
	}
	mc::state( s ); mc::outcome( q );
}

MC_SCENARIO_SPLIT( all_bytes, 2 ) { round_trip( gen::str( gen::all_bytes( 0 ), 0, mc::bound( 2, 3 ) ) ); }
MC_SCENARIO_SPLIT( three_bytes, 3 ) { round_trip( gen::str( string( "\"\\ \t\n\r\x01\x07\x0b\x1f\x7f\x80\xff\xe9" "0137nrta ;=", 26 ), 3, 3 ) ); }
MC_SCENARIO( structural ) { round_trip( gen::str( string( "\"\\ \n\t\r\x01\x80nr0a7", 13 ), 0, mc::bound( 6, 7 ) ) ); }
MC_SCENARIO( long_text ) {
	round_trip( gen::long_str( "a \"\\\n\x02\xc3", { "", "x", "\"", "\\", "\\\"", "\n", "\x1f" "7", "\\n", "\xff" },
		{ 1, 14, 15, 16, 17, 30, 31, 32, 63, 64, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 1030, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 8193 } ) );
}
// text that is not the result of quoting: left alone when not between quotes, and always handled without stray reads or endless loops
MC_SCENARIO( arbitrary_text ) {
	string s = gen::str( "\"\\0n7a", 0, mc::bound( 7, 9 ) );
	MC_STEP( "try_unquoted " << mc::show( s ) );
	string r = try_unquoted( s );
	if ( s.size() < 2 || s.front() != '"' || s.back() != '"' ) MC_EQ( r, s, "try_unquoted of unquoted text " << mc::show( s ) );
	MC_STEP( "tokens of " << mc::show( s ) );
	char_stream st( s.c_str() );
	for ( int i = 0; i < 20 && st.good(); ++i ) st.get_token();
	MC_CHECK( !st.good(), "token reading does not reach the end of " << mc::show( s ) );
	mc::state( s ); mc::outcome( r );
}
}
