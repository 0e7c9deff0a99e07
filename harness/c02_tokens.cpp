// C02 token reading
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all texts of length <= 6 (thorough 7) over a 12-character alphabet (plain, 3 delimiters, 3 operators, 2 quotes, backslash, n, digit) x 3 delimiter sets x 3 operator sets x 3 quotation sets; all sequences of <= 6 (8) lexical pieces; mixed operator sets per call; long tokens of 14..8193 characters; all texts of length <= 6 (7) over 7 characters with 2 sets of characters to trim, and 1000 long ones; owned texts copied, moved and assigned after 0..2 tokens; every byte value in 6 contexts; streams copied up to 100000 characters into a text
// MC-ORACLE: an independent lexer written from the lexical rules, compared token by token including the end-of-text state after each token
// MC-ASSUMES: texts contain no NUL; what an undefined escape sequence decodes to is not compared (termination and memory safety are)
#include "gen.hpp"
#include "flut/char_stream.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

struct ref_lexer
{
	string t; size_t p = 0; string delim; bool undefined_escape = false;
	ref_lexer( const string& s, const string& d ) : t( s ), delim( d ) { skip(); }
	static bool in( const string& set, char c ) { return set.find( c ) != string::npos; }
	void skip() { while ( p < t.size() && in( delim, t[ p ] ) ) ++p; }
	bool eof() const { return p == t.size(); }
	void escape( string& out ) {
		++p; // backslash
		if ( p == t.size() ) { undefined_escape = true; return; }
		char c = t[ p ];
		switch ( c ) {
		case '\\': case '"': out += c; ++p; return;
		case 'n': out += '\n'; ++p; return;
		case 'r': out += '\r'; ++p; return;
		case 't': out += '\t'; ++p; return;
		}
		int v = 0, n = 0;
		while ( n < 3 && p < t.size() && t[ p ] >= '0' && t[ p ] <= '7' ) { v = v * 8 + ( t[ p++ ] - '0' ); ++n; }
		if ( n == 0 || v >= 32 ) { undefined_escape = true; return; }
		out += char( v );
	}
	string token( const string& ops, const string& quotes, const string& trim = "" ) {
		string s; bool started = false; size_t keep = 0;
		while ( p < t.size() ) {
			char c = t[ p ];
			if ( in( delim, c ) ) break;
			if ( in( quotes, c ) ) {
				started = true; ++p;
				while ( p < t.size() && t[ p ] != c ) {
					if ( t[ p ] == '\\' ) escape( s ); else s += t[ p++ ];
				}
				if ( p < t.size() ) ++p;
				keep = s.size();
			}
			else if ( in( ops, c ) ) {
				if ( !started ) { s += c; ++p; }
				break;
			}
			else { s += c; started = true; ++p; }
		}
		while ( s.size() > keep && in( trim, s.back() ) ) s.pop_back(); // what stands between quotes stays
		skip();
		return s;
	}
};

static void compare( const string& text, const string& delim, const std::vector< string >& ops, const string& quotes, bool default_args = false, const string& trim = "" )
{
	MC_STEP( "text " << mc::show( text ) << " delimiters " << mc::show( delim ) << " operators " << mc::show( ops[ 0 ] ) << " quotes " << mc::show( quotes ) );
	ref_lexer ref( text, delim );
	std::vector< char > exact( text.begin(), text.end() ); exact.push_back( 0 ); // exactly sized: any stray read is caught
	char_stream st( exact.data(), delim.c_str() );
	string trace;
	for ( size_t i = 0; ; ++i ) {
		if ( !ref.undefined_escape ) MC_EQ( st.eof(), ref.eof(), "end of text before token " << i << " of " << mc::show( text ) );
		MC_CHECK( !st.fail(), "token reading reports failure on " << mc::show( text ) );
		if ( st.eof() ) break;
		MC_CHECK( i <= text.size(), "token reading does not reach the end of " << mc::show( text ) );
		const string& op = ops[ i % ops.size() ];
		string got = default_args ? st.get_token() : trim.empty() ? st.get_token( op.c_str(), quotes.c_str() ) : st.get_token( op.c_str(), quotes.c_str(), trim.c_str() );
		MC_STEP( "token " << mc::show( got ) );
		if ( !ref.undefined_escape ) {
			string want = ref.token( op, quotes, trim );
			if ( !ref.undefined_escape ) MC_EQ( got, want, "token " << i << " of " << mc::show( text ) << " with delimiters " << mc::show( delim ) << ", operators " << mc::show( op ) << ", quotes " << mc::show( quotes ) );
		}
		trace += got; trace += '\0';
		mc::state( text.substr( ref.p ) + '\1' + op + quotes + delim );
	}
	string rest = st.get_token( ops[ 0 ].c_str(), quotes.c_str() );
	MC_CHECK( rest.empty() && st.eof(), "reading past the end yields " << mc::show( rest ) );
	mc::outcome( trace );
}

static const std::vector< string > delims = { default_delimiters(), "\n\r;", " " };
static const std::vector< string > opsets = { "", "={}", "=" };
static const std::vector< string > quotesets = { "\"", "\"'", "" };

MC_SCENARIO_SPLIT( all_texts, 5 ) {
	const string& d = mc::pick( delims ); const string& o = mc::pick( opsets ); const string& q = mc::pick( quotesets );
	compare( gen::str( "a \n;={}\"'\\n1", 0, mc::bound( 4, 5 ) ), d, { o }, q );
}
MC_SCENARIO_SPLIT( all_texts_grammar, 4 ) { // the configuration the property file reader uses, and the defaults, deeper
	int m = mc::choose( 2 );
	string t = gen::str( m ? "a \n;={\"'\\n" : "a \t\"\\n0", 5, m ? mc::bound( 6, 7 ) : mc::bound( 7, 8 ) );
	if ( m ) compare( t, "\n\r;", { "={}" }, "\"'" ); else compare( t, default_delimiters(), { "" }, "\"", true );
}
MC_SCENARIO_SPLIT( pieces, 4 ) {
	int k = mc::choose( 2 );
	compare( gen::pieces( { "ab", " ", "\"\"", "\"x y\"", "=", "\n", "\"\\n\\\"\"", "'", "\"\\\\\"", "\"\\0011\"", "'\"'", "\\" }, 0, mc::bound( 6, 7 ) ), k ? "\n\r;" : default_delimiters(), { k ? "={}" : "=" }, k ? "\"'" : "\"" );
}
MC_SCENARIO( trimmed ) { // trailing characters of a set are left out unless they stand between quotes
	int k = mc::choose( 2 ); compare( gen::str( "a \t\"'=\n", 0, mc::bound( 6, 7 ) ), k ? "\n\r;" : "\n", { k ? "={}" : "" }, k ? "\"'" : "\"", false, mc::pick( { " ", " \t" } ) );
}
MC_SCENARIO( trimmed_long ) {
	int n = mc::pick( { 1, 15, 16, 17, 63, 64, 65, 127, 255, 256, 257, 299, 300, 301, 511, 513, 1000, 1025, 2047, 2049, 4097 } ), m = mc::pick( { 0, 1, 17, 300, 1025 } ); string x( n, 'x' ), b( m, ' ' ); int k = mc::choose( 10 ); string t = k == 0 ? x + b : k == 1 ? x + "\"" + b + "\"" : k == 2 ? "\"" + x + b + "\"" : k == 3 ? "\"" + x + b + "\"" + b : k == 4 ? x + "\"" + b + "\" " + "y" + b : k == 5 ? "\"" + b + "\"" + x + b : k == 6 ? x + b + "\" \"" : k == 7 ? "= " + x + "\" '\"" + b : k == 8 ? x + b + "\ny \n" + x + "\" \"" + b : x + "= " + x + " = \"" + x + b + "\"" + b + "\n" + x + " ";
	compare( t, "\n\r;", { "={}" }, "\"'", false, " \t" );
}
MC_SCENARIO( operators_change ) { // a caller may use another operator set for each token
	string t = gen::str( "a =%\"\n", 0, mc::bound( 7, 8 ) );
	compare( t, mc::flip() ? default_delimiters() : "\n", { "=", "%", "" }, "\"" );
}
MC_SCENARIO( long_tokens ) {
	compare( gen::long_str( "a\"= \\", { "", "=", " ", "\"", "\"\"", "\" \"", "\\n", "b" }, { 1, 14, 15, 16, 17, 31, 32, 63, 64, 255, 256, 257, 1023, 1024, 1025, 2047, 2049, 4097, 8193 } ), mc::pick( delims ), { mc::pick( opsets ) }, mc::pick( quotesets ) );
}
MC_SCENARIO( rvalue_text ) { // a stream that owns its text, moved around
	string t = gen::str( "a =\"", 0, 5 ) + mc::pick( { string(), string( 40, 'b' ) } );
	ref_lexer ref( t, " " );
	char_stream st( string( t ), " " );
	for ( size_t i = 0; !ref.eof(); ++i ) MC_EQ( st.get_token( "=" ), ref.token( "=", "\"" ), "token " << i << " of the owned text " << mc::show( t ) );
	MC_CHECK( st.eof(), "not at the end of " << mc::show( t ) );
	// a stream can be copied, moved and assigned at any point; each goes on by itself
	size_t n = mc::choose( 3 ); int how = mc::choose( 5 ); ref_lexer r2( t, " " ); std::unique_ptr< char_stream > a( new char_stream( string( t ), " " ) ); for ( size_t i = 0; i < n && !r2.eof(); ++i ) { a->get_token( "=" ); r2.token( "=", "\"" ); } MC_STEP( "stream of " << mc::show( t ) << " handed on after " << n << " tokens, way " << how );
	char_stream b( "other text" ); if ( how == 1 ) b.get_token(); std::unique_ptr< char_stream > c; if ( how == 0 ) c.reset( new char_stream( *a ) ); else if ( how == 1 || how == 2 ) b = *a; else if ( how == 3 ) c.reset( new char_stream( std::move( *a ) ) ); else b = std::move( *a );
	if ( how < 3 ) { ref_lexer r3( r2 ); while ( !a->eof() ) { MC_CHECK( !r3.eof(), "original does not end" ); MC_EQ( a->get_token( "=" ), r3.token( "=", "\"" ), "token of the original" ); } } a.reset(); std::vector< string > junk; for ( int i = 0; i < 8; ++i ) junk.push_back( string( t.size(), '#' ) ); // the original is gone
	char_stream& d = c ? *c : b; MC_EQ( d.eof(), r2.eof(), "end of text of the copy" ); while ( !r2.eof() ) { MC_CHECK( d.good(), "copy ends early" ); MC_EQ( d.get_token( "=" ), r2.token( "=", "\"" ), "token of the copy of " << mc::show( t ) ); } MC_CHECK( d.eof() && !d.fail(), "copy is not at the end of " << mc::show( t ) );
	mc::state( t );
}
MC_SCENARIO_SPLIT( every_byte, 2 ) { // each byte alone and between others
	int a = mc::range( 1, 255 ), form = mc::choose( 6 ); string c( 1, char( a ) ); const string forms[] = { c, "a" + c, c + "a", "x" + c + "y =z", "\"" + c + "\" b", "a\"" + c + "" + c + "\"" + c }; compare( forms[ form ], mc::pick( delims ), { mc::pick( opsets ) }, mc::pick( quotesets ) );
}
MC_SCENARIO( handed_on_far ) { // copies made far into a long text
	int n = mc::pick( { 100, 255, 256, 257, 4096, 32766, 32767, 32768, 65535, 65536, 65537, 100000 } ), how = mc::choose( 4 ); MC_STEP( "stream handed on at position " << n << " in way " << how ); string t = string( n, 'w' ) + " k=\"q r\" tail"; std::unique_ptr< char_stream > a( how & 1 ? new char_stream( string( t ), " " ) : new char_stream( t.c_str(), " " ) );
	MC_EQ( a->get_token( "=" ).size(), size_t( n ), "long token" ); MC_EQ( a->get_token( "=" ), string( "k" ), "second token" ); char_stream b( "other", " " ); std::unique_ptr< char_stream > c; if ( how & 2 ) b = *a; else c.reset( new char_stream( *a ) ); a.reset(); char_stream& d = c ? *c : b;
	MC_EQ( d.get_token( "=" ), string( "=" ), "operator" ); MC_EQ( d.get_token( "=" ), string( "q r" ), "quoted" ); MC_EQ( d.get_token( "=" ), string( "tail" ), "last token" ); MC_CHECK( d.eof() && !d.fail(), "end" ); mc::state( uint64_t( n * 4 + how ) );
}
}
