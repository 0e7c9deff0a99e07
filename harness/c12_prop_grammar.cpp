// C12 property text grammar
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: all documents of <= 2 items (thorough 3) with nesting <= 2 over every label, value, assignment, block and separator layout; all texts of length <= 6 (7) over 10 structural characters and of <= 5 (6) lexical pieces, every blank character between pieces, every ASCII byte in 11 positions, long documents (many entries, deep nesting, long words, blanks and comments) of up to 1025 parts, classified by the reference as derivable, malformed or unspecified
// MC-ORACLE: the tree the generator derived; for arbitrary texts an independent recursive-descent reader of the grammar, and agreement between the error-code and exception forms
// MC-ASSUMES: a value stands on the line of its '='; labels without value or block, missing values and unterminated quotes are unspecified (only termination, memory safety and agreement of both error forms are checked)
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static bool parse_throws( const string& s, prop_node& p ) { try { p = parse_prop( s.c_str() ); return false; } catch ( const std::exception& ) { return true; } }

/// both forms of the call; returns whether the text was rejected
static bool parse_both( const string& s, prop_node& p )
{
	bool thrown = parse_throws( s, p );
	error_code ec; prop_node q;
	try { q = parse_prop( s.c_str(), &ec ); }
	catch ( const std::exception& e ) { MC_CHECK( false, "parsing " << mc::show( s ) << " with an error code throws: " << e.what() ); }
	MC_EQ( ec.error(), thrown, "error code versus exception for " << mc::show( s ) );
	if ( !thrown ) MC_CHECK( p == q, "parsing " << mc::show( s ) << " twice gives different trees" );
	return thrown;
}

// ---- documents derived from the grammar -------------------------------------------------------
static const std::vector< string > seps = { "\n", ";", " \n", "\n\n", "\n  \n\t", " % c = {\n", "\r\n", ";\n", "%\n", "\n%x\n% y }\n  " };
static const std::vector< string > eqs = { " = ", "=", "  =  ", "= " };
struct V { string text, value; };
static const std::vector< V > vals = { { "1", "1" }, { "two words", "two words" }, { "\"q u\"", "q u" }, { "'s=q'", "s=q" }, { "\"\"", "" }, { "\" pad \"", " pad " }, { "\"%{;}\"", "%{;}" }, { "x\"y z\"w", "xy zw" }, { "\"a\\nb\\\"\"", "a\nb\"" }, { "\"%\"", "%" }, { "-3.5", "-3.5" } };
static const std::vector< V > labels = { { "a", "a" }, { "long label", "long label" }, { "\"q=l\"", "q=l" }, { "b1", "b1" } };
static const std::vector< string > opens = { " {", "{", "\n{", " % c\n{ ", " \n\n {\n", ";{;", "{%\n" };

static string items( T& t, int n, int depth, bool rich )
{
	string s;
	auto few = [&]( size_t all, int small ) { return mc::choose( rich ? int( all ) : small ); };
	for ( int i = 0; i < n; ++i ) {
		const V& l = labels[ few( labels.size(), 2 ) ];
		T& x = t.add( l.value ); s += l.text;
		int kind = mc::choose( depth > 0 ? 3 : 1 );
		if ( kind != 1 ) { s += eqs[ kind == 2 ? 0 : few( eqs.size(), 1 ) ]; const V& v = vals[ few( vals.size(), mc::bound( 2, 4 ) ) ]; s += v.text; x.v = v.value; }
		if ( kind != 0 ) {
			s += opens[ few( opens.size(), mc::bound( 2, 3 ) ) ];
			int m = mc::choose( 2 );
			if ( rich ) s += mc::pick( { "", " ", "\n" } );
			s += items( x, m, depth - 1, false ); s += "}";
		}
		if ( i + 1 < n || kind != 0 || mc::flip() ) s += seps[ few( seps.size(), 3 ) ];
	}
	return s;
}
static void derived( const string& s, const T& t )
{
	MC_STEP( "parse " << mc::show( s ) );
	prop_node p; bool rejected = parse_both( s, p );
	MC_CHECK( !rejected, "the well-formed text " << mc::show( s ) << " is rejected" );
	TREE_EQ( p, t, "tree of " << mc::show( s ) );
	prop_node c( s.c_str() ); TREE_EQ( c, t, "tree constructed from " << mc::show( s ) );
	mc::state( s ); mc::outcome( show_tree( t ) );
}
MC_SCENARIO_SPLIT( one_item, 4 ) { T t; string pre = mc::pick( { "", "% first { line\n  \n " } ); string s = pre + items( t, 1, 1, true ); derived( s, t ); }
MC_SCENARIO_SPLIT( two_plain_items, 5 ) { T t; string s = items( t, 2, 0, true ); derived( s, t ); }
MC_SCENARIO_SPLIT( more_items, 5 ) { T t; string s = items( t, 2, 1, false ); derived( s, t ); }
MC_SCENARIO_SPLIT( nested_items, 5 ) { T t; string s = items( t, 1, 3, false ); derived( s, t ); }
MC_SCENARIO_SPLIT( layouts, 3 ) { // the same content in every layout of separators between five parts
	T t; t.add( "a", "1" ); T& b = t.add( "b", "x y" ); b.add( "c", "2" ); b.add( "d" ); t.add( "e", "5" );
	string s; auto sep = [&] { s += seps[ mc::choose( mc::bound( 6, 10 ) ) ]; };
	s += "a=1"; sep(); s += "b = \"x y\""; sep(); s += "{"; sep(); s += "c = 2"; sep(); s += "d=\"\""; sep(); s += "}"; s += "e=5"; sep();
	derived( s, t );
}

// ---- arbitrary texts --------------------------------------------------------------------------
struct reader
{
	enum verdict { fine, malformed, unspecified };
	const string& s; size_t p = 0; verdict v = fine;
	reader( const string& t ) : s( t ) {}
	bool end() const { return p >= s.size(); }
	static bool sep( char c ) { return c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == ';'; }
	static bool op( char c ) { return c == '=' || c == '{' || c == '}' || c == '%'; }
	bool stop( verdict w ) { if ( v == fine ) v = w; return false; }
	/// returns whether a separator was crossed
	bool skip() { bool r = false; while ( !end() ) { if ( s[ p ] == ' ' || s[ p ] == '\f' ) ++p; else if ( sep( s[ p ] ) ) { ++p; r = true; } else if ( s[ p ] == '%' ) { r = true; while ( !end() && s[ p ] != '\n' && s[ p ] != '\r' ) ++p; } else break; } return r; }
	bool word( string& w, bool& quoted ) { // trimmed outside quotes
		w.clear(); quoted = false; size_t keep = 0;
		while ( !end() && !sep( s[ p ] ) && !op( s[ p ] ) ) {
			char c = s[ p++ ];
			if ( c == '"' || c == '\'' ) {
				quoted = true;
				while ( true ) {
					if ( end() ) return stop( unspecified );
					if ( s[ p ] == c ) { ++p; break; }
					if ( s[ p ] == '\\' ) {
						if ( p + 1 >= s.size() ) return stop( unspecified );
						char e = s[ p + 1 ]; p += 2;
						if ( e == 'n' ) w += '\n'; else if ( e == '"' || e == '\\' ) w += e; else return stop( unspecified );
					}
					else w += s[ p++ ];
				}
				keep = w.size();
			}
			else w += c;
		}
		while ( w.size() > keep && ( w.back() == ' ' || w.back() == '\f' ) ) w.pop_back();
		return true;
	}
	bool block( T& t, bool root ) {
		while ( true ) {
			skip();
			if ( end() ) return root ? true : stop( unspecified );
			char c = s[ p ];
			if ( c == '}' ) { if ( root ) return stop( malformed ); ++p; return true; }
			if ( c == '=' || c == '{' ) return stop( malformed );
			string l; bool q; if ( !word( l, q ) ) return false;
			if ( l.empty() || !isalpha( (unsigned char)l[ 0 ] ) ) return stop( q && ( l == "=" || l == "{" || l == "}" || l == "%" || l.empty() ) ? unspecified : malformed );
			T& x = t.add( l );
			bool crossed = skip();
			if ( end() ) return stop( unspecified );
			c = s[ p ];
			if ( c == '=' ) {
				if ( crossed ) return stop( unspecified );
				++p; while ( !end() && ( s[ p ] == ' ' || s[ p ] == '\f' ) ) ++p;
				if ( end() || sep( s[ p ] ) || op( s[ p ] ) ) return stop( unspecified );
				if ( !word( x.v, q ) ) return false;
				skip();
				if ( end() || s[ p ] != '{' ) continue;
				c = '{';
			}
			if ( c != '{' ) return stop( unspecified );
			++p;
			if ( !block( x, false ) ) return false;
		}
	}
};
static void arbitrary( const string& s )
{
	MC_STEP( "parse " << mc::show( s ) );
	T t; reader r( s ); r.block( t, true );
	prop_node p; bool rejected = parse_both( s, p );
	if ( r.v == reader::fine ) { MC_CHECK( !rejected, "the well-formed text " << mc::show( s ) << " is rejected" ); TREE_EQ( p, t, "tree of " << mc::show( s ) ); }
	else if ( r.v == reader::malformed ) MC_CHECK( rejected, "the malformed text " << mc::show( s ) << " is accepted as " << show_tree( read( p ) ) );
	mc::state( s ); mc::outcome( std::to_string( r.v ) + show_tree( t ) );
}
MC_SCENARIO_SPLIT( all_texts, 4 ) { arbitrary( gen::str( "a={}%\n; \"1", 0, mc::bound( 6, 7 ) ) ); }
MC_SCENARIO_SPLIT( all_pieces, 4 ) { arbitrary( gen::pieces( { "a", "=1", " = b c", "{", "}", "\n", ";", "% x\n", "\"q}\"", "=", "' '", "  ", "1" }, 0, mc::bound( 5, 6 ) ) ); }
MC_SCENARIO_SPLIT( all_blanks, 4 ) { arbitrary( gen::pieces( { "a", "=", "b", "{", "}", " ", "\f", "\v", "\t", "\r", "\n" }, 0, mc::bound( 5, 6 ) ) ); }
MC_SCENARIO_SPLIT( label_bytes, 2 ) { // any byte in front of, inside and behind a label or value
	char c = char( mc::range( 1, 127 ) ); string b( 1, c ); arbitrary( mc::pick( { b, b + "=1", b + "x=1", "x" + b + "=1", "x=" + b, "x=" + b + "1", "x=1" + b, "x=1" + b + "\ny=2", "x {" + b + "=1 }", "x=1\n" + b + "y=2", "x=1 " + b + "{ y=2 }" } ) );
}
MC_SCENARIO_SPLIT( long_documents, 2 ) {
	int n = mc::pick( { 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025 } ); string sep = mc::pick( { "\n", ";", " % c\n", "\n\n\n" } ), s; T t;
	switch ( mc::choose( 6 ) ) {
	case 0: for ( int i = 0; i < n; ++i ) { s += "k" + std::to_string( i ) + "=" + std::to_string( i ) + sep; t.add( "k" + std::to_string( i ), std::to_string( i ) ); } break; // many entries
	case 1: { n = std::min( n, 300 ); T* x = &t; for ( int i = 0; i < n; ++i ) { s += "n {" + sep; x = &x->add( "n" ); } s += "v=1" + sep; x->add( "v", "1" ); s += string( n, '}' ); break; } // deep nesting
	case 2: s = "k = " + string( n, 'v' ) + sep + "l=2"; t.add( "k", string( n, 'v' ) ); t.add( "l", "2" ); break; // long value
	case 3: s = string( n, 'k' ) + "=1" + sep + "l=2"; t.add( string( n, 'k' ), "1" ); t.add( "l", "2" ); break; // long label
	case 4: for ( int i = 0; i < n; ++i ) s += "% comment { = " + std::to_string( i ) + "\n"; s += "k=1" + sep; t.add( "k", "1" ); break; // many comments
	case 5: s = "% " + string( n, '=' ) + "\nk" + string( n, ' ' ) + "=" + string( n, ' ' ) + "1" + string( n, ' ' ) + string( n, '\n' ) + "{" + string( n, '\n' ) + "l=2" + sep + "}"; t.add( "k", "1" ).add( "l", "2" ); break; // long blanks
	}
	derived( s, t );
}
}
