// C13 saving and loading XML
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: every value of length <= 4 (thorough 5) over 13 markup and blank characters in 3 positions; every byte 1..255; all single-rooted trees of <= 4 (5) nodes over 3 names and 5 values; long values; all documents with <= 3 attributes and <= 2 nested elements in 4 layouts; every truncation of 6 documents; mismatched closing tags; documents of up to 2049 elements, 300 levels, 1000 attributes and names of up to 2049 characters
// MC-ORACLE: the tree that was saved; for documents with attributes the tree written next to them
// MC-ASSUMES: values on leaves, not made of blanks only, no NUL; element names are XML names
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static string fname() { return "x" + std::to_string( getpid() ) + ".xml"; }
static void spit( const string& s ) { FILE* f = fopen( fname().c_str(), "wb" ); if ( !f || fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f ) ) mc::internal_error( "scratch file" ); }
static string slurp() { string s; FILE* f = fopen( fname().c_str(), "rb" ); if ( !f ) return "<no file>"; char b[ 4096 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); fclose( f ); return s; }
static bool blank( const string& v ) { if ( v.empty() ) return false; for ( char c : v ) if ( c != ' ' && c != '\t' && c != '\n' && c != '\r' ) return false; return true; }

static void round_trip( const T& t )
{
	prop_node p = build( t );
	MC_STEP( "save " << show_tree( t ) );
	save_xml( p, path( fname() ) );
	TREE_EQ( p, t, "tree changed by saving" );
	string text = slurp();
	MC_STEP( "file " << mc::show( text ) );
	prop_node q, r, l;
	try { q = load_xml( path( fname() ) ); l = load_file( path( fname() ) ); }
	catch ( std::exception& e ) { MC_CHECK( false, "loading " << mc::show( text ) << " fails: " << e.what() ); }
	TREE_EQ( q, t, "tree loaded from " << mc::show( text ) );
	TREE_EQ( l, t, "tree loaded by file type from " << mc::show( text ) );
	error_code ec; r = load_xml( path( fname() ), &ec );
	MC_CHECK( ec.ok(), "loading " << mc::show( text ) << " reports " << ec.message() );
	TREE_EQ( r, t, "tree loaded with an error code" );
	mc::state( show_tree( t ) ); mc::outcome( text );
}
static T with_value( const string& v )
{
	T t;
	if ( blank( v ) ) mc::discard();
	switch ( mc::choose( 3 ) ) {
	case 0: t.add( "r", v ); break;
	case 1: { T& x = t.add( "r" ); x.add( "a", v ); x.add( "b", "1" ); break; }
	case 2: { T& x = t.add( "r" ); x.add( "a" ).add( "b", v ); x.add( "a", v ); break; }
	}
	return t;
}
MC_SCENARIO_SPLIT( values, 3 ) { string v = gen::str( "<>&\"'; \n/a]#!", 0, mc::bound( 4, 5 ) ); if ( blank( v ) ) mc::discard(); round_trip( with_value( v ) ); }
MC_SCENARIO_SPLIT( bytes, 2 ) { int b = mc::range( 1, 255 ); string v( 1, char( b ) ); int k = mc::choose( 4 ); if ( k & 1 ) v += 'x'; if ( k & 2 ) v.insert( v.begin(), 'y' ); if ( blank( v ) ) mc::discard(); round_trip( with_value( v ) ); }
MC_SCENARIO_SPLIT( entities, 2 ) { round_trip( with_value( gen::pieces( { "&amp;", "&lt;", "&#65;", "<b>", "</a>", "<!--", "-->", "]]>", "&", "x", "<?xml?>", "\r\n", "\t" }, 1, mc::bound( 3, 4 ) ) + mc::pick( { "", "z" } ) ) ); }
static bool inner_values( const T& t ) { for ( auto& x : t.c ) if ( inner_values( x.second ) ) return true; return !t.c.empty() && !t.v.empty(); }
MC_SCENARIO_SPLIT( shapes, 6 ) { T t; int n = mc::bound( 4, 5 ); gen_children( t.add( "root" ), n, 4, { "a", "b-1", "c.d_e" }, { "" }, { "1", "", "<&>" } ); if ( inner_values( t ) ) mc::discard(); round_trip( t ); }
MC_SCENARIO_SPLIT( long_values, 2 ) { string v = gen::long_str( "a&<", { "", "&", "\"", ">" }, { 14, 15, 16, 255, 256, 257, 1024, 4095, 4096, 65535, 65536, 70000 } ); round_trip( with_value( v ) ); }
MC_SCENARIO_SPLIT( names, 2 ) { string k = string( 1, mc::pick( { 'a', 'Z', '_' } ) ) + gen::str( "b1-._", 0, mc::bound( 4, 5 ) ); T t; t.add( k ).add( k, "v" ); t.c[ 0 ].second.add( "x" + k, "" ); round_trip( t ); }

// documents written by others: attributes first, then elements; comments, declarations and layout carry no meaning
MC_SCENARIO_SPLIT( attributes, 4 ) {
	int na = mc::choose( 4 ), nc = mc::choose( 3 ), layout = mc::choose( 4 ); char q = mc::pick( { '"', '\'' } );
	const char* nl = layout == 1 ? "\n\t" : layout == 2 ? " <!-- c <x> -->\n" : ""; T t; T& r = t.add( "root" );
	string s = layout == 3 ? "<?xml version=\"1.0\"?>\n<!-- head -->\n<root" : "<root";
	const std::vector< std::pair< string, string > > vals = { { "1", "1" }, { "", "" }, { "a &lt;b&gt; &amp;", "a <b> &" }, { "x y", "x y" } };
	for ( int i = 0; i < na; ++i ) { auto& v = mc::pick( vals ); string k = string( "k" ) + char( '0' + i ); s += string( layout == 1 ? "\n  " : " " ) + k + ( layout == 2 ? " = " : "=" ) + q + v.first + q; r.add( k, v.second ); }
	if ( nc == 0 && mc::flip() ) s += "/>";
	else {
		s += ">"; s += nl;
		for ( int i = 0; i < nc; ++i ) {
			auto& v = mc::pick( vals ); T& x = r.add( "e" ); s += "<e";
			if ( mc::flip() ) { s += string( " at=" ) + q + "7" + q; x.add( "at", "7" ); }
			s += ">" + v.first + "</e>"; x.v = v.second; s += nl;
		}
		s += "</root>";
	}
	s += layout ? "\n" : "";
	MC_STEP( "document " << mc::show( s ) );
	spit( s ); prop_node p = load_xml( path( fname() ) );
	TREE_EQ( p, t, "tree of the document " << mc::show( s ) );
	mc::state( s ); mc::outcome( show_tree( t ) );
}
MC_SCENARIO_SPLIT( truncated, 2 ) {
	const string d = mc::pick( { "<a/>", "<a></a>", "<a>x</a>", "<a k=\"1\" l='2'><b>x</b></a>", "<a><b><c>1</c></b><!-- z --><d/></a>", "<?xml version=\"1.0\"?><a>&amp;</a>" } );
	bool decl = d[ 1 ] == '?';
	int n = mc::range( 1, int( d.size() ) - 1 ); string s = d.substr( 0, n );
	if ( decl && n >= 21 && n <= 21 ) mc::discard(); // a lone declaration is complete markup
	MC_STEP( "truncated " << mc::show( s ) );
	spit( s );
	string reason; try { load_xml( path( fname() ) ); } catch ( std::exception& e ) { reason = e.what(); }
	MC_CHECK( MC_THROWS( load_xml( path( fname() ) ) ), "the truncated document " << mc::show( s ) << " loads without error" );
	error_code ec; prop_node p;
	try { p = load_xml( path( fname() ), &ec ); } catch ( std::exception& e ) { MC_CHECK( false, "an error code is given but loading throws: " << e.what() ); }
	MC_CHECK( ec.error(), "no error code for " << mc::show( s ) );
	MC_EQ( reason, ec.message(), "reason given by the exception for " << mc::show( s ) );
	mc::state( s );
}
MC_SCENARIO_SPLIT( missing, 1 ) {
	MC_STEP( "missing file" ); error_code ec; mc::flip();
	MC_CHECK( MC_THROWS( load_xml( path( "no_such_file.xml" ) ) ), "loading a missing file is not an error" );
	load_xml( path( "no_such_file.xml" ), &ec ); MC_CHECK( ec.error(), "loading a missing file does not set the error code" );
}
MC_SCENARIO_SPLIT( many_elements, 2 ) {
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049 } ); T t; T& r = t.add( "r" ); switch ( mc::choose( 3 ) ) {
	case 0: for ( int i = 0; i < n; ++i ) r.add( "e" + std::to_string( i % 50 ), std::to_string( i ) ); break;
	case 1: { T* x = &r; for ( int i = 0; i < std::min( n, 300 ); ++i ) x = &x->add( "e" + std::to_string( i ) ); x->v = "leaf"; break; }
	case 2: r.add( string( n, 'n' ), "v" ); r.add( "n" + string( n, '_' ) ).add( string( n, 'n' ), "w" ); break;
	}
	round_trip( t );
}
MC_SCENARIO_SPLIT( many_attributes, 2 ) {
	int n = mc::pick( { 4, 8, 9, 16, 17, 33, 64, 65, 100, 256, 257, 1000 } ); bool lng = mc::flip(); string s = "<r"; T t; T& r = t.add( "r" );
	for ( int i = 0; i < ( lng ? 2 : n ); ++i ) { string k = ( lng ? string( n, 'k' ) : "k" ) + std::to_string( i ), v = lng ? string( n, 'v' ) : std::to_string( i ); s += " " + k + "=\"" + v + "\""; r.add( k, v ); }
	s += "><e>1</e></r>"; r.add( "e", "1" ); MC_STEP( n << " attributes or characters" ); spit( s ); TREE_EQ( load_xml( path( fname() ) ), t, "tree of a document with many or long attributes" ); mc::state( s );
}
MC_SCENARIO_SPLIT( mismatched, 3 ) { // closing tags must name the element they close
	string a = mc::pick( { "a", "b", "ab", "A" } ), b = mc::pick( { "a", "b", "ab", "A", "" } ); if ( a == b ) mc::discard(); string in = mc::pick( { "", "x", "<c/>", "<c>1</c>", "<a></a>" } ); bool nested = mc::flip();
	string s = "<" + a + ">" + in + "</" + b + ">"; if ( nested ) s = "<r><q/>" + s + "</r>"; MC_STEP( "document " << mc::show( s ) ); spit( s );
	MC_CHECK( MC_THROWS( load_xml( path( fname() ) ) ), "the malformed document " << mc::show( s ) << " loads without error" ); error_code ec; load_xml( path( fname() ), &ec ); MC_CHECK( ec.error(), "no error code for " << mc::show( s ) ); mc::state( s );
}
}
