// C15 includes and merges
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: all include graphs over 3 files in 2 folders: main file of <= 3 elements, two included files of <= 2 elements each, elements being entries, nested blocks and include directives (both modes, every target, missing file, cycles) at the top level, inside the root node or inside a nested block; both folder depths of the main file; chains of up to 99 files; 4 directive words in every file of a chain; up to 257 directives in a file and entries in an included file; all pairs of trees of <= 3 entries for merging with and without overwriting; parts of a tree of up to 2 entries with up to 3 children merged into that tree
// MC-ORACLE: recursive evaluation of the directives on reference trees
// MC-ASSUMES: merged files have unique keys; flags are written as 0 or 1
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
#include <sys/stat.h>
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static string directive = "INCLUDE";
static void spit( const string& fn, const string& s ) { FILE* f = fopen( fn.c_str(), "wb" ); if ( !f || fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f ) ) mc::internal_error( "scratch file" ); }
static string text( const T& t, int d = 0 ) { string s; for ( auto& x : t.c ) { s += string( d, '\t' ) + x.first; if ( !x.second.v.empty() || x.second.c.empty() ) s += " = \"" + x.second.v + "\""; if ( !x.second.c.empty() ) s += " {\n" + text( x.second, d + 1 ) + string( d, '\t' ) + "}"; s += "\n"; } return s; }

struct setup { setup() { mc::on_worker_start = [] { string d = "w" + std::to_string( getpid() ); mkdir( d.c_str(), 0777 ); if ( chdir( d.c_str() ) ) mc::internal_error( "chdir" ); mkdir( "main", 0777 ); mkdir( "main/sub", 0777 ); mkdir( "sub", 0777 ); }; } } setup_;

struct ref_error {};
typedef std::map< string, T > files_t; // normalised name -> contents
static void resolve( T& t, const files_t& fs, const string& dir, int level );
static T load( const files_t& fs, const string& name, int level ) {
	if ( level >= 30 ) throw ref_error(); // these graphs are deeper than their number of files only when cyclic
	auto it = fs.find( name ); if ( it == fs.end() ) throw ref_error();
	T t = it->second; size_t n = name.find_last_of( '/' );
	resolve( t, fs, n == string::npos ? "" : name.substr( 0, n + 1 ), level );
	return t;
}
static void resolve( T& t, const files_t& fs, const string& dir, int level ) {
	// directives take effect one after the other, in document order
	for ( size_t i = 0; i < t.c.size(); ) {
		if ( t.c[ i ].first != directive ) { resolve( t.c[ i ].second, fs, dir, level ); ++i; continue; }
		T d = t.c[ i ].second; int f = d.find( "file" ); if ( f < 0 ) throw ref_error();
		string fn = d.c[ f ].second.v; int m = d.find( "merge_children" ); bool merge = m >= 0 && d.c[ m ].second.v == "1";
		string base = dir;
		if ( fn.compare( 0, 3, "../" ) == 0 ) { base.pop_back(); size_t n = base.find_last_of( '/' ); base = n == string::npos ? "" : base.substr( 0, n + 1 ); fn = fn.substr( 3 ); }
		T inc = load( fs, base + fn, level + 1 );
		if ( inc.c.size() != 1 ) throw ref_error();
		t.c.erase( t.c.begin() + i );
		if ( merge ) { for ( auto& x : inc.c[ 0 ].second.c ) if ( t.find( x.first ) < 0 ) t.c.push_back( x ); }
		else { t.c.insert( t.c.begin() + i, inc.c[ 0 ] ); ++i; }
	}
}

struct target { string file; };
/// one element of a file body
static void element( T& t, int i, const std::vector< string >& targets, int nest, const string& tag )
{
	int n = int( targets.size() ) * 2, k = mc::choose( n + 2 + ( nest > 0 ) );
	if ( k == 0 ) t.add( "p" + std::to_string( i ), tag ); // same keys in all files: merging must not override
	else if ( k == 1 ) t.add( tag + std::to_string( i ), "own" ).add( "x", "1" );
	else if ( k < n + 2 ) {
		T& d = t.add( directive ); bool merge = ( k - 2 ) % 2;
		if ( merge && i % 2 ) { d.add( "merge_children", "1" ); d.add( "file", targets[ ( k - 2 ) / 2 ] ); }
		else { d.add( "file", targets[ ( k - 2 ) / 2 ] ); if ( merge || i % 2 ) d.add( "merge_children", merge ? "1" : "0" ); }
	}
	else { T& b = t.add( "blk" ); b.add( "q", tag ); element( b, i + 5, targets, nest - 1, tag ); b.add( "r", "z" ); }
}
static void run( const files_t& fs, const string& main, const string& given )
{
	for ( auto& f : fs ) { MC_STEP( f.first << " contains " << mc::show( text( f.second ) ) ); spit( f.first, text( f.second ) ); }
	T want; bool error = false;
	try { want = load( fs, main, 0 ); } catch ( ref_error& ) { error = true; }
	prop_node p; bool thrown = false;
	try { p = directive == "INCLUDE" ? load_file_with_include( path( given ) ) : load_file_with_include( path( given ), directive ); } catch ( const std::exception& ) { thrown = true; }
	MC_STEP( "loaded: " << ( thrown ? string( "error" ) : show_tree( read( p ) ) ) );
	MC_EQ( thrown, error, "error while loading" );
	if ( !error ) TREE_EQ( p, want, "tree loaded" );
	for ( auto& f : fs ) unlink( f.first.c_str() );
	mc::state( [&] { string s = main; for ( auto& f : fs ) s += f.first + show_tree( f.second ); return s; }() ); mc::outcome( error ? "error" : show_tree( want ) );
}
MC_SCENARIO_SPLIT( graphs, 4 ) {
	directive = "INCLUDE"; files_t fs;
	T m, a, b; int n;
	bool top = mc::flip(); T& mr = top ? m : m.add( "main", "mv" );
	n = mc::range( 1, 2 ); for ( int i = 0; i < n; ++i ) element( mr, i, { "a.prop", "sub/b.prop", "missing.prop" }, 1, "M" );
	T& ar = a.add( "aroot", "av" ); n = mc::range( 0, mc::bound( 1, 2 ) ); for ( int i = 0; i < n; ++i ) element( ar, i, { "sub/b.prop" }, 1, "A" );
	T& br = b.add( "broot" ); n = mc::range( 0, mc::bound( 1, 2 ) ); for ( int i = 0; i < n; ++i ) element( br, i, { "c.prop" }, 0, "B" );
	T c; c.add( "croot" ).add( "p0", "C" ); c.c[ 0 ].second.add( "deep", "C" );
	fs[ "main/main.prop" ] = m; fs[ "main/a.prop" ] = a; fs[ "main/sub/b.prop" ] = b; fs[ "main/sub/c.prop" ] = c;
	run( fs, "main/main.prop", "main/main.prop" );
}
MC_SCENARIO_SPLIT( several_directives, 4 ) { // many directives next to each other in one node, and around entries
	directive = mc::choose( 2 ) ? "IMPORT" : "INCLUDE"; files_t fs; T m, a, b;
	T& mr = m.add( "main" ); int n = mc::range( 1, mc::bound( 4, 5 ) ); for ( int i = 0; i < n; ++i ) element( mr, i, { "a.prop", "sub/b.prop" }, 0, "M" );
	{ T& r = a.add( "aroot", "av" ); r.add( "p0", "A" ); r.add( "p1", "A" ); r.add( "A0", "A" ).add( "y", "1" ); }
	{ T& r = b.add( "broot" ); r.add( "p1", "B" ); r.add( "p2", "B" ); r.add( "A0", "B" ); }
	fs[ "main.prop" ] = m; fs[ "a.prop" ] = a; fs[ "sub/b.prop" ] = b;
	run( fs, "main.prop", mc::pick( { "main.prop", "./main.prop" } ) );
}
MC_SCENARIO_SPLIT( cycles_and_errors, 3 ) {
	directive = "INCLUDE"; files_t fs; T m, a, b;
	T& mr = m.add( "main" ); element( mr, 0, { "main.prop", "a.prop", "sub/b.prop" }, mc::bound( 0, 1 ), "M" ); if ( mc::flip() ) element( mr, 1, { "a.prop" }, 0, "M" );
	switch ( mc::choose( 4 ) ) { case 0: break; case 1: a.add( "x", "1" ); a.add( "y", "2" ); break; case 2: if ( !mc::thorough() ) mc::discard(); // fall through
	default: element( a.add( "aroot" ), 0, { "main.prop", "a.prop", "sub/b.prop" }, mc::bound( 0, 1 ), "A" ); }
	switch ( mc::choose( 3 ) ) { case 0: break; case 1: { T& d = a.add( directive ); d.add( "file", "sub/b.prop" ); break; } case 2: mr.add( directive ).add( "wrong", "1" ); break; }
	element( b.add( "broot" ), 0, { "../a.prop", "../main.prop", "b.prop" }, 0, "B" );
	fs[ "main.prop" ] = m; fs[ "a.prop" ] = a; fs[ "sub/b.prop" ] = b;
	run( fs, "main.prop", "main.prop" );
}
MC_SCENARIO_SPLIT( xml_target, 2 ) { // an included file is read according to its own type
	spit( "main.prop", mc::choose( 2 ) ? "main { a = 1\nINCLUDE { file = inc.xml } b = 2 }" : "main { a = 1\nINCLUDE { file = inc.xml; merge_children = 1 } b = 2 }" );
	bool merge = mc::ctx().choice[ 0 ] == 0; string v = mc::pick( { "x", "", "1 2" } );
	spit( "inc.xml", "<r><a>9</a><k>" + v + "</k></r>" );
	MC_STEP( "xml include, merge " << merge << " value " << v );
	T t; T& m = t.add( "main" ); m.add( "a", "1" ); if ( merge ) { m.add( "b", "2" ); m.add( "k", v ); } else { T& r = m.add( "r" ); r.add( "a", "9" ); r.add( "k", v ); m.add( "b", "2" ); }
	TREE_EQ( load_file_with_include( path( "main.prop" ) ), t, "included XML" );
	unlink( "main.prop" ); unlink( "inc.xml" );
}
MC_SCENARIO_SPLIT( chain, 1 ) { // long but finite include chains are not cycles
	int n = mc::choose( 45 ) + 1; if ( n > 40 ) n = std::vector< int >{ 50, 64, 65, 80, 99 }[ n - 41 ]; T want, *w = &want; bool merge = false;
	for ( int i = 0; i < n; ++i ) { string s = "n" + std::to_string( i ) + " { v = " + std::to_string( i ) + "\n"; if ( i + 1 < n ) s += "INCLUDE { file = f" + std::to_string( i + 1 ) + ".prop }\n"; s += "e = 1 }\n"; spit( "f" + std::to_string( i ) + ".prop", s ); }
	std::function< void( T&, int ) > make = [&]( T& t, int i ) { T& x = t.add( "n" + std::to_string( i ) ); x.add( "v", std::to_string( i ) ); if ( i + 1 < n ) make( x, i + 1 ); x.add( "e", "1" ); };
	make( want, 0 ); (void)w; (void)merge;
	MC_STEP( "chain of " << n );
	TREE_EQ( load_file_with_include( path( "f0.prop" ) ), want, "chain of includes" );
	for ( int i = 0; i < n; ++i ) unlink( ( "f" + std::to_string( i ) + ".prop" ).c_str() );
}
MC_SCENARIO_SPLIT( other_directive, 3 ) { // the chosen word, and only that, is the directive in every included file as well
	directive = mc::pick( { "IMPORT", "use", "include", "INCLUDE" } ); string wrong = directive == "INCLUDE" ? "IMPORT" : "INCLUDE"; files_t fs; T m, a, b, c;
	auto one = [&]( T& t, const string& file ) { int k = mc::choose( 4 ); if ( k == 3 ) { T& d = t.add( wrong ); d.add( "file", file ); } else if ( k ) { T& d = ( k == 2 ? t.add( "blk" ) : t ).add( directive ); d.add( "file", file ); if ( mc::flip() ) d.add( "merge_children", "1" ); } };
	one( m.add( "main" ), "a.prop" ); T& ar = a.add( "aroot" ); ar.add( "x", "1" ); one( ar, "sub/b.prop" ); T& br = b.add( "broot" ); br.add( "y", "2" ); one( br, "c.prop" ); c.add( "croot" ).add( "z", "3" );
	fs[ "main.prop" ] = m; fs[ "a.prop" ] = a; fs[ "sub/b.prop" ] = b; fs[ "sub/c.prop" ] = c; run( fs, "main.prop", "main.prop" ); directive = "INCLUDE";
}
MC_SCENARIO_SPLIT( many_includes, 2 ) { // many directives in one file, many entries in an included file
	int n = mc::pick( { 5, 9, 17, 33, 64, 65, 100, 129, 257 } ), kind = mc::choose( 3 ); directive = "INCLUDE"; files_t fs; T m, a, b; T& mr = m.add( "main" ); mr.add( "k3", "own" );
	T& ar = a.add( "aroot", "v" ); for ( int i = 0; i < ( kind == 0 ? 2 : n ); ++i ) ar.add( "k" + std::to_string( i ), "A" ); b.add( "broot" ).add( "kb", "B" );
	if ( kind == 0 ) for ( int i = 0; i < n; ++i ) { T& d = mr.add( directive ); d.add( "file", i % 2 ? "b.prop" : "a.prop" ); if ( i % 3 == 0 ) d.add( "merge_children", "1" ); mr.add( "e" + std::to_string( i ), "1" ); }
	else { T& d = mr.add( directive ); d.add( "file", "a.prop" ); if ( kind == 2 ) d.add( "merge_children", "1" ); mr.add( "after", "1" ); }
	fs[ "main.prop" ] = m; fs[ "a.prop" ] = a; fs[ "b.prop" ] = b; run( fs, "main.prop", "main.prop" );
}
MC_SCENARIO_SPLIT( merging, 5 ) {
	T a, b; const std::vector< string > ks = { "a", "b", "c" }, vs = { "1", "2" };
	a.v = mc::pick( { "", "v" } ); int n = mc::range( 0, mc::bound( 2, 3 ) ); for ( int i = 0; i < n; ++i ) { T& x = a.add( mc::pick( ks ), mc::pick( vs ) ); if ( mc::flip() ) x.add( "s", "A" ); }
	int m = mc::range( 0, mc::bound( 2, 3 ) ); for ( int i = 0; i < m; ++i ) { string k = mc::pick( { "a", "b", "c", "d" } ); if ( b.find( k ) >= 0 ) mc::discard(); T& x = b.add( k, mc::pick( { "1", "3" } ) ); if ( mc::flip() ) x.add( "s", "B" ); }
	bool over = mc::flip();
	MC_STEP( "merge " << show_tree( b ) << " into " << show_tree( a ) << ( over ? " overwriting" : "" ) );
	T want = a; for ( auto& x : b.c ) { int j = a.find( x.first ); if ( j < 0 ) want.c.push_back( x ); else if ( over ) want.c[ j ].second = x.second; }
	prop_node p = build( a ), q = build( b ); merge_prop_nodes( p, q, over );
	TREE_EQ( p, want, "merged tree" ); TREE_EQ( q, b, "merge source" );
	mc::state( show_tree( a ) + show_tree( b ) ); mc::outcome( show_tree( want ) );
}
MC_SCENARIO_SPLIT( merging_own_part, 5 ) { // a part of the tree (such as its defaults) merged into the tree itself
	T a; a.v = mc::pick( { "", "v" } ); int n = mc::range( 1, 2 ); const std::vector< string > ks = { "a", "b", "c" }; for ( int i = 0; i < n; ++i ) { T& x = a.add( mc::pick( ks ), i ? "1" : "" ); int m = mc::range( 0, i == 0 ? 3 : 1 ); for ( int j = 0; j < m; ++j ) { string k = mc::pick( { "a", "b", "d", "e" } ); if ( x.find( k ) >= 0 ) mc::discard(); T& y = x.add( k, "2" ); if ( j == 0 && mc::flip() ) y.add( "a", "3" ); } }
	int j = mc::choose( n ); bool over = mc::flip(), nested = mc::flip(); T b = a.c[ j ].second; if ( nested && b.c.empty() ) mc::discard(); if ( nested ) b = T( b.c[ 0 ].second ); MC_STEP( "merge part " << j << ( nested ? ".0" : "" ) << " of " << show_tree( a ) << " into it" << ( over ? " overwriting" : "" ) );
	T want = a; for ( auto& x : b.c ) { int k = a.find( x.first ); if ( k < 0 ) want.c.push_back( x ); else if ( over ) want.c[ k ].second = x.second; }
	prop_node p = build( a ); const prop_node& part = nested ? p[ index_t( j ) ][ index_t( 0 ) ] : p[ index_t( j ) ]; merge_prop_nodes( p, part, over ); TREE_EQ( p, want, "tree merged with a part of itself" ); mc::state( show_tree( a ) + std::to_string( j * 4 + over * 2 + nested ) ); mc::outcome( show_tree( want ) );
}
}
