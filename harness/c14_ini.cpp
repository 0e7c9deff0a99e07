// C14 INI files
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: all sequences of <= 5 (thorough 6) lines out of 14 kinds (sections, keys with every spacing, comments, blank lines, invalid lines) with 2 line endings and with or without a final line end; all two-level trees of <= 4 (5) entries and sections in every order with 6 values; keys of <= 3 and sections of <= 2 of 11 special characters; files of up to 2049 entries or sections
// MC-ORACLE: a line-by-line reader written from the definition; the saved tree with its plain entries first
// MC-ASSUMES: saved keys are unique within their section, plain entries and section entries are not empty texts with blanks at the ends or line ends, sections have at least one entry; the relative order of plain entries and of sections is kept
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static string fname() { return "i" + std::to_string( getpid() ) + ".ini"; }
static void spit( const string& s ) { FILE* f = fopen( fname().c_str(), "wb" ); if ( !f || fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f ) ) mc::internal_error( "scratch file" ); }
static string slurp() { string s; FILE* f = fopen( fname().c_str(), "rb" ); if ( !f ) return "<no file>"; char b[ 4096 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); fclose( f ); return s; }
static string trim( const string& s ) { size_t b = 0, e = s.size(); while ( b < e && strchr( " \t\r\n\f\v", s[ b ] ) ) ++b; while ( e > b && strchr( " \t\r\n\f\v", s[ e - 1 ] ) ) --e; return s.substr( b, e - b ); }

static const std::vector< string > lines = { "a=1", "[S]", "# c = 1", "", "b = two words ", "  a=x=y", "\t[T u]  ", "#", "a=", "   ", "b\t=\t3", "nonsense", "key one = [v]", "[]x=4" };

MC_SCENARIO_SPLIT( line_sequences, 3 ) {
	int n = mc::range( 0, mc::bound( 5, 6 ) ); const char* nl = mc::choose( 2 ) ? "\r\n" : "\n"; bool last = mc::choose( 2 ) == 0;
	string s; T t; T* cur = &t; bool bad = false; int sections = 0;
	for ( int i = 0; i < n; ++i ) {
		const string& raw = lines[ mc::choose( n > mc::bound( 4, 5 ) ? 8 : int( lines.size() ) ) ]; string l = trim( raw );
		s += raw; if ( i + 1 < n || last ) s += nl;
		if ( bad || l.empty() || l[ 0 ] == '#' ) continue;
		if ( l[ 0 ] == '[' && l.back() == ']' && l.size() > 2 ) { cur = &t.add( l.substr( 1, l.size() - 2 ) ); ++sections; continue; }
		size_t e = l.find( '=' ); if ( e == string::npos ) { bad = true; continue; }
		string k = trim( l.substr( 0, e ) ), v = trim( l.substr( e + 1 ) );
		int j = cur->find( k ); if ( j >= 0 ) cur->c[ j ].second = T( v ); else cur->add( k, v );
	}
	MC_STEP( "load " << mc::show( s ) );
	spit( s );
	prop_node p; bool thrown = false;
	try { p = load_ini( path( fname() ) ); } catch ( const std::exception& ) { thrown = true; }
	MC_EQ( thrown, bad, "error loading " << mc::show( s ) );
	if ( !bad ) TREE_EQ( p, t, "tree loaded from " << mc::show( s ) );
	mc::state( s ); mc::outcome( bad ? "error" : show_tree( t ) );
}

static const std::vector< string > vals = { "1", "two words", "x=y", "[z]", "#5", "a;b" };
MC_SCENARIO_SPLIT( round_trips, 4 ) {
	int n = mc::range( 0, mc::bound( 4, 5 ) ); T t, plain, groups;
	for ( int i = 0; i < n; ++i ) {
		string k = string( 1, char( 'a' + i ) ) + ( i % 2 ? " key" : "" );
		if ( mc::flip() ) { string v = mc::pick( vals ); t.add( k, v ); plain.add( k, v ); }
		else { T g; int m = mc::range( 1, 2 ); for ( int j = 0; j < m; ++j ) { string kk = string( 1, char( 'a' + j ) ); string v = j == 0 ? mc::pick( vals ) : mc::pick( { "", "q" } ); g.add( kk, v ); } t.add( k, g ); groups.add( k, g ); }
	}
	T want = plain; for ( auto& x : groups.c ) want.c.push_back( x );
	prop_node p = build( t );
	MC_STEP( "save " << show_tree( t ) );
	save_ini( p, path( fname() ) );
	string s = slurp();
	MC_STEP( "file " << mc::show( s ) );
	prop_node q; try { q = load_ini( path( fname() ) ); } catch ( const std::exception& e ) { MC_CHECK( false, "loading " << mc::show( s ) << " fails: " << e.what() ); }
	// plain entries and sections may be grouped, but nothing may be lost, changed or moved into another section
	T got = read( q ), gp, gg; for ( auto& x : got.c ) ( x.second.c.empty() ? gp : gg ).c.push_back( x );
	for ( auto& x : gg.c ) gp.c.push_back( x );
	MC_EQ( gp, want, "tree loaded from " << mc::show( s ) );
	mc::state( show_tree( t ) ); mc::outcome( s );
}
MC_SCENARIO_SPLIT( long_lines, 2 ) {
	string v = gen::long_str( "a=", { "", " ", "#", "]" }, { 15, 16, 255, 256, 1023, 1024, 4096, 70000 } ); v = "v" + v + "w"; T t; t.add( "k", v ); t.add( "s" ).add( "k", v );
	save_ini( build( t ), path( fname() ) ); MC_STEP( "long value " << v.size() );
	TREE_EQ( load_ini( path( fname() ) ), t, "long value" ); mc::state( v );
}
MC_SCENARIO_SPLIT( missing, 1 ) { MC_STEP( "missing file" ); mc::flip(); MC_CHECK( MC_THROWS( load_ini( path( "no_such_file.ini" ) ) ), "loading a missing file is not an error" ); }
MC_SCENARIO_SPLIT( key_characters, 3 ) { // keys and section names with any characters that have no meaning of their own
	string k = gen::str( "a.; ]x:/\\'\"\x80", 1, 3 ), g = gen::str( "b.; #=[", 1, 2 ); if ( trim( k ) != k ) mc::discard();
	T t; t.add( k, "1" ); t.add( g ).add( k, "2" ); t.c.back().second.add( k + "k", "3" ); save_ini( build( t ), path( fname() ) ); string s = slurp(); MC_STEP( "file " << mc::show( s ) ); TREE_EQ( load_ini( path( fname() ) ), t, "tree loaded from " << mc::show( s ) ); mc::state( s ); mc::outcome( s );
}
MC_SCENARIO_SPLIT( many_entries, 2 ) {
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049 } ), kind = mc::choose( 3 ); T t; MC_STEP( n << " entries or sections, kind " << kind );
	if ( kind == 0 ) for ( int i = 0; i < n; ++i ) t.add( "k" + std::to_string( i ), std::to_string( i ) ); else if ( kind == 1 ) for ( int i = 0; i < n; ++i ) t.add( "s" + std::to_string( i ) ).add( "k", std::to_string( i ) ); else { t.add( "k", "v" ); T& x = t.add( "s" ); for ( int i = 0; i < n; ++i ) x.add( "k" + std::to_string( i ), "" ); }
	save_ini( build( t ), path( fname() ) ); TREE_EQ( load_ini( path( fname() ) ), t, "large file" );
}
}
