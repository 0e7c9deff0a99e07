// C11 saving and loading property text
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: every value text of length <= 3 (thorough 4) over 15 structural characters in 4 positions (last entry, before a sibling, in a block, on a node with children); every byte value; every key of a letter plus <= 3 structural characters; all trees of <= 3 (4) nodes below the root over 3 keys and 6 special values; values and keys of 14..5000 characters; chains of up to 300 levels; files of up to 2049 entries; both output forms; unwritable targets
// MC-ORACLE: the tree that was saved; file contents re-read by the real loader and by parsing the text
// MC-ASSUMES: keys start with a letter; the root node itself has no value (the text form has no place for one)
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static string slurp( const string& fn ) { string s; FILE* f = fopen( fn.c_str(), "rb" ); if ( !f ) return "<no file>"; char b[ 4096 ]; size_t n; while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); fclose( f ); return s; }

static void round_trip( const T& t )
{
	bool readable = mc::choose( 2 ) == 0;
	string fn = "p" + std::to_string( getpid() ) + ".prop";
	prop_node p = build( t );
	MC_STEP( "save " << show_tree( t ) << ( readable ? " readable" : " compact" ) );
	bool ok = readable && mc::ctx().executions % 2 ? save_prop( p, path( fn ) ) : save_prop( p, path( fn ), readable );
	MC_CHECK( ok, "save_prop reports failure" );
	TREE_EQ( p, t, "tree changed by saving" );
	string text = slurp( fn );
	MC_STEP( "file " << mc::show( text ) );
	prop_node q, r;
	try { q = load_prop( path( fn ) ); }
	catch ( std::exception& e ) { MC_CHECK( false, "loading " << mc::show( text ) << " fails: " << e.what() ); }
	TREE_EQ( q, t, "tree loaded from " << mc::show( text ) );
	error_code ec; r = parse_prop( text.c_str(), &ec );
	MC_CHECK( ec.ok(), "parsing " << mc::show( text ) << " reports " << ec.message() );
	TREE_EQ( r, t, "tree parsed from " << mc::show( text ) );
	MC_CHECK( q == p, "loaded tree does not compare equal" );
	mc::state( show_tree( t ) ); mc::outcome( text );
}
static T with_value( const string& v )
{
	T t;
	switch ( mc::choose( 4 ) ) {
	case 0: t.add( "a", v ); break;
	case 1: t.add( "a", v ); t.add( "b", "1" ); break;
	case 2: { T& x = t.add( "n" ); x.add( "a", v ); x.add( "b", v ); t.add( "c", "2" ); break; }
	case 3: { T& x = t.add( "n", v ); x.add( "a", "1" ).add( "d", v ); t.add( "c", v ); break; }
	}
	return t;
}
static const string structural( "={}%;'\"\\ \t\na1\x01\xe9", 15 );
MC_SCENARIO_SPLIT( values, 4 ) { string v = gen::str( structural, 0, mc::bound( 3, 4 ) ); round_trip( with_value( v ) ); }
MC_SCENARIO_SPLIT( bytes, 2 ) { int b = mc::choose( 256 ); string v( 1, char( b ) ); int k = mc::choose( 4 ); if ( k & 1 ) v += 'x'; if ( k & 2 ) v.insert( v.begin(), 'y' ); round_trip( with_value( v ) ); }
MC_SCENARIO_SPLIT( keys, 3 ) {
	string k = string( 1, mc::pick( { 'k', 'Z' } ) ) + gen::str( structural, 0, mc::bound( 3, 4 ) ); T t;
	switch ( mc::choose( 3 ) ) { case 0: t.add( k, "v" ); break; case 1: t.add( k ).add( k, "1" ); t.add( "b" ); break; case 2: t.add( "x", "1" ); t.add( k, "w" ).add( "y" ); t.add( k, "2" ); break; }
	round_trip( t );
}
MC_SCENARIO_SPLIT( shapes, 7 ) {
	T t; int n = mc::bound( 3, 4 );
	gen_children( t, n, 4, { "a", "b c" }, { "", "v", "x {" }, { "1", "", "} %", "a = b;", " " } );
	round_trip( t );
}
MC_SCENARIO_SPLIT( long_values, 2 ) { round_trip( with_value( gen::long_str( "a \"\n=", { "", "\\", "'", "%", ";" }, { 14, 15, 16, 31, 127, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 5000 } ) ) ); }
MC_SCENARIO_SPLIT( chains, 1 ) { // deep nesting
	int d = mc::choose( 50 ) + 1; d = d <= 40 ? d : std::vector< int >{ 63, 64, 65, 99, 100, 101, 128, 200, 256, 300 }[ d - 41 ]; T t; T* x = &t; for ( int i = 0; i < d; ++i ) x = &x->add( "n" + std::to_string( i ), i % 3 ? "" : "v = " + std::to_string( i ) ); x->v = "leaf"; round_trip( t );
}
MC_SCENARIO_SPLIT( unwritable, 1 ) {
	T t; t.add( "a", "1" ); prop_node p = build( t );
	switch ( mc::choose( 4 ) ) {
	case 0: MC_STEP( "missing folder" ); MC_CHECK( !save_prop( p, path( "missing_folder/x.prop" ) ), "saving into a missing folder reports success" ); break;
	case 1: MC_STEP( "target is a folder" ); MC_CHECK( !save_prop( p, path( "." ) ), "saving over a folder reports success" ); break;
	case 2: MC_STEP( "full device" ); MC_CHECK( !save_prop( p, path( "/dev/full" ) ), "saving on a full device reports success" ); break;
	case 3: { MC_STEP( "full device, large tree" ); for ( int i = 0; i < 5000; ++i ) p.push_back( "k", string( 20, 'x' ) ); MC_CHECK( !save_prop( p, path( "/dev/full" ), mc::flip() ), "saving on a full device reports success" ); break; }
	}
	error_code ec; MC_CHECK( MC_THROWS( load_prop( path( "no_such_file.prop" ) ) ), "loading a missing file is not an error" );
	load_prop( path( "no_such_file.prop" ), &ec ); MC_CHECK( ec.error(), "loading a missing file does not set the error code" );
}
MC_SCENARIO_SPLIT( many_entries, 2 ) { // long files
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049 } ); T t; bool nested = mc::flip(); T& x = nested ? t.add( "block" ) : t; string v = mc::pick( { "1", "", "a b", "{" } ); for ( int i = 0; i < n; ++i ) { T& e = x.add( "k" + std::to_string( i % 100 ), v ); if ( i % 10 == 9 ) e.add( "s", std::to_string( i ) ); } t.add( "last", "2" ); round_trip( t );
}
MC_SCENARIO_SPLIT( long_keys, 2 ) { string k = "k" + gen::long_str( "a ", { "", "=", "\"", "%" }, { 14, 15, 16, 31, 63, 64, 127, 255, 256, 257, 1023, 1024, 1025, 4096 } ) + "z"; T t; t.add( k, "v" ).add( k, "1" ); t.add( k ); round_trip( t ); }
}
