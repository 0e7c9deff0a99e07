// C07 path decomposition and joining
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all paths of length <= 7 (thorough 8) over a b . / \ : ; all pairs of folders of length <= 5 and names of length <= 3 (no separator) for joining, replacing the filename and the extension; all sequences of <= 3 modifications of paths of length <= 4; paths of up to 6 (8) characters given themselves
// MC-ORACLE: parts around the last separator and the last dot of the filename, computed character by character; the parent of a name directly below the root is the root separator
// MC-ASSUMES: joined and replaced names contain no separator; extensions are given without their dot
#include "gen.hpp"
#include "flut/system/path.hpp"
#include "flut/string_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

struct parts { string parent, name, stem, ext; bool has_sep, has_dot; };
static parts split( const string& s )
{
	parts r; r.has_sep = r.has_dot = false;
	int n = -1; for ( int i = 0; i < int( s.size() ); ++i ) if ( s[ i ] == '/' || s[ i ] == '\\' ) n = i;
	r.has_sep = n >= 0;
	for ( int i = 0; i < int( s.size() ); ++i ) if ( i > n ) r.name += s[ i ]; else if ( i < n ) r.parent += s[ i ];
	if ( n == 0 ) r.parent = s.substr( 0, 1 ); // directly below the root
	int d = -1; for ( int i = 0; i < int( r.name.size() ); ++i ) if ( r.name[ i ] == '.' ) d = i;
	r.has_dot = d >= 0;
	r.stem = d >= 0 ? r.name.substr( 0, d ) : r.name;
	r.ext = d >= 0 ? r.name.substr( d + 1 ) : "";
	return r;
}
static string ref_join( const string& a, const string& b ) { return ( a.empty() || a.back() == '/' || a.back() == '\\' ) ? a + b : a + "/" + b; }
static string ref_replace_ext( const string& s, const string& e ) {
	parts q = split( s ); string r = s;
	if ( q.has_dot ) r = s.substr( 0, s.size() - q.ext.size() - 1 );
	return e.empty() ? r : r + "." + e;
}
static void decompose( const string& s )
{
	MC_STEP( "path " << mc::show( s ) );
	path p( s ); parts w = split( s );
	MC_EQ( p.str(), s, "str()" ); MC_EQ( p.string(), s, "string()" ); MC_EQ( string( p.c_str() ), s, "c_str()" );
	MC_EQ( p.empty(), s.empty(), "empty()" );
	MC_EQ( p.filename().str(), w.name, "filename of " << mc::show( s ) );
	MC_EQ( p.parent_path().str(), w.parent, "parent_path of " << mc::show( s ) );
	MC_EQ( p.stem().str(), w.stem, "stem of " << mc::show( s ) );
	MC_EQ( p.extension().str(), w.ext, "extension of " << mc::show( s ) );
	MC_EQ( p.has_filename(), !w.name.empty(), "has_filename of " << mc::show( s ) );
	MC_EQ( p.has_parent_path(), w.has_sep, "has_parent_path of " << mc::show( s ) );
	path r = p; MC_EQ( r.remove_filename().str(), w.parent, "remove_filename of " << mc::show( s ) );
	string norm = s; for ( char& c : norm ) if ( c == '\\' ) c = '/';
	path m = p; MC_EQ( m.make_preferred().str(), norm, "make_preferred of " << mc::show( s ) );
	MC_EQ( p.str(), s, "path changed by queries" );
	// string variants
	MC_EQ( get_filename_ext( s ), w.ext, "get_filename_ext( " << mc::show( s ) << " )" );
	MC_EQ( get_filename_without_folder( s ), w.name, "get_filename_without_folder( " << mc::show( s ) << " )" );
	MC_EQ( get_filename_folder( s ), s.substr( 0, s.size() - w.name.size() ), "get_filename_folder( " << mc::show( s ) << " )" );
	if ( w.ext.empty() ) { string g = get_filename_without_ext( s ); MC_CHECK( g == s || ( w.has_dot && g + "." == s ), "get_filename_without_ext( " << mc::show( s ) << " ) = " << mc::show( g ) ); }
	else MC_EQ( get_filename_without_ext( s ) + "." + w.ext, s, "get_filename_without_ext( " << mc::show( s ) << " ) + extension" );
	// streaming
	std::ostringstream o; o << p; MC_EQ( o.str(), s, "streamed path" );
	mc::state( s ); mc::outcome( w.parent + '\1' + w.stem + '\1' + w.ext );
}
MC_SCENARIO( decomposition ) { decompose( gen::str( "a./b\\:", 0, mc::bound( 7, 8 ) ) ); }
MC_SCENARIO( long_paths ) { decompose( gen::long_str( "a./", { "", "/", ".", "x.y", "/z", ".b/c", "\\" }, { 14, 15, 16, 31, 32, 63, 255, 256, 257, 511, 512, 1024, 1025, 4095, 4096, 4097 } ) ); }

MC_SCENARIO_SPLIT( pairs, 4 ) {
	string a = gen::str( "a./\\", 0, mc::bound( 5, 6 ) ), b = gen::str( "a.b", 0, 3 );
	MC_STEP( "folder " << mc::show( a ) << " name " << mc::show( b ) );
	string j = ref_join( a, b );
	MC_EQ( ( path( a ) / path( b ) ).str(), j, mc::show( a ) << " / path " << mc::show( b ) );
	MC_EQ( ( path( a ) / b ).str(), j, mc::show( a ) << " / string " << mc::show( b ) );
	MC_EQ( ( path( a ) / b.c_str() ).str(), j, mc::show( a ) << " / literal " << mc::show( b ) );
	path p( a ); p /= path( b ); MC_EQ( p.str(), j, mc::show( a ) << " /= path " << mc::show( b ) );
	path q( a ); q /= b; MC_EQ( q.str(), j, mc::show( a ) << " /= string " << mc::show( b ) );
	MC_EQ( p.filename().str(), b, "filename of the joined path " << mc::show( j ) );
	string folder = a; if ( folder.size() > 1 && ( folder.back() == '/' || folder.back() == '\\' ) ) folder.pop_back();
	if ( !a.empty() ) MC_EQ( p.parent_path().str(), folder, "parent of the joined path " << mc::show( j ) );
	MC_EQ( ( path( a ) + b ).str(), a + b, "path + string" ); MC_EQ( ( a + path( b ) ).str(), a + b, "string + path" );
	MC_EQ( path( a ) == path( b ), a == b, "equality" ); MC_EQ( path( a ) != path( b ), a != b, "inequality" );
	path f( a ); f.replace_filename( path( b ) );
	MC_EQ( f.str(), ref_join( split( a ).parent, b ), "replace_filename( " << mc::show( b ) << " ) of " << mc::show( a ) );
	MC_EQ( f.filename().str(), b, "filename after replacing it in " << mc::show( a ) );
	path e( a ); e.replace_extension( path( b ) );
	MC_EQ( e.str(), ref_replace_ext( a, b ), "replace_extension( " << mc::show( b ) << " ) of " << mc::show( a ) );
	path e0( a ); e0.replace_extension();
	MC_EQ( e0.str(), ref_replace_ext( a, "" ), "removing the extension of " << mc::show( a ) );
	mc::state( a + '\1' + b ); mc::outcome( j );
}
MC_SCENARIO_SPLIT( modifications, 4 ) { // sequences of modifications of one object, copies and moves
	string s = gen::str( "a./", 0, 4 ); path p( s );
	MC_STEP( "path " << mc::show( s ) );
	int n = mc::range( 1, mc::bound( 3, 4 ) );
	for ( int i = 0; i < n; ++i ) {
		switch ( mc::choose( 9 ) ) {
		case 0: p.remove_filename(); s = split( s ).parent; MC_STEP( "remove_filename" ); break;
		case 1: p /= string( "x.y" ); s = ref_join( s, "x.y" ); MC_STEP( "/= x.y" ); break;
		case 2: p.replace_extension( "e" ); s = ref_replace_ext( s, "e" ); MC_STEP( "replace_extension e" ); break;
		case 3: p.replace_extension(); s = ref_replace_ext( s, "" ); MC_STEP( "replace_extension" ); break;
		case 4: p.replace_filename( "f" ); s = ref_join( split( s ).parent, "f" ); MC_STEP( "replace_filename f" ); break;
		case 5: { path q( p ); p = string( "other" ); p = q; MC_EQ( q.str(), s, "copy" ); MC_STEP( "copy" ); break; }
		case 6: { path q( std::move( p ) ); p = std::move( q ); MC_STEP( "move" ); break; }
		case 7: p = p.filename(); s = split( s ).name; MC_STEP( "= filename" ); break;
		case 8: p = p.stem(); s = split( s ).stem; MC_STEP( "= stem" ); break;
		}
		MC_EQ( p.str(), s, "path after modification " << i );
		mc::state( s );
	}
	mc::outcome( s );
}
MC_SCENARIO( own_parts ) { // a path joined with or given itself as a filename or extension
	string s = gen::str( "a./\\", 0, mc::bound( 6, 8 ) ); int k = mc::choose( 3 ); MC_STEP( mc::show( s ) << ", operation " << k ); path p( s ), q( s ), c( s ); if ( k == 0 ) { p /= p; q /= c; } if ( k == 1 ) { p.replace_filename( p ); q.replace_filename( c ); } if ( k == 2 ) { p.replace_extension( p ); q.replace_extension( c ); } MC_EQ( p.str(), q.str(), "path given itself instead of an equal path" ); MC_EQ( c.str(), s, "argument" ); if ( k == 0 ) MC_EQ( q.str(), ref_join( s, s ), "joined with itself" ); if ( k == 1 ) MC_EQ( q.str(), ref_join( split( s ).parent, s ), "replaced by itself" ); mc::state( s ); mc::outcome( p.str() );
}
}
