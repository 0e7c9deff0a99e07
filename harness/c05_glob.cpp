// C05 glob patterns
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp
// MC-BOUNDS: all pairs of patterns of length <= 5 (thorough 6) over a b * ? \ . / and strings of length <= 4 (5) over a b \ . /; pattern/string pairs of length <= 7 and <= 8 over * a b; all lists of <= 3 alternatives; letters in both cases; all pairs of single bytes; alternatives with blanks; lists of up to 1025 alternatives; all sequences of <= 4 elements for searching; long strings
// MC-ORACLE: dynamic-programming matcher over the wildcard definition
// MC-ASSUMES: no bracket expressions and no NUL; alternatives do not contain their separator
#include "gen.hpp"
#include "flut/pattern_matcher.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static bool ref_match( const string& s, const string& p )
{
	std::vector< char > row( s.size() + 1, 0 ), next;
	row[ 0 ] = 1;
	for ( char c : p ) {
		next.assign( s.size() + 1, 0 );
		if ( c == '*' ) { bool any = false; for ( size_t i = 0; i <= s.size(); ++i ) { any = any || row[ i ]; next[ i ] = any; } }
		else for ( size_t i = 1; i <= s.size(); ++i ) next[ i ] = row[ i - 1 ] && ( c == '?' || c == s[ i - 1 ] );
		row.swap( next );
	}
	return row[ s.size() ];
}
static void check( const string& s, const string& p )
{
	MC_STEP( "pattern " << mc::show( p ) << " string " << mc::show( s ) );
	bool w = ref_match( s, p );
	MC_EQ( pattern_match( s, p ), w, "pattern_match( " << mc::show( s ) << ", " << mc::show( p ) << " )" );
	mc::state( s + '\1' + p ); mc::outcome( p + ( w ? "1" : "0" ) );
}
MC_SCENARIO_SPLIT( pairs, 4 ) { string p = gen::str( "a*?b\\./", 0, mc::bound( 5, 6 ) ); check( gen::str( "ab\\./", 0, 4 ), p ); }
MC_SCENARIO_SPLIT( wildcards, 4 ) { string p = gen::str( "*ab?", 0, mc::bound( 6, 7 ) ); check( gen::str( "ab", 0, mc::bound( 7, 9 ) ), p ); }
MC_SCENARIO( special_bytes ) { string p = gen::str( string( "*?\xe9 \n-!", 7 ), 0, 4 ); check( gen::str( string( "\xe9 \n-!", 5 ), 0, 4 ), p ); }
MC_SCENARIO( letters ) { string p = gen::str( "aAzZ0*?", 0, 3 ); check( gen::str( "aAzZ0", 0, 3 ), p ); } // matching distinguishes case
MC_SCENARIO( every_byte ) {
	char c = char( mc::range( 1, 255 ) ), d = char( mc::range( 1, 255 ) );
	string s( 1, d ); MC_STEP( "byte " << int( (unsigned char)c ) << " string byte " << int( (unsigned char)d ) );
	if ( c == '[' ) return; // bracket expressions are not covered
	check( s, string( 1, c ) ); check( "x" + s, string( "?" ) + c ); check( s + "y", c + string( "*" ) );
}
MC_SCENARIO( long_text ) {
	string s = gen::long_str( "ab", { "", "b", "xyz" }, { 14, 16, 255, 256, 257, 1024 } );
	check( s, mc::pick( { "*", "a*", "*a", "*x*z*", "*xyz", "xyz*", "a*b", "?*", "*?", "**", "*z*z*" } ) );
}
static const std::vector< string > alts = { "a", "a*", "*b", "?", "??", "ab", "*" , "b?" };
MC_SCENARIO( alternatives ) {
	int n = mc::range( 0, 3 ); string list; std::vector< string > used;
	int sepsel = mc::choose( 3 ); const char* sep = sepsel == 1 ? "," : sepsel == 2 ? " ;" : ";";
	for ( int i = 0; i < n; ++i ) { used.push_back( mc::pick( alts ) ); if ( i ) list += sepsel == 2 ? mc::pick( { ";", " " } ) : string( sep ); list += used.back(); }
	if ( mc::flip() ) list += sep[ 0 ]; // a trailing separator adds nothing
	string s = gen::str( "abc", 0, 3 );
	MC_STEP( "alternatives " << mc::show( list ) << " string " << mc::show( s ) );
	bool w = false; for ( auto& u : used ) w = w || ref_match( s, u );
	if ( sepsel == 0 ) {
		pattern_matcher m1( list.c_str() ), m2( list ); prop_node pn; pn.set( list ); pattern_matcher m3( pn );
		MC_EQ( m1( s ), w, "matcher( " << mc::show( list ) << " )( " << mc::show( s ) << " )" ); MC_EQ( m2( s ), w, "matcher from string" ); MC_EQ( m3( s ), w, "matcher from property" );
		MC_EQ( m1( &s ), w, "matcher on a pointer" );
	}
	else {
		pattern_matcher m1( list.c_str(), sep ), m2( list, sep );
		MC_EQ( m1( s ), w, "matcher( " << mc::show( list ) << ", " << mc::show( sep ) << " )( " << mc::show( s ) << " )" ); MC_EQ( m2( s ), w, "matcher from string" );
	}
	mc::state( list + '\1' + s ); mc::outcome( list + ( w ? "1" : "0" ) );
}
MC_SCENARIO( blanks_in_alternatives ) { // alternatives are taken as they are written
	string a = gen::str( "a *\t", 1, 3 ), b = gen::str( "b ", 1, 2 ), s = gen::str( "ab ", 0, 3 );
	MC_STEP( "alternatives " << mc::show( a + ";" + b ) << " string " << mc::show( s ) );
	bool w = ref_match( s, a ) || ref_match( s, b );
	pattern_matcher m( a + ";" + b ); prop_node pn; pn.set( a + ";" + b );
	MC_EQ( m( s ), w, "matcher( " << mc::show( a + ";" + b ) << " )( " << mc::show( s ) << " )" );
	MC_EQ( pattern_matcher( pn )( s ), w, "matcher from property" );
}
MC_SCENARIO( many_alternatives ) {
	int n = mc::pick( { 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1025 } ), k = mc::pick( { 0, 1, -1, -2, -3 } );
	string list; for ( int i = 0; i < n; ++i ) list += ( i ? ";n" : "n" ) + std::to_string( i ) + ( i % 2 ? "_" : "_*x" );
	int i = k < 0 ? n + k + 1 : k; // n itself is not in the list
	MC_STEP( n << " alternatives, string " << i );
	pattern_matcher m( list ); std::vector< string > v = { "none", "n" + std::to_string( n ) + "_x", "n" + std::to_string( i ) + ( i % 2 ? "_" : "_x" ) };
	MC_EQ( m( v[ 2 ] ), i < n, "matcher of " << n << " alternatives on " << v[ 2 ] );
	MC_CHECK( !m( v[ 0 ] ), "matcher of " << n << " alternatives matches none of them" );
	MC_EQ( size_t( m.find_match( v.begin(), v.end() ) - v.begin() ), i < n ? 2u : 3u, "find_match with " << n << " alternatives" );
	std::vector< string > l( n, "none" ); l[ std::min( i, n - 1 ) ] = "n1_"; MC_EQ( m.find_match( l.begin(), l.end() ) - l.begin(), std::min( i, n - 1 ), "find_match in " << n << " strings" );
}
MC_SCENARIO( no_patterns ) { pattern_matcher m; string s = gen::str( "ab", 0, 3 ); MC_STEP( "no patterns " << s ); MC_CHECK( !m( s ), "a matcher without patterns matches " << mc::show( s ) ); }
MC_SCENARIO( searching ) {
	string list = mc::pick( { "a", "*b;?", "b*", "", "c;?c" } );
	int n = mc::range( 0, 4 ); std::vector< string > v; for ( int i = 0; i < n; ++i ) v.push_back( mc::pick( { "a", "b", "ab", "c", "", "bc" } ) );
	MC_STEP( "find " << mc::show( list ) << " in " << mc::show( v ) );
	pattern_matcher m( list );
	size_t want = n; auto l = split_str( list, ";" );
	for ( int i = n - 1; i >= 0; --i ) for ( auto& p : l ) if ( ref_match( v[ i ], p ) ) want = i;
	MC_EQ( size_t( m.find_match( v.begin(), v.end() ) - v.begin() ), want, "find_match( " << mc::show( list ) << " ) in " << mc::show( v ) );
	mc::state( list + mc::show( v ) );
}
}
