// C09 version numbers
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all combinations of 9 magnitudes for each of the four numbers (including 0 and the largest int) x 15 suffixes (none, words, several words, digits, leading digit, dots, long)
// MC-ORACLE: identity of all five parts; text form assembled independently
// MC-ASSUMES: numbers are not negative; a suffix neither begins nor ends with a blank and has no line break; an object that is overwritten byte-wise before parsing shows parts that were left undefined
#include "gen.hpp"
#include "flut/system/version.hpp"
#undef major
#undef minor
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static void same( const version& v, int a, int b, int c, int d, const string& p, const string& what )
{
	MC_EQ( v.major, a, what << ": major" ); MC_EQ( v.minor, b, what << ": minor" ); MC_EQ( v.patch, c, what << ": patch" );
	MC_EQ( v.build, d, what << ": build" ); MC_EQ( v.postfix, p, what << ": suffix" );
}
MC_SCENARIO_SPLIT( round_trip, 3 ) {
	const std::vector< int > m = { 0, 1, 2, 9, 10, 99, 100, 65536, 2147483647 };
	int a = mc::pick( m ), b = mc::pick( m ), c = mc::pick( m ), d = mc::pick( m );
	string p = mc::pick( { "", "beta", "rc1", "1", "2b", "x.y", "-", "(alpha)", "0", "averylongsuffixthatdoesnotfitinasmallbuffer", "beta 2", "release candidate 3", "a  b", "1 2", "x .5 y" } );
	version v( a, b, c, d, p );
	same( v, a, b, c, d, p, "constructed version" );
	string want = std::to_string( a ) + "." + std::to_string( b ) + "." + std::to_string( c ) + ( d > 0 ? "." + std::to_string( d ) : "" ) + ( p.empty() ? "" : " " + p );
	string s = v.to_str();
	MC_STEP( "version " << s );
	MC_EQ( s, want, "text form" );
	std::ostringstream o; o << v; MC_EQ( o.str(), want, "streamed form" );
	for ( int fill : { 0, 0xbe } ) { // parsed into dirty memory: nothing may be left undefined
		alignas( version ) unsigned char mem[ sizeof( version ) ]; memset( mem, fill, sizeof mem );
		version* r = new ( mem ) version( s );
		struct guard { version* r; ~guard() { r->~version(); } } g{ r };
		same( *r, a, b, c, d, p, "parsed from " + mc::show( s ) );
		MC_EQ( r->to_str(), s, "text form of the parsed version" );
	}
	mc::state( s ); mc::outcome( s );
}
MC_SCENARIO_SPLIT( defaults, 2 ) {
	int a = mc::pick( { 0, 1, 10 } ), b = mc::pick( { 0, 2 } ), c = mc::pick( { 0, 3, 12 } ); bool bld = mc::flip();
	version v = bld ? version( a, b, c, 4 ) : version( a, b, c );
	MC_STEP( "version " << v.to_str() );
	same( v, a, b, c, bld ? 4 : 0, "", "defaulted parts" );
	version w( v.to_str() ); same( w, a, b, c, bld ? 4 : 0, "", "parsed from " + v.to_str() );
}
}
