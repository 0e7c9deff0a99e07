// C04 splitting, trimming, slicing, affixes
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all strings of length <= 7 (thorough 9) over 5 characters x 4 separator / trim sets; all pairs of strings of length <= 7 and <= 4 over 2 characters for affixes and search (every start position); all slice counts -8..8 and positions; lists of 16..10001 parts and slices and affixes of 15..100001 characters around powers of two; all identifiers of length <= 7 (8) over m _ : a
// MC-ORACLE: character-by-character definitions
// MC-ASSUMES: separator sets contain no NUL; mid_str starts inside the string
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static bool in( const string& set, char c ) { for ( char x : set ) if ( x == c ) return true; return false; }
static string ref_trim( const string& s, const string& set, bool left, bool right ) {
	size_t b = 0, e = s.size();
	if ( right ) while ( e > b && in( set, s[ e - 1 ] ) ) --e;
	if ( left ) while ( b < e && in( set, s[ b ] ) ) ++b;
	string r; for ( size_t i = b; i < e; ++i ) r += s[ i ]; return r;
}
static const string WS = " \t\r\n\f\v";

static void laws( const string& s )
{
	const string sep = mc::pick( { ";", ";, ", "=", "a" } );
	MC_STEP( "string " << mc::show( s ) << " separators " << mc::show( sep ) );
	string copy = s;
	std::vector< string > want; string cur; bool have = false;
	for ( char c : s ) { if ( in( sep, c ) ) { if ( have ) want.push_back( cur ); cur.clear(); have = false; } else { cur += c; have = true; } }
	if ( have ) want.push_back( cur );
	auto got = split_str( s, sep );
	MC_EQ( got, want, "split_str( " << mc::show( s ) << ", " << mc::show( sep ) << " )" );

	MC_EQ( trim_str( s ), ref_trim( s, WS, true, true ), "trim_str( " << mc::show( s ) << " )" );
	MC_EQ( trim_str( s, sep.c_str() ), ref_trim( s, sep, true, true ), "trim_str( " << mc::show( s ) << ", " << mc::show( sep ) << " )" );
	MC_EQ( trim_right_str( s ), ref_trim( s, WS, false, true ), "trim_right_str( " << mc::show( s ) << " )" );
	MC_EQ( trim_right_str( s, sep.c_str() ), ref_trim( s, sep, false, true ), "trim_right_str( " << mc::show( s ) << ", " << mc::show( sep ) << " )" );

	size_t first = s.size(), last = s.size(); bool any = false;
	for ( size_t i = 0; i < s.size(); ++i ) if ( in( sep, s[ i ] ) ) { if ( !any ) first = i; last = i; any = true; }
	string l, r; for ( size_t i = 0; i < first; ++i ) l += s[ i ];
	for ( size_t i = any ? last + 1 : 0; i < s.size(); ++i ) r += s[ i ];
	MC_EQ( left_of_str( s, sep ), l, "left_of_str( " << mc::show( s ) << ", " << mc::show( sep ) << " )" );
	MC_EQ( right_of_str( s, sep ), r, "right_of_str( " << mc::show( s ) << ", " << mc::show( sep ) << " )" );

	auto kv = make_key_value_str( s, sep );
	string v; for ( size_t i = first + 1; i < s.size(); ++i ) v += s[ i ];
	if ( any ) {
		MC_EQ( kv.first, ref_trim( l, WS, true, true ), "key of " << mc::show( s ) );
		MC_EQ( kv.second, ref_trim( v, WS, true, true ), "value of " << mc::show( s ) );
	}
	else {
		MC_EQ( ref_trim( kv.first, WS, true, true ), ref_trim( s, WS, true, true ), "key of " << mc::show( s ) << " without separator" );
		MC_EQ( kv.second, string(), "value of " << mc::show( s ) << " without separator" );
	}
	if ( sep == "=" ) { auto kd = make_key_value_str( s ); MC_CHECK( kd == kv, "default key/value separator of " << mc::show( s ) ); }
	MC_EQ( s, copy, "input changed" );
	mc::state( s + '\1' + sep ); mc::outcome( mc::show( got ) + kv.first + '\1' + kv.second );
}
MC_SCENARIO( split_and_trim ) { laws( gen::str( "ab;, =", 0, mc::bound( 6, 7 ) ) ); }
MC_SCENARIO( blanks ) { laws( gen::str( " \ta\n\r;\f\v", 0, mc::bound( 5, 6 ) ) ); }
MC_SCENARIO( other_bytes ) { laws( gen::str( string( "\x80\xff a;\x01", 6 ), 0, mc::bound( 5, 6 ) ) ); }
MC_SCENARIO( null_bytes ) { laws( gen::str( string( "a\0; =", 5 ), 0, mc::bound( 6, 7 ) ) ); }
MC_SCENARIO( many_parts ) { // numbers of parts and lengths of parts beyond any buffer
	int n = mc::pick( { 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10001 } ); string sp = mc::pick( { ";", ";;", "; ", "=", ",;" } ); int ends = mc::choose( 4 ); string s; if ( ends & 1 ) s += sp; for ( int i = 0; i < n; ++i ) { if ( i ) s += sp; s += "p" + std::to_string( i ); } if ( ends & 2 ) s += sp; laws( s );
}
MC_SCENARIO( long_slices ) { // counts and affixes of long strings
	int len = mc::pick( { 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100001 } ); string s; for ( int i = 0; i < len; ++i ) s += char( 'a' + ( i * 7 + i / 26 ) % 26 ); MC_STEP( "slices of " << len << " characters" );
	for ( int n : { 0, 1, 2, 15, 16, 17, 40, 41, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4096, 32767, 32768, 65535, 65536, len / 2, len - 1, len, len + 1, 2147483647 } ) {
		size_t k = std::min( n, len ), r = len - k; auto eq = [&]( const string& g, size_t from, size_t cnt, const char* what ) { MC_CHECK( g.size() == cnt && std::equal( g.begin(), g.end(), s.begin() + from ), what << " of " << n << " of " << len << " characters gives " << g.size() << " characters" ); }; mc::step();
		eq( left_str( s, n ), 0, k, "left_str" ); eq( left_str( s, -n ), 0, n ? r : 0, "left_str without" ); eq( right_str( s, n ), r, k, "right_str" ); eq( right_str( s, -n ), n ? k : len, n ? r : 0, "right_str without" ); eq( mid_str( s, k ), k, r, "mid_str" ); eq( mid_str( s, k, 3 ), k, std::min< size_t >( r, 3 ), "mid_str" );
		string head = s.substr( 0, k ), tail = s.substr( r ); MC_CHECK( str_begins_with( s, head ) && str_ends_with( s, tail ), "affix of " << k << " characters" ); MC_EQ( in_str( s, tail ), s.find( tail ), "in_str" ); if ( k ) { for ( size_t p : { size_t( 0 ), k / 2, k - 1 } ) { string h2 = head, t2 = tail; h2[ p ] = '#'; t2[ p ] = '#'; MC_CHECK( !str_begins_with( s, h2 ) && !str_ends_with( s, t2 ), "affix of " << k << " characters that differs at " << p ); MC_EQ( in_str( s, h2 ), string::npos, "in_str" ); } MC_CHECK( !str_begins_with( head, head + "x" ) && !str_ends_with( tail, "x" + tail ), "affix longer than the string" ); }
	} mc::state( uint64_t( len ) ); mc::outcome( uint64_t( len ) );
}
MC_SCENARIO( long_text ) { laws( gen::long_str( "a; =\n", { "", "a", ";", "=", " = ", "; ", "ab" }, { 14, 15, 16, 17, 31, 32, 255, 256, 257, 1024, 1025, 4096, 4097 } ) ); }

MC_SCENARIO( slices ) {
	string s = gen::str( "abc", 0, mc::bound( 6, 7 ) );
	int n = mc::range( -8, 8 ), len = int( s.size() );
	MC_STEP( "slice " << mc::show( s ) << " " << n );
	string l, r, m;
	int keep = n >= 0 ? std::min( n, len ) : std::max( 0, len + n );
	for ( int i = 0; i < keep; ++i ) l += s[ i ];
	MC_EQ( left_str( s, n ), l, "left_str( " << mc::show( s ) << ", " << n << " )" );
	{
		int from = n >= 0 ? std::max( len - n, 0 ) : std::min( -n, len );
		for ( int i = from; i < len; ++i ) r += s[ i ];
		MC_EQ( right_str( s, n ), r, "right_str( " << mc::show( s ) << ", " << n << " )" );
	}
	for ( int pos = 0; pos <= len; ++pos ) {
		m.clear(); for ( int i = pos; i < len; ++i ) m += s[ i ];
		MC_EQ( mid_str( s, pos ), m, "mid_str( " << mc::show( s ) << ", " << pos << " )" );
		if ( n >= 0 ) MC_EQ( mid_str( s, pos, n ), m.substr( 0, n ), "mid_str( " << mc::show( s ) << ", " << pos << ", " << n << " )" );
	}
	mc::state( s + std::to_string( n ) );
}
MC_SCENARIO( affixes ) {
	string s = gen::str( "ab", 0, mc::bound( 8, 10 ) ), x = gen::str( "ab", 0, mc::bound( 4, 5 ) );
	MC_STEP( "affix " << mc::show( x ) << " of " << mc::show( s ) );
	auto at = [&]( size_t p ) { if ( p + x.size() > s.size() ) return false; for ( size_t i = 0; i < x.size(); ++i ) if ( s[ p + i ] != x[ i ] ) return false; return true; };
	MC_EQ( str_begins_with( s, x ), at( 0 ), "str_begins_with( " << mc::show( s ) << ", " << mc::show( x ) << " )" );
	MC_EQ( str_ends_with( s, x ), s.size() >= x.size() && at( s.size() - x.size() ), "str_ends_with( " << mc::show( s ) << ", " << mc::show( x ) << " )" );
	for ( size_t p = 0; p <= s.size() + 1; ++p ) {
		size_t want = string::npos;
		for ( size_t i = p; i + x.size() <= s.size(); ++i ) if ( at( i ) ) { want = i; break; }
		MC_EQ( in_str( s, x, p ), want, "in_str( " << mc::show( s ) << ", " << mc::show( x ) << ", " << p << " )" );
		if ( p == 0 ) MC_EQ( in_str( s, x ), want, "in_str( " << mc::show( s ) << ", " << mc::show( x ) << " )" );
	}
	mc::state( s + '\1' + x );
}
MC_SCENARIO( identifiers ) {
	string s = gen::str( "m_:a", 0, mc::bound( 7, 8 ) );
	MC_STEP( "identifier " << mc::show( s ) );
	string want = s; size_t c = string::npos; for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == ':' ) c = i;
	if ( c != string::npos ) want = ref_trim( s.substr( c + 1 ), "_", true, true );
	else if ( s.size() >= 2 && s[ 0 ] == 'm' && s[ 1 ] == '_' ) want = ref_trim( s.substr( 2 ), "_", false, true );
	else want = ref_trim( s, "_", true, true );
	MC_EQ( tidy_identifier( s ), want, "tidy_identifier( " << mc::show( s ) << " )" );
	mc::state( s ); mc::outcome( want );
}
}
