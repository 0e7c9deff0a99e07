// C08 string hashes
// MC-BOUNDS: all strings of length <= 2 over all 255 non-NUL bytes (thorough: 3), all strings of length <= 8 (thorough 10) over 4 characters, lengths to 8192 with every fill byte; 20 literals evaluated at compile time
// MC-ORACLE: FNV-1a computed with unsigned bytes for 7-bit texts; agreement of all overloads for every text; the one-character recurrence
// MC-ASSUMES: NUL-terminated texts
#include "gen.hpp"
#include "flut/hash.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static uint64_t fnv( const string& s ) { uint64_t h = 14695981039346656037ull; for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return h; }
static void check( const string& s )
{
	MC_STEP( "hash " << mc::show( s ) );
	std::vector< char > exact( s.begin(), s.end() ); exact.push_back( 0 );
	uint64_t a = flut::hash( (const char*)exact.data() ), b = flut::hash( s ), c = hash_constexpr( exact.data() );
	MC_EQ( b, a, "overloads disagree on " << mc::show( s ) );
	MC_EQ( a, c, "run-time and compile-time hash of " << mc::show( s ) );
	MC_EQ( operator""_hash( s.c_str(), s.size() ), c, "literal hash of " << mc::show( s ) );
	bool ascii = true; for ( unsigned char ch : s ) ascii = ascii && ch < 128;
	if ( ascii ) MC_EQ( a, fnv( s ), "FNV-1a value of " << mc::show( s ) );
	if ( !s.empty() ) {
		uint64_t p = flut::hash( s.substr( 0, s.size() - 1 ) );
		MC_CHECK( a == ( p ^ (unsigned char)s.back() ) * 1099511628211ull || a == ( p ^ (uint64_t)(int64_t)(signed char)s.back() ) * 1099511628211ull, "hash of " << mc::show( s ) << " does not follow from its prefix" );
	}
	MC_EQ( flut::hash( s ), a, "hash is not a function" );
	MC_EQ( hash_constexpr( exact.data(), 12345 ), [&]{ uint64_t h = 12345; for ( char ch : s ) h = ( uint64_t( int64_t( ch ) ) ^ h ) * 1099511628211ull; return h; }(), "hash continued from a given value" );
	mc::state( s ); mc::outcome( a );
}
MC_SCENARIO_SPLIT( all_bytes, 2 ) { check( gen::str( gen::all_bytes( 1 ), 0, mc::bound( 2, 3 ) ) ); }
MC_SCENARIO( longer ) { check( gen::str( string( "a \x7f\x80", 4 ), 0, mc::bound( 8, 10 ) ) ); }
MC_SCENARIO_SPLIT( fills, 2 ) { int n = mc::pick( { 15, 16, 31, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 8192 } ); int b = mc::range( 1, 255 ); int k = mc::choose( 3 ); string s( n, char( b ) ); if ( k ) s[ k == 1 ? 0 : n - 1 ] = 'z'; check( s ); }
// values fixed at compile time
#define LIT( s_ ) { s_, std::integral_constant< uint64_t, hash_constexpr( s_ ) >::value, std::integral_constant< uint64_t, s_##_hash >::value }
struct lit { const char* s; uint64_t a, b; };
static const lit lits[] = { LIT( "" ), LIT( "a" ), LIT( "foobar" ), LIT( "hash" ), LIT( " " ), LIT( "\n" ), LIT( "\x7f" ), LIT( "\x80" ), LIT( "\xff" ), LIT( "0123456789" ), LIT( "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" ), LIT( "a=b" ), LIT( "\t\r" ), LIT( "caf\xc3\xa9" ), LIT( "::" ), LIT( "x.y" ), LIT( "%" ), LIT( "\\" ), LIT( "\"" ), LIT( "zz" ) };
MC_SCENARIO_SPLIT( literals, 1 ) {
	const lit& l = lits[ mc::choose( sizeof lits / sizeof *lits ) ];
	MC_STEP( "literal " << mc::show( l.s ) );
	MC_EQ( flut::hash( l.s ), l.a, "run-time and compile-time hash of the literal " << mc::show( l.s ) );
	MC_EQ( flut::hash( string( l.s ) ), l.b, "run-time hash and _hash literal of " << mc::show( l.s ) );
	check( l.s );
}
}
