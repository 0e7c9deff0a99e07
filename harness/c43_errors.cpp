// C43 error reporting: diagnostic statements and error codes
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp
// MC-BOUNDS: all 6 diagnostic statements x true/false condition x every message of at most 3 (thorough 4) characters over 8 characters and long messages x 7 surrounding statements (plain, both branches of if/else, loops, nested conditions) x number of evaluations; all sequences of at most 4 (thorough 5) operations on 2 error codes and a null error pointer over 4 codes and 4 messages
// MC-ORACLE: a hand-written trace of the statements each program executes; a pair (code, message) per error object
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/error_code.hpp"
#include "flut/string_tools.hpp"
namespace vh { // own names do not clash with names of the library
using std::string; using std::vector;
static int evals; static bool cond( bool b ) { ++evals; return b; }
struct Run { bool threw = false, typed = false; string what; vector< int > trace; };
#define VH_STMT( k_, c_, m_ ) VH_STMT_##k_( c_, m_ )
#define VH_STMT_0( c_, m_ ) flut_assert( cond( c_ ) )
#define VH_STMT_1( c_, m_ ) flut_assert_msg( cond( c_ ), m_ )
#define VH_STMT_2( c_, m_ ) flut_validate( cond( c_ ) )
#define VH_STMT_3( c_, m_ ) flut_validate_msg( cond( c_ ), m_ )
#define VH_STMT_4( c_, m_ ) flut_error_if( !cond( c_ ), m_ )
#define VH_CTX( k_ ) \
	static void context_##k_( int ctx, bool c, bool outer, const string& m, vector< int >& tr ) { \
		switch ( ctx ) { \
		case 0: tr.push_back( 1 ); VH_STMT( k_, c, m ); tr.push_back( 2 ); break; \
		case 1: if ( outer ) VH_STMT( k_, c, m ); else tr.push_back( 3 ); tr.push_back( 4 ); break; \
		case 2: if ( outer ) tr.push_back( 5 ); else VH_STMT( k_, c, m ); tr.push_back( 6 ); break; \
		case 3: for ( int i = 0; i < 3; ++i ) VH_STMT( k_, c || i < 2, m ); tr.push_back( 7 ); break; \
		case 4: if ( outer ) { VH_STMT( k_, c, m ); } else { tr.push_back( 8 ); } tr.push_back( 9 ); break; \
		case 5: { int i = 0; while ( i++ < 2 ) if ( i == 2 ) VH_STMT( k_, c, m ); else tr.push_back( 10 ); tr.push_back( 11 ); } break; \
		case 6: if ( outer ) if ( !outer ) tr.push_back( 12 ); else VH_STMT( k_, c, m ); else tr.push_back( 13 ); tr.push_back( 14 ); break; \
		} }
VH_CTX( 0 ) VH_CTX( 1 ) VH_CTX( 2 ) VH_CTX( 3 ) VH_CTX( 4 )
static void( *const contexts[] )( int, bool, bool, const string&, vector< int >& ) = { context_0, context_1, context_2, context_3, context_4 };
template< typename F > Run run( F f ) { Run r; try { f( r.trace ); } catch ( const flut::exception& e ) { r.threw = r.typed = true; r.what = e.what(); const std::runtime_error& base = e; if ( base.what() != r.what ) r.typed = false; } catch ( const std::exception& e ) { r.threw = true; r.what = e.what(); } return r; }
static void program( const string& msg ) {
	int k = mc::choose( 5 ), ctx = mc::choose( 7 ); bool c = mc::flip(), outer = mc::flip(); MC_STEP( "statement " << k << " in context " << ctx << " condition " << c << " outer " << outer << " message " << mc::show( msg ) );
	vector< int > want; int ev = 0; bool thr = false; auto stmt = [&]( bool b ) { if ( !thr ) { ++ev; if ( !b ) thr = true; } }; auto mark = [&]( int i ) { if ( !thr ) want.push_back( i ); };
	switch ( ctx ) {
	case 0: mark( 1 ); stmt( c ); mark( 2 ); break; case 1: if ( outer ) { stmt( c ); } else { mark( 3 ); } mark( 4 ); break; case 2: if ( outer ) { mark( 5 ); } else { stmt( c ); } mark( 6 ); break; case 3: stmt( true ); stmt( true ); stmt( c ); mark( 7 ); break;
	case 4: if ( outer ) { stmt( c ); } else { mark( 8 ); } mark( 9 ); break; case 5: mark( 10 ); stmt( c ); mark( 11 ); break; case 6: if ( outer ) { stmt( c ); } else { mark( 13 ); } mark( 14 ); break; }
	evals = 0; Run r = run( [&]( vector< int >& tr ) { contexts[ k ]( ctx, c, outer, msg, tr ); } );
	MC_EQ( r.threw, thr, "diagnostic statement raised an exception" ); MC_EQ( r.trace, want, "statements executed around the diagnostic statement" ); MC_EQ( evals, ev, "evaluations of the condition" );
	if ( thr ) {
		MC_CHECK( r.typed, "exception is not a flut::exception" ); string fn = "context_" + std::to_string( k );
		if ( k == 4 ) MC_EQ( r.what, msg, "message of the exception" );
		else { MC_CHECK( r.what.find( fn ) != string::npos, "message '" << r.what << "' does not name the function " << fn ); MC_CHECK( r.what.find( "cond( c" ) != string::npos, "message '" << r.what << "' does not show the condition" ); MC_CHECK( r.what.find( k < 2 ? "Assertion" : "Validation" ) != string::npos, "message '" << r.what << "' does not tell what failed" ); if ( k % 2 == 1 ) MC_CHECK( r.what.find( msg ) != string::npos, "message '" << r.what << "' does not contain '" << msg << "'" ); }
	}
	mc::state( msg + char( k ) + char( ctx ) + char( c * 2 + outer ) ); mc::outcome( r.what );
}
MC_SCENARIO_SPLIT( diagnostics, 3 ) { program( gen::str( "a%s\"\\ \n{", 0, mc::bound( 3, 4 ) ) ); }
MC_SCENARIO_SPLIT( long_messages, 3 ) { program( gen::long_str( "x%", { "", "\n", "%s%n" }, { 15, 16, 255, 256, 1023, 1024, 5000 } ) ); }
MC_SCENARIO( unconditional ) {
	string msg = mc::flip() ? gen::str( "a%s\"\\ \n{", 0, 3 ) : gen::long_str( "x%", { "", "\n", "%s%n" }, { 15, 16, 255, 256, 1023, 1024, 5000 } ); int kind = mc::choose( 4 ); MC_STEP( "unconditional error " << kind << " " << mc::show( msg ) ); Run r = run( [&]( vector< int >& tr ) { tr.push_back( 1 ); if ( kind == 0 ) flut_error( msg ); if ( kind == 1 ) flut_error( msg.c_str() ); if ( kind == 2 ) FLUT_NOT_IMPLEMENTED if ( kind == 3 ) throw flut::exception( msg ); tr.push_back( 2 ); } );
	MC_CHECK( r.threw && r.typed, "error not raised as flut::exception" ); MC_EQ( r.trace, vector< int >{ 1 }, "statements executed" ); if ( kind != 2 ) MC_EQ( r.what, msg, "message" ); else MC_CHECK( r.what.find( "not implemented" ) != string::npos, "message '" << r.what << "'" );
	mc::state( msg + char( kind ) ); mc::outcome( r.what );
}
MC_SCENARIO_SPLIT( error_codes, 3 ) {
	struct E { int code; string msg; }; static const vector< int > codes = { 0, 1, -1, 100000 }; static const vector< string > msgs = { "", "a", "no such file", string( 300, 'q' ) };
	int how = mc::choose( 4 ); flut::error_code e[ 2 ]; E m[ 2 ] = { { 0, "" }, { 0, "" } };
	if ( how == 1 ) { e[ 0 ] = flut::no_error(); } if ( how == 2 ) { e[ 0 ] = flut::error( "bad" ); m[ 0 ] = { -1, "bad" }; } if ( how == 3 ) { e[ 0 ] = flut::error_code( 7, "seven" ); m[ 0 ] = { 7, "seven" }; }
	int n = mc::range( 0, mc::bound( 3, 4 ) ); string h = std::to_string( how ); auto look = [&] { for ( int i = 0; i < 2; ++i ) { MC_EQ( e[ i ].code(), m[ i ].code, "code of " << i ); MC_EQ( e[ i ].message(), m[ i ].msg, "message of " << i ); MC_EQ( e[ i ].ok(), m[ i ].code == 0, "ok() of " << i ); MC_EQ( e[ i ].error(), m[ i ].code != 0, "error() of " << i ); } }; look();
	for ( int s = 0; s < n; ++s ) {
		int op = mc::choose( 5 ); h += char( '0' + op );
		if ( op == 0 ) { int i = mc::choose( 2 ), c = mc::pick( codes ); const string& x = mc::pick( msgs ); MC_STEP( "set " << i << " " << c << " " << x ); auto& r = e[ i ].set( c, x ); MC_CHECK( &r == &e[ i ], "set() returns another object" ); m[ i ] = { c, x }; h += std::to_string( i ) + std::to_string( c ) + x; }
		else if ( op == 1 ) { int i = mc::choose( 2 ), c = mc::pick( codes ); MC_STEP( "set " << i << " " << c ); e[ i ].set( c ); m[ i ] = { c, "" }; h += std::to_string( i ) + std::to_string( c ); }
		else if ( op == 2 ) { int i = mc::choose( 2 ); const string& x = mc::pick( msgs ); MC_STEP( "try_set_error " << i << " " << x ); MC_CHECK( flut::try_set_error( &e[ i ], x ), "error not accepted" ); m[ i ] = { -1, x }; h += std::to_string( i ) + x; }
		else if ( op == 3 ) { MC_STEP( "try_set_error without object" ); MC_CHECK( !flut::try_set_error( nullptr, "lost" ), "error reported as delivered although nobody receives it" ); }
		else { int i = mc::choose( 2 ); MC_STEP( "copy to " << i ); e[ i ] = e[ 1 - i ]; m[ i ] = m[ 1 - i ]; h += std::to_string( i ); }
		look();
	}
	mc::state( h ); mc::outcome( m[ 0 ].msg + "|" + m[ 1 ].msg );
}
}
