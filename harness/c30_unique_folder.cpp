// C30 unique folders under concurrency
// MC-SOURCES: flut/filesystem.cpp flut/system/path.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-FLAGS: -std=c++17
// MC-TECHNIQUE: stateless model checking of the real code under a controlled scheduler: all interleavings of the intercepted file system calls of concurrent callers on a real scratch folder, with an adversary process and injected creation failures
// MC-BOUNDS: 2 callers, all interleavings, with every combination of the first two names being free, a folder or a file, 1..3 allowed attempts, existing or missing parent folders; 2 callers and up to 2 creations by another process at any point; 2 callers with up to 2 failing creations; 3 callers with at most 2 (quick) or 3 (thorough) preemptions; 1 caller with every set of the first four names taken and 1..5 attempts for 13 base names (counters, brackets, percent signs, dots, 200 characters); 1 caller with up to 1001 names taken; up to 30 requests in a row with up to 990 names taken
// MC-ORACLE: recorded creations, returned names and the final state of the scratch folder
// MC-ASSUMES: callers interact only through the file system; schedule points are the file system calls
#include "gen.hpp"
#include "sched.hpp"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <errno.h>
#include "flut/system/assert.hpp"
#include "flut/filesystem.hpp"
#include "flut/string_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;

static int fails_left = 0; static vector< string > adversary; static bool faulted = false; static string* log_of_faults = nullptr; static int fault_choice = 0;
static vector< int > fault_at; static int mkdir_no = 0;
// --- intercepted file system calls: schedule points, then the real call
extern "C" int stat( const char* p, struct stat* s ) noexcept { sched::point( "stat" ); return int( syscall( SYS_newfstatat, AT_FDCWD, p, s, 0 ) ); }
extern "C" int lstat( const char* p, struct stat* s ) noexcept { sched::point( "lstat" ); return int( syscall( SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW ) ); }
extern "C" int stat64( const char* p, struct stat64* s ) noexcept { sched::point( "stat" ); return int( syscall( SYS_newfstatat, AT_FDCWD, p, s, 0 ) ); }
extern "C" int access( const char* p, int m ) noexcept { sched::point( "access" ); return int( syscall( SYS_faccessat, AT_FDCWD, p, m ) ); }
extern "C" int mkdir( const char* p, mode_t m ) noexcept {
	sched::point( "mkdir" ); int k = mkdir_no++;
	if ( std::find( fault_at.begin(), fault_at.end(), k ) != fault_at.end() ) { faulted = true; if ( mc::tracing() ) mc::note( string( "  creating " ) + p + " fails" ); errno = ENOSPC; return -1; }
	int r = int( syscall( SYS_mkdirat, AT_FDCWD, p, m ) ); if ( mc::tracing() ) { int e = errno; mc::note( string( "  mkdir " ) + p + ( r ? " fails" : " succeeds" ) ); errno = e; } return r;
}
extern "C" int rmdir( const char* p ) noexcept { sched::point( "rmdir" ); return int( syscall( SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR ) ); }

static string root; static vector< string > to_remove;
static bool is_dir( const string& p ) { struct stat s; return syscall( SYS_newfstatat, AT_FDCWD, p.c_str(), &s, 0 ) == 0 && S_ISDIR( s.st_mode ); }
static bool there( const string& p ) { struct stat s; return syscall( SYS_newfstatat, AT_FDCWD, p.c_str(), &s, 0 ) == 0; }
static ino_t ino( const string& p ) { struct stat s; return syscall( SYS_newfstatat, AT_FDCWD, p.c_str(), &s, 0 ) == 0 ? s.st_ino : 0; }
static vector< string > listing( const string& d ) { vector< string > r; if ( DIR* h = opendir( d.c_str() ) ) { while ( auto e = readdir( h ) ) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) ) r.push_back( e->d_name ); closedir( h ); } std::sort( r.begin(), r.end() ); return r; }
static void wipe( const string& d ) { for ( auto& n : listing( d ) ) { string p = d + "/" + n; if ( is_dir( p ) ) { wipe( p ); syscall( SYS_unlinkat, AT_FDCWD, p.c_str(), AT_REMOVEDIR ); } else syscall( SYS_unlinkat, AT_FDCWD, p.c_str(), 0 ); } }
static void make_dir( const string& p ) { syscall( SYS_mkdirat, AT_FDCWD, p.c_str(), 0777 ); }
static void make_file( const string& p ) { FILE* f = fopen( p.c_str(), "w" ); if ( f ) { fputs( "kept", f ); fclose( f ); } }
static string fresh() { root = "sc." + std::to_string( getpid() ); make_dir( root ); wipe( root ); adversary.clear(); fault_at.clear(); faulted = false; mkdir_no = 0; return root; }

struct result { bool ok = false; string path, error; };
static bool counter_of( const string& name, const string& base, int& k ) { // name is base, or base with a counter
	if ( name == base ) { k = 0; return true; }
	if ( name.compare( 0, base.size(), base ) ) return false;
	string d; for ( char c : name.substr( base.size() ) ) { if ( isdigit( c ) ) d += c; else if ( !strchr( " ()_-", c ) ) return false; } if ( d.empty() || d.size() > 4 ) return false; k = atoi( d.c_str() ); return true;
}
static void explore( int callers, int attempts, const string& base, vector< int > kinds /* per candidate: 0 free 1 folder 2 file */, int preemptions, int env_steps ) {
	auto cand = [&]( int k ) { return k ? base + " (" + std::to_string( k ) + ")" : base; };
	vector< ino_t > before; for ( size_t i = 0; i < kinds.size(); ++i ) { if ( kinds[ i ] == 1 ) { make_dir( cand( i ) ); make_file( cand( i ) + "/mark" ); } else if ( kinds[ i ] == 2 ) make_file( cand( i ) ); before.push_back( ino( cand( i ) ) ); }
	vector< result > res( callers ); vector< std::function< void() > > jobs;
	for ( int i = 0; i < callers; ++i ) jobs.push_back( [&, i] { try { res[ i ].path = create_unique_folder( path( base ), attempts ).str(); res[ i ].ok = true; } catch ( std::exception& e ) { res[ i ].error = e.what(); } catch ( ... ) { res[ i ].error = "unknown exception"; } } );
	string tr = sched::run( jobs, preemptions, [&] { int k = mc::choose( 2 ); string p = cand( k ); string d = p.substr( 0, p.rfind( '/' ) ); if ( !is_dir( d ) ) make_dir( d ); if ( syscall( SYS_mkdirat, AT_FDCWD, p.c_str(), 0777 ) == 0 ) { adversary.push_back( p ); MC_STEP( "another process creates " << p ); } }, env_steps );
	string out; int nok = 0;
	for ( int i = 0; i < callers; ++i ) {
		auto& r = res[ i ];
		if ( r.ok ) {
			++nok; int k = 0; MC_CHECK( is_dir( r.path ), "caller " << i << " was given " << r.path << ", which does not exist" );
			MC_CHECK( counter_of( r.path, base, k ), "caller " << i << " was given " << r.path << " for base name " << base );
			for ( int j = 0; j < i; ++j ) MC_CHECK( !res[ j ].ok || res[ j ].path != r.path, "callers " << j << " and " << i << " were both given " << r.path );
			for ( size_t j = 0; j < kinds.size(); ++j ) MC_CHECK( !kinds[ j ] || r.path != cand( j ), "caller " << i << " was given " << r.path << ", which existed before" );
			MC_CHECK( std::find( adversary.begin(), adversary.end(), r.path ) == adversary.end(), "caller " << i << " was given " << r.path << ", which another process created" );
			MC_CHECK( listing( r.path ).empty(), "folder " << r.path << " is not empty" ); MC_CHECK( k < attempts, "counter " << k << " with " << attempts << " attempts" );
			out += r.path.substr( r.path.rfind( '/' ) ) + ";";
		}
		else {
			if ( !faulted ) for ( int k = 0; k < attempts; ++k ) MC_CHECK( there( cand( k ) ), "caller " << i << " failed (" << r.error << ") although " << cand( k ) << " was free" );
			out += "fail;";
		}
	}
	for ( size_t i = 0; i < kinds.size(); ++i ) if ( kinds[ i ] ) { MC_EQ( ino( cand( i ) ), before[ i ], "pre-existing " << cand( i ) << " replaced" ); if ( kinds[ i ] == 1 ) MC_CHECK( listing( cand( i ) ) == vector< string >{ "mark" }, "contents of pre-existing " << cand( i ) << " changed" ); else MC_CHECK( !is_dir( cand( i ) ), "pre-existing file replaced" ); }
	// nothing but the folders returned, created by the adversary or present before
	string dir = base.substr( 0, base.rfind( '/' ) ); int extra = 0; for ( auto& n : listing( dir ) ) { string p = dir + "/" + n; bool known = false; for ( auto& r : res ) known |= r.ok && r.path == p; for ( size_t j = 0; j < kinds.size(); ++j ) known |= kinds[ j ] && cand( j ) == p; for ( auto& a : adversary ) known |= a == p; extra += !known; }
	MC_CHECK( extra == 0, extra << " folders were created that no caller received" );
	mc::state( tr + out ); mc::outcome( out );
}
MC_SCENARIO_SPLIT( two_callers, 6 ) {
	int at = mc::range( 1, mc::bound( 3, 4 ) ); vector< int > k; for ( int i = 0; i < std::min( at, 2 ); ++i ) k.push_back( mc::choose( 3 ) );
	fresh(); MC_STEP( "two callers, " << at << " attempts, existing " << mc::show( k ) ); explore( 2, at, root + "/u", k, 99, 0 );
}
MC_SCENARIO_SPLIT( two_callers_missing_parent, 6 ) {
	int depth = mc::range( 1, mc::bound( 1, 2 ) ); fresh(); MC_STEP( "two callers, " << depth << " missing parents" ); explore( 2, 2, root + ( depth == 2 ? "/p/q/u" : "/p/u" ), {}, mc::bound( 4, 6 ), 0 );
}
MC_SCENARIO_SPLIT( other_process, 6 ) {
	int at = mc::range( 1, 3 ), steps = mc::range( 1, 2 ), n = mc::range( 1, 2 ); fresh(); MC_STEP( n << " callers and another process, " << at << " attempts" ); explore( n, at, root + "/u", {}, n == 1 ? 99 : mc::bound( 3, 5 ), steps );
}
MC_SCENARIO_SPLIT( failing_creation, 6 ) {
	int at = mc::range( 1, 3 ), n = mc::range( 1, 2 ); fresh(); int a = mc::range( -1, 4 ), b = mc::range( -1, 4 ); if ( b <= a && !( a == -1 && b == -1 ) ) mc::discard(); for ( int x : { a, b } ) if ( x >= 0 ) fault_at.push_back( x );
	MC_STEP( n << " callers, creations " << a << " and " << b << " fail" ); explore( n, at, root + "/u", {}, n == 1 ? 99 : mc::bound( 3, 6 ), 0 );
}
MC_SCENARIO_SPLIT( three_callers, 6 ) {
	int at = mc::range( 2, mc::bound( 3, 4 ) ); vector< int > k; k.push_back( mc::choose( 2 ) ); fresh(); MC_STEP( "three callers, " << at << " attempts" ); explore( 3, at, root + "/u", k, mc::bound( 2, 3 ), 0 );
}
MC_SCENARIO_SPLIT( one_caller, 3 ) {
	int at = mc::range( 0, 5 ); vector< int > k; for ( int i = 0; i < 4; ++i ) k.push_back( mc::choose( 3 ) ); static const char* const names[] = { "/u", "/a name", "/v1.2", "/run (1)", "/run (7) b", "/x (", "/%d", "/50% (2)", "/(3)", "/9", "/.n", "/\xc3\xa9", "/LLL" }; int where = mc::choose( 13 ); fresh(); string base = root + ( where == 12 ? "/" + string( 200, 'n' ) : names[ where ] );
	MC_STEP( "one caller, " << at << " attempts, existing " << mc::show( k ) ); explore( 1, at, base, k, 0, 0 );
}
MC_SCENARIO_SPLIT( many_taken, 3 ) {
	int taken = mc::pick( { 8, 9, 10, 11, 12, 31, 32, 33, 99, 100, 101, 128, 255, 256, 257, 999, 1000, 1001 } ), kind = mc::choose( 3 ), room = mc::choose( 4 ), gap = mc::choose( 3 ); fresh(); vector< int > k( taken ); for ( int i = 0; i < taken; ++i ) k[ i ] = kind < 2 ? 1 + kind : 1 + i % 2; if ( gap ) k[ gap == 1 ? taken - 2 : taken / 2 ] = 0; int at = room == 0 ? taken : room == 1 ? taken + 1 : room == 2 ? taken - 1 : 9999; MC_STEP( taken << " names taken, " << at << " attempts, gap " << gap ); explore( 1, at, root + "/u", k, 0, 0 ); fresh();
}
MC_SCENARIO_SPLIT( repeated_requests, 1 ) { // one caller asking again and again
	int taken = mc::pick( { 0, 5, 95, 250, 990 } ), n = mc::pick( { 12, 30 } ), room = mc::choose( 2 ); fresh(); string base = root + "/u"; int at = room ? 9999 : taken + n; vector< string > seen; for ( int i = 0; i < taken; ++i ) { seen.push_back( i ? base + " (" + std::to_string( i ) + ")" : base ); make_dir( seen.back() ); } MC_STEP( n << " requests in a row with " << taken << " names taken, " << at << " attempts" );
	for ( int i = 0; i < n; ++i ) { string p; try { p = create_unique_folder( path( base ), at ).str(); } catch ( std::exception& e ) { mc::fail( "request " + std::to_string( i ) + " with " + std::to_string( seen.size() ) + " names taken of " + std::to_string( at ) + " failed: " + e.what() ); } int k; MC_CHECK( is_dir( p ) && counter_of( p, base, k ), "request " << i << " was given " << p ); MC_CHECK( std::find( seen.begin(), seen.end(), p ) == seen.end(), "request " << i << " was given " << p << " again" ); seen.push_back( p ); }
	if ( !room ) MC_CHECK( MC_THROWS( create_unique_folder( path( base ), at ) ), "a request without available name succeeded" ); MC_EQ( listing( root ).size(), seen.size(), "folders" ); fresh(); mc::state( uint64_t( taken * 100 + n + room ) );
}
}
