// C29 durability of file sinks
// MC-SOURCES: flut/system/log.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/filesystem.cpp flut/system_tools.cpp
// MC-TECHNIQUE: exhaustive crash-point and write-fault enumeration on the real code: the write system calls of the sink are intercepted, every prefix of every write is a crash state, and every pattern of short, interrupted and failing writes up to a bound is injected
// MC-BOUNDS: all histories of at most 4 messages (quick; 5 thorough) over 6 texts (empty, short, multi-line, 200, 9000 and 40000 bytes) and accepted or filtered level to one or two sinks, with at most 2 (quick) or 3 (thorough) faults out of short write by one byte, by half, all but one byte, interruption, disk full and I/O error at any write; every crash point of every history of at most 2 messages repeated with a real SIGKILL of a child process; histories of up to 1500 (thorough 5000) messages; sinks on existing files of 6 sizes
// MC-ORACLE: the file must hold all messages whose call returned plus a prefix of the message in progress, checked on the real file before and after every write system call and after every call
// MC-ASSUMES: a failing write keeps failing (disk full); text is durable against process death once the kernel has it
#include "gen.hpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <errno.h>
#include "flut/system/assert.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;

static bool active = false, broken = false; static int faults = 0, max_faults = 0, calls = 0; static ino_t inode[ 2 ]; static int kill_call = -1; static size_t kill_byte = 0; static bool observe_only = false; static string bad;
static std::function< void( const char* ) > at_point;
static string slurp( const char* f ) { string r; int fd = int( syscall( SYS_openat, AT_FDCWD, f, O_RDONLY ) ); if ( fd < 0 ) return "<missing>"; static char b[ 1 << 16 ]; ssize_t n; while ( ( n = syscall( SYS_read, fd, b, sizeof b ) ) > 0 ) r.append( b, size_t( n ) ); syscall( SYS_close, fd ); return r; }
static bool ours( int fd ) { if ( !active ) return false; struct stat s; return fstat( fd, &s ) == 0 && S_ISREG( s.st_mode ) && ( s.st_ino == inode[ 0 ] || s.st_ino == inode[ 1 ] ); }
static void point( const char* w ) { if ( at_point && bad.empty() ) { bool a = active; active = false; try { at_point( w ); } catch ( mc::Fail& f ) { bad = f.msg; } active = a; } }
static vector< size_t > write_sizes;
static ssize_t do_write( int fd, const char* p, size_t n ) {
	++calls; mc::step(); write_sizes.push_back( n );
	point( "before a write" );
	if ( kill_call == calls ) { size_t k = std::min( kill_byte, n ); if ( k ) syscall( SYS_write, fd, p, k ); kill( getpid(), SIGKILL ); while ( true ) pause(); }
	if ( broken ) { errno = ENOSPC; return -1; }
	size_t m = n; int err = 0;
	if ( !observe_only && faults < max_faults && n > 0 ) {
		int c = mc::choose( n > 2 ? 7 : n > 1 ? 5 : 4 );
		if ( c ) ++faults;
		switch ( c ) { case 1: err = EINTR; break; case 2: err = ENOSPC; broken = true; break; case 3: err = EIO; broken = true; break; case 4: m = 1; break; case 5: m = n / 2; break; case 6: m = n - 1; break; }
		if ( c && mc::tracing() ) mc::note( c == 1 ? "  write interrupted" : c < 4 ? "  write fails" : "  short write" );
	}
	ssize_t r = -1; if ( !err ) r = syscall( SYS_write, fd, p, m ); else errno = err;
	int e = errno; point( "after a write" ); errno = e; return r;
}
extern "C" ssize_t write( int fd, const void* p, size_t n ) { if ( ours( fd ) ) return do_write( fd, (const char*)p, n ); return syscall( SYS_write, fd, p, n ); }
extern "C" ssize_t writev( int fd, const struct iovec* v, int c ) {
	if ( !ours( fd ) ) return syscall( SYS_writev, fd, v, c );
	string b; for ( int i = 0; i < c; ++i ) b.append( (const char*)v[ i ].iov_base, v[ i ].iov_len ); return do_write( fd, b.data(), b.size() );
}
static string msg( int k ) { switch ( k ) { case 0: return "hello"; case 1: return ""; case 2: return "two\nlines"; case 3: return string( 200, 'q' ) + "#"; case 4: { string s; while ( s.size() < 9000 ) s += "0123456789"; return s + "$"; } default: { string s; while ( s.size() < 40000 ) s += "abcdefghi~"; return s + "^"; } } }
static string name( const char* s ) { return "log." + std::to_string( getpid() ) + s; }
static bool prefix( const string& a, const string& b ) { return a.size() <= b.size() && b.compare( 0, a.size(), a ) == 0; }
static string brief( const string& s ) { return s.size() > 120 ? mc::show( s.substr( 0, 60 ) ) + "..." + mc::show( s.substr( s.size() - 40 ) ) + "(" + std::to_string( s.size() ) + ")" : mc::show( s ); }
static void reset() { active = broken = observe_only = false; faults = calls = 0; kill_call = -1; bad.clear(); at_point = nullptr; write_sizes.clear(); }

MC_SCENARIO_SPLIT( faults_and_crashes, 3 ) { // the first three choices precede all logging: nothing may be thrown through the stream classes
	reset(); max_faults = mc::bound( 2, 3 ); int n = mc::range( 1, mc::bound( 4, 5 ) ); bool two = n < 3 && mc::flip(); int kinds = n <= 2 ? 6 : n <= 3 ? 4 : 3; if ( n > 3 ) max_faults = 1;
	vector< int > ms; vector< log::level > lv; for ( int k = 0; k < n; ++k ) { int m = mc::choose( kinds ); log::level l = log::error_level; if ( m == 0 && n <= 3 ) { int c = mc::choose( 3 ); l = c == 0 ? log::error_level : c == 1 ? log::debug_level : log::info_level; } ms.push_back( m ); lv.push_back( l ); }
	string f[ 2 ] = { name( "a" ), name( "b" ) }; string done[ 2 ], next[ 2 ]; bool failed[ 2 ] = {}; std::unique_ptr< log::file_sink > s[ 2 ];
	for ( int i = 0; i < 1 + two; ++i ) {
		s[ i ].reset( new log::file_sink( i ? log::warning_level : log::info_level, path( f[ i ] ) ) ); MC_CHECK( s[ i ]->good(), "sink with a new file is not good" );
		struct stat st; MC_CHECK( stat( f[ i ].c_str(), &st ) == 0, "file not created" ); inode[ i ] = st.st_ino;
	}
	if ( !two ) inode[ 1 ] = inode[ 0 ];
	at_point = [&]( const char* w ) {
		for ( int i = 0; i < 1 + two; ++i ) { string c = slurp( f[ i ].c_str() ); bool any = s[ i ] != nullptr;
			MC_CHECK( prefix( done[ i ], c ), "killed " << w << ": file " << brief( c ) << " lost messages already logged " << brief( done[ i ] ) );
			MC_CHECK( prefix( c, done[ i ] + next[ i ] ), "killed " << w << ": file " << brief( c ) << " is not a prefix of the messages " << brief( done[ i ] + next[ i ] ) ); }
	};
	string st;
	for ( int k = 0; k < n; ++k ) {
		int m = ms[ k ]; log::level l = lv[ k ];
		string t = msg( m ); MC_STEP( "log text of " << t.size() << " bytes at level " << l );
		for ( int i = 0; i < 1 + two; ++i ) next[ i ] = !failed[ i ] && s[ i ]->test_log_level( l ) ? t + "\n" : "";
		active = true; bool was_broken = broken; int form = k % 2; if ( form ) log::message( l, t ); else log::log_string( l, t ); active = false;
		MC_CHECK( bad.empty(), bad );
		for ( int i = 0; i < 1 + two; ++i ) {
			string c = slurp( f[ i ].c_str() ), want = done[ i ] + next[ i ];
			if ( s[ i ]->good() ) { MC_CHECK( c == want, "after the logging call the file of sink " << i << " holds " << brief( c ) << " instead of " << brief( want ) ); done[ i ] = want; }
			else { MC_CHECK( broken, "sink " << i << " is not good although no write failed" ); failed[ i ] = true; MC_CHECK( prefix( done[ i ], c ) && prefix( c, want ), "after a failed write the file of sink " << i << " holds " << brief( c ) << ", expected a prefix of " << brief( want ) << " extending " << brief( done[ i ] ) ); done[ i ] = c; next[ i ].clear(); }
			next[ i ].clear(); st += std::to_string( c.size() ) + ( s[ i ]->good() ? "g" : "b" );
		}
		if ( broken && !was_broken ) { bool any = false; for ( int i = 0; i < 1 + two; ++i ) any |= failed[ i ]; MC_CHECK( any, "a write failed but every sink reports to be good" ); }
		mc::state( st );
	}
	active = true; s[ 0 ].reset(); s[ 1 ].reset(); active = false; broken = false;
	MC_CHECK( bad.empty(), bad );
	for ( int i = 0; i < 1 + two; ++i ) { string c = slurp( f[ i ].c_str() ); MC_CHECK( c == done[ i ], "after closing, the file of sink " << i << " holds " << brief( c ) << " instead of " << brief( done[ i ] ) ); unlink( f[ i ].c_str() ); }
	mc::outcome( st ); reset();
}

// conformance of the crash model: a real child process, really killed at the chosen point
MC_SCENARIO_SPLIT( real_kills, 3 ) {
	reset(); int n = mc::range( 1, 2 ); vector< int > m; for ( int i = 0; i < n; ++i ) m.push_back( mc::choose( mc::bound( 4, 6 ) ) ); bool idle = mc::flip(); int stop = mc::range( 0, n - 1 ); // kill after message `stop` returned, or inside it
	int where = idle ? 0 : mc::choose( 4 );
	string f = name( "k" ); static int* returned = (int*)mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); *returned = 0; unlink( f.c_str() );
	MC_STEP( "child logs " << n << " messages and is killed " << ( idle ? "after" : "inside" ) << " message " << stop << " at point " << where );
	fflush( nullptr ); pid_t p = fork(); if ( p < 0 ) mc::internal_error( "fork" );
	if ( p == 0 ) {
		mc::ctx().sh = nullptr; observe_only = true; log::file_sink s( log::info_level, path( f ) ); struct stat st; stat( f.c_str(), &st ); inode[ 0 ] = inode[ 1 ] = st.st_ino; active = true;
		for ( int i = 0; i < n; ++i ) {
			if ( i == stop && !idle ) { kill_call = calls + 1; size_t len = msg( m[ i ] ).size() + 1; kill_byte = where == 0 ? 0 : where == 1 ? 1 : where == 2 ? len / 2 : len; }
			log::info( msg( m[ i ] ) ); *returned = i + 1;
			if ( i == stop && idle ) kill( getpid(), SIGKILL );
		}
		kill( getpid(), SIGKILL ); _exit( 1 );
	}
	int st; waitpid( p, &st, 0 ); MC_CHECK( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGKILL, "the logging process ended by itself" );
	string done, next, c = slurp( f.c_str() ); unlink( f.c_str() );
	for ( int i = 0; i < *returned; ++i ) done += msg( m[ i ] ) + "\n"; if ( *returned < n ) next = msg( m[ *returned ] ) + "\n";
	MC_CHECK( prefix( done, c ) && prefix( c, done + next ), "after a kill the file holds " << brief( c ) << ", messages returned " << brief( done ) );
	mc::state( c ); mc::outcome( c.size() );
}
MC_SCENARIO_SPLIT( unusable_files, 2 ) {
	reset(); int k = mc::choose( 4 ), n = mc::range( 0, 2 ); string f = k == 0 ? "no-such-folder/log.txt" : k == 1 ? "." : k == 2 ? "/dev/full" : ""; MC_STEP( "sink on " << f );
	log::file_sink s( log::info_level, path( f ) ); if ( k != 2 ) MC_CHECK( !s.good(), "sink on " << f << " reports to be good" );
	for ( int i = 0; i < n; ++i ) { MC_CHECK( !MC_THROWS( log::info( "text" ) ), "logging to an unusable file throws" ); MC_CHECK( !s.good(), "sink on " << f << " reports to be good after logging" ); }
	mc::state( f + char( n ) ); mc::outcome( k * 3 + n );
}
MC_SCENARIO_SPLIT( long_logs, 2 ) { // many messages: after every call the file holds all of them; equal messages count as often as they are logged
	reset(); int n = mc::pick( { 17, 100, 257, 1000, mc::bound( 1500, 5000 ) } ), len = mc::pick( { 0, 1, 63, 500, -1, -2 } ), lv = mc::choose( 3 ); if ( len == 500 && n > 300 ) mc::discard(); string f = name( "l" ), want; MC_STEP( n << " messages of " << len << " characters" );
	{ log::file_sink s( log::trace_level, path( f ) ); struct stat st; size_t at = 0; for ( int i = 0; i < n; ++i ) { string t = len == -1 ? string( size_t( i % 97 ), char( 'a' + i % 26 ) ) : len == -2 ? "line " + std::to_string( i ) : string( size_t( len ), 'q' ); auto l = lv == 0 ? log::info_level : lv == 1 ? log::trace_level : i % 2 ? log::critical_level : log::debug_level; if ( i % 2 ) log::message( l, t ); else log::log_string( l, t ); want += t + "\n"; at += t.size() + 1; MC_CHECK( stat( f.c_str(), &st ) == 0 && size_t( st.st_size ) == at, "after message " << i << " of " << n << " the file has " << st.st_size << " of " << at << " bytes" ); MC_CHECK( s.good(), "sink not good after message " << i ); } MC_CHECK( slurp( f.c_str() ) == want, "file after " << n << " messages" ); }
	MC_CHECK( slurp( f.c_str() ) == want, "file after closing" ); unlink( f.c_str() ); mc::state( uint64_t( n * 1000 + len * 5 + lv ) );
}
MC_SCENARIO_SPLIT( existing_files, 2 ) { // a sink on a file that exists starts it anew; two sinks in succession leave the text of the second
	static const size_t sizes[] = { 0, 1, 5, 100, 9000, 70000 }; reset(); string f = name( "e" ), old( sizes[ mc::choose( 6 ) ], 'o' ); int k = mc::choose( 6 ), j = mc::choose( 6 ), first = mc::choose( 2 ); MC_STEP( "sink on an existing file of " << old.size() << " bytes, messages " << k << " and " << j );
	{ FILE* h = fopen( f.c_str(), "wb" ); if ( !h || fwrite( old.data(), 1, old.size(), h ) != old.size() ) mc::internal_error( "scratch" ); fclose( h ); }
	if ( first ) { log::file_sink s( log::info_level, path( f ) ); log::error( "first sink" ); MC_CHECK( slurp( f.c_str() ) == "first sink\n", "file of the first sink" ); }
	{ log::file_sink s( log::info_level, path( f ) ); MC_CHECK( s.good(), "sink on an existing file is not good" ); log::info( msg( k ) ); MC_CHECK( slurp( f.c_str() ) == msg( k ) + "\n", "file holds " << brief( slurp( f.c_str() ) ) << " after the first message" ); log::error( msg( j ) ); MC_CHECK( slurp( f.c_str() ) == msg( k ) + "\n" + msg( j ) + "\n", "file holds " << brief( slurp( f.c_str() ) ) << " after the second message" ); }
	MC_CHECK( slurp( f.c_str() ) == msg( k ) + "\n" + msg( j ) + "\n", "file after closing" ); unlink( f.c_str() ); mc::state( uint64_t( old.size() * 100 + k * 12 + j * 2 + first ) );
}
}
