// C31 file operations under faults
// MC-SOURCES: flut/filesystem.cpp flut/system/path.cpp flut/string_tools.cpp flut/char_stream.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node_tools.cpp flut/prop_node.cpp
// MC-FLAGS: -std=c++17
// MC-LINK: 
// MC-TECHNIQUE: exhaustive fault enumeration on the real code: every pattern of at most two faults over the intercepted open, read, write and close calls of each operation, on a real scratch folder, against a model of the file system
// MC-BOUNDS: contents of 8 kinds (empty, short, with NUL and line ends, one below / at / above the stream buffer, 20000 and 70000 bytes); copying over all combinations of missing, file, folder and identical source and destination with and without overwriting; loading by every reader; saving by every writer (property, XML and INI files); all patterns of at most 2 (thorough 3) faults among failed open, failed, short or interrupted read, failed, short or interrupted write, failed close; nested folder creation over all sets of existing levels to depth 4, with and without trailing separators; all sequences of at most 4 (thorough 5) operations create, remove, copy, change folder over 3 names; files of up to 5 MB loaded, copied and copied over files of up to 6 MB; links, sockets, pipes and devices; 20 unusual names; folders up to 300 levels deep and 3900 characters long; existence of files while opening fails; created folders under 4 masks
// MC-ORACLE: bytes read back by raw system calls; map of names to contents
// MC-ASSUMES: an operation may fail or succeed under a fault, but success must be real; interrupted and short transfers are not failures
#include "gen.hpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include "flut/system/assert.hpp"
#include "flut/filesystem.hpp"
#include "flut/char_stream.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/string_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;

// faults are a pre-chosen plan: at intercepted call number `at` (counted per execution) the fault of kind `kind` occurs, if it applies there
struct fault { int at, kind; };
static vector< fault > plan; static bool active = false; static int call_no = 0; static bool hit_open = false, hit_read = false, hit_write = false, hit_close = false, hit_soft = false; static int opens, reads, writes;
static int take( int op ) { // op: 0 open 1 read 2 write 3 close; returns the kind of fault (0 none)
	int k = call_no++; for ( auto& f : plan ) if ( f.at == k ) return f.kind; return 0;
}
static void tell( const char* what ) { if ( mc::tracing() ) mc::note( string( "  call " ) + std::to_string( call_no - 1 ) + ": " + what ); mc::step(); }
extern "C" FILE* fopen( const char* p, const char* m ) {
	static auto real = (FILE * ( * )( const char*, const char* ))dlsym( RTLD_NEXT, "fopen" ); if ( !active ) return real( p, m );
	++opens; if ( take( 0 ) ) { tell( "open fails" ); hit_open = true; errno = EMFILE; return nullptr; } tell( "open" ); return real( p, m );
}
extern "C" int fclose( FILE* f ) {
	static auto real = ( int ( * )( FILE* ) )dlsym( RTLD_NEXT, "fclose" ); if ( !active ) return real( f );
	int k = take( 3 ); int r = real( f ); if ( k ) { tell( "close fails" ); hit_close = true; errno = EIO; return EOF; } tell( "close" ); return r;
}
static bool regular( int fd ) { struct stat s; return active && fstat( fd, &s ) == 0 && ( S_ISREG( s.st_mode ) || S_ISDIR( s.st_mode ) ); }
extern "C" ssize_t read( int fd, void* p, size_t n ) {
	if ( !regular( fd ) ) return syscall( SYS_read, fd, p, n );
	++reads;
	switch ( take( 1 ) ) {
	case 1: tell( "read fails" ); hit_read = true; errno = EIO; return -1;
	case 2: tell( "read interrupted" ); hit_soft = true; errno = EINTR; return -1;
	case 3: tell( "read returns one byte" ); hit_soft = true; return syscall( SYS_read, fd, p, std::min< size_t >( n, 1 ) );
	case 4: tell( "read returns half" ); hit_soft = true; return syscall( SYS_read, fd, p, ( n + 1 ) / 2 );
	}
	tell( "read" ); return syscall( SYS_read, fd, p, n );
}
static ssize_t do_write( int fd, const char* p, size_t n ) {
	++writes;
	switch ( take( 2 ) ) {
	case 1: tell( "write fails" ); hit_write = true; errno = ENOSPC; return -1;
	case 2: tell( "write interrupted" ); hit_soft = true; errno = EINTR; return -1;
	case 3: tell( "write takes one byte" ); hit_soft = true; return syscall( SYS_write, fd, p, std::min< size_t >( n, 1 ) );
	case 4: tell( "write takes half" ); hit_soft = true; return syscall( SYS_write, fd, p, ( n + 1 ) / 2 );
	}
	tell( "write" ); return syscall( SYS_write, fd, p, n );
}
extern "C" ssize_t write( int fd, const void* p, size_t n ) { return regular( fd ) ? do_write( fd, (const char*)p, n ) : syscall( SYS_write, fd, p, n ); }
extern "C" ssize_t writev( int fd, const struct iovec* v, int c ) { if ( !regular( fd ) ) return syscall( SYS_writev, fd, v, c ); string b; for ( int i = 0; i < c; ++i ) b.append( (const char*)v[ i ].iov_base, v[ i ].iov_len ); return do_write( fd, b.data(), b.size() ); }

static string slurp( const string& f, bool* ok = nullptr ) { bool a = active; active = false; string r; int fd = int( syscall( SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY ) ); if ( ok ) *ok = fd >= 0; if ( fd >= 0 ) { static char b[ 1 << 16 ]; ssize_t n; while ( ( n = syscall( SYS_read, fd, b, sizeof b ) ) > 0 ) r.append( b, size_t( n ) ); syscall( SYS_close, fd ); } active = a; return r; }
static void put( const string& f, const string& c ) { int fd = int( syscall( SYS_openat, AT_FDCWD, f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666 ) ); if ( fd < 0 ) mc::internal_error( "scratch" ); size_t o = 0; while ( o < c.size() ) { ssize_t n = syscall( SYS_write, fd, c.data() + o, c.size() - o ); if ( n <= 0 ) mc::internal_error( "scratch" ); o += size_t( n ); } syscall( SYS_close, fd ); }
static bool is_dir( const string& p ) { struct stat s; return stat( p.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ); }
static bool there( const string& p ) { struct stat s; return lstat( p.c_str(), &s ) == 0; }
static void wipe( const string& d ) { vector< string > r; if ( DIR* h = opendir( d.c_str() ) ) { while ( auto e = readdir( h ) ) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) ) r.push_back( e->d_name ); closedir( h ); } for ( auto& n : r ) { string p = d + "/" + n; struct stat li; if ( lstat( p.c_str(), &li ) == 0 && S_ISDIR( li.st_mode ) ) { wipe( p ); rmdir( p.c_str() ); } else unlink( p.c_str() ); } }
static string home_dir;
static string fresh() { if ( home_dir.empty() ) { char* c = getcwd( nullptr, 0 ); home_dir = c; free( c ); } if ( chdir( home_dir.c_str() ) ) mc::internal_error( "chdir" ); active = false; plan.clear(); call_no = 0; opens = reads = writes = 0; hit_open = hit_read = hit_write = hit_close = hit_soft = false; string r = "fs." + std::to_string( getpid() ); mkdir( r.c_str(), 0777 ); wipe( r ); return r; }
static string body( int k ) { auto fill = []( size_t n ) { string s; for ( size_t i = 0; i < n; ++i ) s += char( "abcdefghijklm\n\r\0%"[ ( i * 7 + i / 13 ) % 17 ] ); return s; }; switch ( k ) { case 0: return "hello"; case 1: return ""; case 2: return string( "a\0b\r\n\xff\x1a\n", 8 ); case 3: return fill( 8190 ); case 4: return fill( 8191 ); case 5: return fill( 8192 ); case 6: return fill( 20000 ); default: return fill( 70000 ); } }
static string brief( const string& s ) { return s.size() > 80 ? mc::show( s.substr( 0, 40 ) ) + "...(" + std::to_string( s.size() ) + " bytes)" : mc::show( s ); }
// choose at most n faults at increasing calls among the first m calls
static void choose_faults( int n, int m, int kinds ) { int from = 0; for ( int i = 0; i < n && from < m; ++i ) { int c = mc::choose( ( m - from ) * kinds + 1 ); if ( c == 0 ) break; --c; plan.push_back( { from + c / kinds, 1 + c % kinds } ); from += c / kinds + 1; } }

enum thing { missing, file, folder };
MC_SCENARIO_SPLIT( loading, 4 ) {
	int k = mc::choose( 11 ), reader = mc::choose( 4 ); string d = fresh(), f = d + "/f"; thing t = k < 8 ? file : k == 8 ? missing : folder; string c = k < 8 ? body( k ) : ""; if ( k == 10 ) f = d + "/none/f", t = missing;
	if ( reader == 3 && k > 2 && k < 8 && k != 6 ) mc::discard();
	choose_faults( mc::bound( 2, 3 ), k > 5 ? mc::bound( 8, 12 ) : 6, 4 );
	if ( t == file ) { if ( reader == 3 ) { c = "a = 1\nb {\nc = \"" + string( c.size() / 2, 'x' ) + "\"\n}"; } put( f, c ); } else if ( t == folder ) mkdir( f.c_str(), 0777 );
	MC_STEP( "load " << ( t == file ? "file of " + std::to_string( c.size() ) + " bytes" : t == folder ? string( "folder" ) : string( "missing file" ) ) << " by reader " << reader );
	string got, err; bool failed = false; prop_node pn;
	active = true;
	try {
		if ( reader == 0 ) got = load_string( path( f ) );
		else if ( reader == 1 ) { error_code ec; got = load_string( path( f ), &ec ); failed = ec.error(); err = ec.message(); }
		else if ( reader == 2 ) { error_code ec; char_stream s = load_char_stream( path( f ), " ", &ec ); failed = ec.error(); while ( !failed && s.good() && got.size() <= c.size() ) got += s.getc(); }
		else { error_code ec; pn = load_prop( path( f ), &ec ); failed = ec.error(); }
	}
	catch ( std::exception& e ) { failed = true; err = e.what(); if ( reader ) { active = false; mc::fail( "exception although an error code was given: " + err ); } }
	active = false;
	bool must_fail = t != file || hit_open || hit_read, may_fail = must_fail || hit_close;
	if ( must_fail ) MC_CHECK( failed, "loading reported success with " << brief( got ) << " although " << ( hit_open ? "opening failed" : hit_read ? "reading failed" : "there is no such file" ) );
	if ( !may_fail ) {
		MC_CHECK( !failed, "loading a readable file failed: " << err );
		if ( reader < 3 ) { string want = c; if ( reader == 2 ) { size_t z = c.find( '\0' ); if ( z != string::npos ) { want = c.substr( 0, z ); got = got.substr( 0, z ); } } MC_CHECK( got == want, "loaded " << brief( got ) << " instead of " << brief( want ) ); }
		else { MC_EQ( pn.get< int >( "a" ), 1, "a" ); MC_EQ( pn[ "b" ].get< string >( "c" ).size(), c.size() - 18, "length of b.c" ); }
	}
	if ( t == file ) MC_CHECK( slurp( f ) == c, "loading changed the file" );
	mc::state( std::to_string( k ) + char( 'a' + reader ) + std::to_string( hit_open + 2 * hit_read + 4 * hit_soft + 8 * failed ) ); mc::outcome( hit_open + 2 * hit_read + 4 * hit_soft + 8 * failed );
}
MC_SCENARIO_SPLIT( copying, 5 ) {
	int sk = mc::choose( 9 ), dk = mc::choose( 5 ); bool over = mc::flip(); string d = fresh(), a = d + "/src", b = d + "/dst"; thing st = sk < 7 ? file : sk == 7 ? missing : folder, dt = dk == 0 ? missing : dk < 3 ? file : dk == 3 ? folder : file; bool same = dk == 4;
	static const int kinds[] = { 0, 1, 2, 4, 5, 6, 7 }; string c = st == file ? body( kinds[ sk ] ) : "", old = dk == 1 ? "precious" : dk == 2 ? body( 6 ) : "";
	if ( sk > 2 && sk < 7 && ( dk == 2 || dk == 3 ) ) mc::discard();
	choose_faults( mc::bound( 2, 3 ), sk >= 5 && sk < 7 ? mc::bound( 10, 14 ) : 9, 4 );
	if ( st == file ) put( a, c ); else if ( st == folder ) mkdir( a.c_str(), 0777 );
	if ( same ) { b = a; old = c; dt = st; } else if ( dt == file ) put( b, old ); else if ( dt == folder ) mkdir( b.c_str(), 0777 );
	MC_STEP( "copy " << ( st == file ? std::to_string( c.size() ) + " bytes" : st == folder ? string( "a folder" ) : string( "a missing file" ) ) << " to " << ( same ? "itself" : dt == missing ? "a new file" : dt == file ? "an existing file" : "a folder" ) << ( over ? " overwriting" : "" ) );
	bool ok = false, threw = false; string err; active = true; try { ok = copy_file( path( a ), path( b ), over ); } catch ( std::exception& e ) { threw = true; err = e.what(); } active = false;
	bool dst_there = false; string now = dt == folder ? "" : slurp( b, &dst_there ); string src_now = st == file ? slurp( a ) : "";
	if ( st == file && !( same && over ) ) MC_CHECK( src_now == c, "the source changed to " << brief( src_now ) );
	if ( ok ) {
		MC_CHECK( st == file, "copying a source that is no file reported success" ); MC_CHECK( dt != folder, "copying onto a folder reported success" ); MC_CHECK( over || dt == missing, "an existing file was overwritten" );
		MC_CHECK( dst_there && now == c, "copy reported success but the destination holds " << brief( now ) << " instead of " << brief( c ) );
	}
	else {
		bool fault = hit_open || hit_read || hit_write || hit_close; bool possible = st == file && dt != folder && ( over || dt == missing ); MC_CHECK( fault || !possible, "a possible copy failed" << ( threw ? ": " + err : "" ) );
		if ( dt == file && ( !over || st != file || ( hit_open && !writes && opens < 2 ) ) ) MC_CHECK( now == old, "a failed copy left " << brief( now ) << " in the existing destination instead of " << brief( old ) );
		if ( dt == missing && st != file ) MC_CHECK( !there( b ), "a failed copy from a missing source created the destination" );
		if ( same && st == file && !hit_write && !hit_open && !hit_close ) MC_CHECK( now == old, "copying a file onto itself left " << brief( now ) );
	}
	if ( !over && dt == file ) MC_CHECK( now == old, "an existing file was overwritten with " << brief( now ) );
	if ( st == folder && !same ) MC_CHECK( is_dir( a ), "source folder gone" ); if ( dt == folder ) MC_CHECK( is_dir( b ), "destination folder gone" );
	string s = std::to_string( sk ) + "/" + std::to_string( dk ) + "/" + std::to_string( over + 2 * ok + 4 * hit_open + 8 * hit_read + 16 * hit_write + 32 * hit_close + 64 * hit_soft ); mc::state( s ); mc::outcome( over + 2 * ok + 4 * hit_open + 8 * hit_read + 16 * hit_write + 32 * hit_close );
}
MC_SCENARIO_SPLIT( saving, 4 ) {
	int k = mc::choose( 4 ), where = mc::choose( 3 ); string d = fresh(), f = where == 0 ? d + "/p.prop" : where == 1 ? d + "/none/p.prop" : d; bool readable = mc::flip(); choose_faults( mc::bound( 2, 3 ), 6, 4 );
	string v = k == 0 ? "x" : k == 1 ? string( 8180, 'y' ) : k == 2 ? string( 30000, 'z' ) : ""; prop_node pn; pn.set( "a", v ); prop_node sub; sub.set( "c", 3 ); pn.push_back( "b", sub );
	MC_STEP( "save a value of " << v.size() << " bytes" ); active = true; bool ok = false; try { ok = save_prop( pn, path( f ), readable ); } catch ( std::exception& ) {} active = false;
	if ( ok ) { MC_CHECK( where == 0, "saving to an impossible place reported success" ); error_code ec; auto q = load_prop( path( f ), &ec ); MC_CHECK( ec.ok() && q == pn, "save reported success, but the file does not hold the tree" ); }
	else MC_CHECK( where != 0 || hit_open || hit_write || hit_close, "saving failed without reason" );
	mc::state( std::to_string( k * 3 + where ) + ( ok ? "+" : "-" ) + std::to_string( hit_open + 2 * hit_write + 4 * hit_close ) ); mc::outcome( ok + 2 * hit_open + 4 * hit_write );
}
MC_SCENARIO_SPLIT( exporting, 4 ) { // the writers that have no result report failure by an exception
	int k = mc::choose( 4 ), where = mc::choose( 3 ), kind = mc::choose( 2 ); bool old = mc::flip(); string d = fresh(), ext = kind ? "ini" : "xml", f = where == 0 ? d + "/p." + ext : where == 1 ? d + "/none/p." + ext : d; if ( where && ( old || k ) ) mc::discard(); if ( old ) put( f, "old" ); choose_faults( mc::bound( 2, 3 ), k > 1 ? 8 : 6, 4 );
	string v = k == 0 ? "x" : k == 1 ? string( 8180, 'y' ) : k == 2 ? string( 30000, 'z' ) : "1"; prop_node pn, sub; sub.set( "a", v ); sub.set( "c", 3 ); pn.push_back( "b", sub );
	MC_STEP( "save a value of " << v.size() << " bytes as " << ext ); active = true; bool ok = true; string err; try { if ( kind ) save_ini( pn, path( f ) ); else save_xml( pn, path( f ) ); } catch ( std::exception& e ) { ok = false; err = e.what(); } active = false;
	if ( ok ) { MC_CHECK( where == 0, "saving to an impossible place reported success" ); prop_node q; try { q = kind ? load_ini( path( f ) ) : load_xml( path( f ) ); } catch ( std::exception& e ) { MC_CHECK( false, "save reported success, but the file cannot be loaded: " << e.what() << " from " << brief( slurp( f ) ) ); } MC_CHECK( q == pn, "save reported success, but the file does not hold the tree: " << brief( slurp( f ) ) ); }
	else MC_CHECK( where != 0 || hit_open || hit_write || hit_close, "saving failed without reason: " << err );
	mc::state( std::to_string( k * 3 + where ) + ext + ( ok ? "+" : "-" ) + std::to_string( hit_open + 2 * hit_write + 4 * hit_close ) ); mc::outcome( ok + 2 * hit_open + 4 * hit_write + 8 * kind );
}
MC_SCENARIO_SPLIT( folders, 3 ) {
	string d = fresh(); int depth = mc::range( 1, 4 ), have = mc::range( 0, depth ); int block = mc::choose( depth + 1 ); bool absolute = mc::flip(), dbl = mc::flip(); int link = mc::choose( 2 ); // block: level that is a file (0 none)
	if ( block && block <= have ) mc::discard();
	char* cw = getcwd( nullptr, 0 ); string base = absolute ? string( cw ) + "/" + d : d; free( cw ); static const char* names[] = { "a", "b.c", "d e", "f" };
	vector< string > p( 1, base ); for ( int i = 0; i < depth; ++i ) p.push_back( p.back() + ( dbl && i == 1 ? "//" : "/" ) + names[ i ] );
	if ( link ) { mkdir( ( base + "/real" ).c_str(), 0777 ); if ( symlink( "real", ( base + "/a" ).c_str() ) ) mc::internal_error( "symlink" ); if ( have == 0 || block == 1 ) mc::discard(); }
	for ( int i = 1; i <= have; ++i ) mkdir( p[ i ].c_str(), 0777 ); if ( block ) { if ( block > have + 1 ) mc::discard(); put( p[ block ], "blocked" ); }
	MC_STEP( "create " << p[ depth ] << " with " << have << " levels present" << ( block ? ", blocked by a file" : "" ) );
	for ( int i = 0; i <= depth; ++i ) { MC_EQ( folder_exists( path( p[ i ] ) ), i <= have, "folder_exists at level " << i ); MC_EQ( exists( path( p[ i ] ) ), i <= have || i == block, "exists at level " << i ); MC_EQ( file_exists( path( p[ i ] ) ), i == block && i > 0, "file_exists at level " << i ); }
	int slash = mc::choose( 3 ); string target = p[ depth ] + ( slash == 1 ? "/" : slash == 2 ? "//" : "" ); bool ok = false; try { ok = create_directories( path( target ) ); } catch ( std::exception& ) {}
	if ( block ) { MC_CHECK( !ok, "creation below a file reported success" ); MC_CHECK( slurp( p[ block ] ) == "blocked", "blocking file changed" ); }
	else { for ( int i = 1; i <= depth; ++i ) MC_CHECK( is_dir( p[ i ] ), "level " << i << " was not created" ); if ( have < depth ) MC_CHECK( ok, "successful creation not reported" ); for ( int i = 1; i <= depth; ++i ) MC_CHECK( folder_exists( path( p[ i ] ) ) && exists( path( p[ i ] ) ), "created level " << i << " not seen" ); }
	mc::state( p[ depth ] + std::to_string( have * 10 + block ) ); mc::outcome( ok * 100 + have * 10 + block );
}
MC_SCENARIO_SPLIT( histories, 3 ) {
	string d = fresh(); std::map< string, string > m; int n = mc::bound( 4, 5 ); vector< string > names = { d + "/x", d + "/y.txt", d + "/sub/z" }; string sub = d + "/sub"; bool has_sub = false; string st;
	char* c0 = getcwd( nullptr, 0 ); string top = c0; free( c0 ); for ( auto& x : names ) x = top + "/" + x; sub = top + "/" + sub; string cwd = top;
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 7 );
		if ( op == 0 ) { auto& f = mc::pick( names ); MC_STEP( "write " << f ); string c = "c" + std::to_string( i ); if ( f != names[ 2 ] || has_sub ) { put( f, c ); m[ f ] = c; } }
		else if ( op == 1 ) { auto& f = mc::pick( names ); MC_STEP( "remove " << f ); MC_EQ( flut::remove( path( f ) ), m.count( f ) > 0, "remove" ); m.erase( f ); }
		else if ( op == 2 ) { MC_STEP( "remove the folder" ); bool can = has_sub && !m.count( names[ 2 ] ) && cwd != sub; if ( cwd == sub ) mc::discard(); MC_EQ( flut::remove( path( sub ) ), can, "remove folder" ); if ( can ) has_sub = false; }
		else if ( op == 3 ) { MC_STEP( "create the folder" ); MC_EQ( create_directories( path( sub ) ), !has_sub, "create" ); has_sub = true; }
		else if ( op == 4 ) { int a = mc::choose( 3 ), b = ( a + 1 + mc::choose( 2 ) ) % 3; bool o = mc::flip(); MC_STEP( "copy " << a << " to " << b << ( o ? " overwriting" : "" ) ); bool can = m.count( names[ a ] ) && ( b != 2 || has_sub ) && ( o || !m.count( names[ b ] ) ); MC_EQ( copy_file( path( names[ a ] ), path( names[ b ] ), o ), can, "copy" ); if ( can ) m[ names[ b ] ] = m[ names[ a ] ]; }
		else if ( op == 5 ) { MC_STEP( "go to the folder" ); if ( has_sub ) { current_path( path( sub ) ); cwd = sub; } else MC_CHECK( MC_THROWS( current_path( path( sub ) ) ), "going to a missing folder passes silently" ); if ( m.count( names[ 0 ] ) ) MC_CHECK( MC_THROWS( current_path( path( names[ 0 ] ) ) ), "going to a file passes silently" ); }
		else { MC_STEP( "go to the top" ); current_path( path( top ) ); cwd = top; }
		MC_EQ( current_path().str(), cwd, "current folder" ); MC_EQ( folder_exists( path( sub ) ), has_sub, "folder_exists" ); MC_EQ( exists( path( sub ) ), has_sub, "exists" ); MC_CHECK( !file_exists( path( sub ) ), "file_exists of a folder" ); st.clear();
		for ( auto& f : names ) { bool h = m.count( f ) > 0; MC_EQ( file_exists( path( f ) ), h, "file_exists " << f ); MC_EQ( exists( path( f ) ), h, "exists " << f ); MC_CHECK( !folder_exists( path( f ) ), "folder_exists of a file" ); if ( h ) { MC_EQ( slurp( f ), m[ f ], "contents of " << f ); MC_EQ( load_string( path( f ) ), m[ f ], "load " << f ); } st += h ? m[ f ] : "-"; }
		if ( cwd == sub && m.count( names[ 2 ] ) ) MC_EQ( load_string( path( "z" ) ), m[ names[ 2 ] ], "relative load" );
		mc::state( st + ( has_sub ? "s" : "" ) + ( cwd == sub ? "c" : "" ) );
	}
	mc::outcome( st );
}
MC_SCENARIO_SPLIT( big_files, 2 ) { // sizes around and far beyond any buffer
	size_t n = mc::pick( vector< size_t >{ 0, 1, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072, 1000000, 1048575, 1048576, 1048577, 3000001, 5242881 } ), old = mc::pick( vector< size_t >{ 0, 1, 100, 70000, 6000000 } ); int kind = mc::choose( 3 ); if ( n > 100000 && kind && old == 70000 ) mc::discard(); string d = fresh(), a = d + "/src", b = d + "/dst", c( n, kind == 0 ? 'x' : '\0' ); if ( kind == 2 ) for ( size_t i = 0; i < n; ++i ) c[ i ] = char( ( i * 31 + i / 251 ) & 255 ); put( a, c ); MC_STEP( "file of " << n << " bytes, contents " << kind );
	MC_CHECK( exists( path( a ) ) && file_exists( path( a ) ) && !folder_exists( path( a ) ), "existence of a file of " << n << " bytes" ); string g = load_string( path( a ) ); MC_CHECK( g == c, "loaded " << g.size() << " of " << n << " bytes, or other bytes" ); error_code ec; g = load_string( path( a ), &ec ); MC_CHECK( !ec.error() && g == c, "loaded " << g.size() << " of " << n << " bytes, or other bytes" );
	MC_CHECK( copy_file( path( a ), path( b ), false ), "copy failed" ); MC_CHECK( slurp( b ) == c, "copy holds other bytes" ); put( b, string( old, 'y' ) ); MC_CHECK( !copy_file( path( a ), path( b ), false ), "copying over an existing file without being asked to" ); MC_CHECK( slurp( b ) == string( old, 'y' ), "existing file changed" ); MC_CHECK( copy_file( path( a ), path( b ), true ), "overwriting copy failed" ); MC_CHECK( slurp( b ) == c, "overwriting copy holds other bytes" ); MC_CHECK( slurp( a ) == c, "source changed" );
	MC_CHECK( remove( path( a ) ) && !exists( path( a ) ) && exists( path( b ) ), "removal" ); wipe( d ); mc::state( uint64_t( n ) * 3 + kind ); mc::outcome( uint64_t( n ) );
}
MC_SCENARIO( special_files ) { // links are what they lead to; sockets, pipes and devices are not folders
	int k = mc::choose( 9 ), slash = mc::choose( 2 ); string d = fresh(), x = d + "/x", t = d + "/t"; static const char* what[] = { "socket", "pipe", "link to a file", "link to a folder", "dangling link", "link to itself", "link to a link to a folder", "character device", "link to a socket" }; MC_STEP( what[ k ] ); auto link = [&]( const char* to, const string& at ) { if ( symlink( to, at.c_str() ) ) mc::internal_error( "symlink" ); }; auto sock = [&]( const string& at ) { int fd = socket( AF_UNIX, SOCK_STREAM, 0 ); sockaddr_un a; memset( &a, 0, sizeof a ); a.sun_family = AF_UNIX; strcpy( a.sun_path, at.c_str() ); if ( fd < 0 || bind( fd, (sockaddr*)&a, sizeof a ) ) mc::internal_error( "socket" ); close( fd ); };
	if ( k == 0 ) sock( x ); if ( k == 1 && mkfifo( x.c_str(), 0600 ) ) mc::internal_error( "mkfifo" ); if ( k == 2 ) { put( t, "linked" ); link( "t", x ); } if ( k == 3 || k == 6 ) mkdir( t.c_str(), 0777 ); if ( k == 3 ) link( "t", x ); if ( k == 4 ) link( "t", x ); if ( k == 5 ) link( "x", x ); if ( k == 6 ) { link( "t", d + "/u" ); link( "u", x ); } if ( k == 7 ) x = "/dev/null"; if ( k == 8 ) { sock( t ); link( "t", x ); }
	bool dir = k == 3 || k == 6, any = k != 4 && k != 5; if ( slash && !dir ) mc::discard(); path p( slash ? x + "/" : x );
	MC_EQ( folder_exists( p ), dir, "folder_exists of a " << what[ k ] ); MC_EQ( exists( p ), any, "exists of a " << what[ k ] ); if ( k >= 2 && k <= 6 ) MC_EQ( file_exists( p ), k == 2, "file_exists of a " << what[ k ] );
	if ( k == 2 ) { MC_EQ( load_string( p ), string( "linked" ), "loaded through a link" ); MC_CHECK( copy_file( p, path( d + "/c" ), false ) && slurp( d + "/c" ) == "linked", "copied through a link" ); MC_CHECK( !copy_file( path( d + "/c" ), p, false ), "link overwritten" ); }
	if ( k == 4 || k == 5 ) { error_code ec; load_string( p, &ec ); MC_CHECK( ec.error(), "loading a dangling link passes silently" ); MC_CHECK( MC_THROWS( load_string( p ) ), "loading a dangling link passes silently" ); }
	if ( dir ) { MC_CHECK( create_directories( path( x + "/a/b" ) ) && is_dir( t + "/a/b" ), "folders created through a link" ); } if ( k != 7 && !dir ) { MC_CHECK( !create_directories( path( x + "/a" ) ), "folder created inside a " << what[ k ] ); MC_CHECK( flut::remove( p ) && !there( x ), "removal of a " << what[ k ] ); if ( k == 2 ) MC_EQ( slurp( t ), string( "linked" ), "file behind the removed link" ); }
	mc::state( uint64_t( k * 2 + slash ) ); mc::outcome( uint64_t( k ) );
}
MC_SCENARIO( odd_names ) { // any name a file system takes
	static const vector< string > ns = { "a b", " a", "a ", "%s%n%d", "a;b", "-rf", "*", "?", "a'b\"c", "$HOME", "~", "...", ".hidden", "a.", "tab\there", "line\nbreak", "\xc3\xbc", "\xff\xfe", "\x01", string( 255, 'n' ) }; const string& n = mc::pick( ns ); int in = mc::choose( 2 ); string d = fresh(), f = in ? d + "/" + n + "/" + n : d + "/" + n; MC_STEP( "file named " << brief( n ) << ( in ? " in a folder of that name" : "" ) );
	if ( in ) { MC_CHECK( create_directories( path( d + "/" + n ) ) && is_dir( d + "/" + n ), "folder is not created" ); MC_CHECK( folder_exists( path( d + "/" + n ) ) && !file_exists( path( d + "/" + n ) ), "existence of the folder" ); } MC_CHECK( !exists( path( f ) ) && !file_exists( path( f ) ), "exists beforehand" ); put( f, "text" ); MC_CHECK( exists( path( f ) ) && file_exists( path( f ) ) && !folder_exists( path( f ) ), "existence of the file" ); MC_EQ( load_string( path( f ) ), string( "text" ), "loaded" ); MC_CHECK( copy_file( path( f ), path( d + "/copy" ), false ) && slurp( d + "/copy" ) == "text", "copied from" ); MC_CHECK( flut::remove( path( f ) ) && !there( f ), "removed" ); MC_CHECK( copy_file( path( d + "/copy" ), path( f ), false ) && slurp( f ) == "text", "copied to" ); MC_CHECK( !copy_file( path( d + "/copy" ), path( f ), false ), "overwritten unasked" );
	if ( in ) { char* c = getcwd( nullptr, 0 ); string top = c; free( c ); current_path( path( d + "/" + n ) ); MC_EQ( current_path().str(), top + "/" + d + "/" + n, "current folder" ); MC_EQ( load_string( path( n ) ), string( "text" ), "loaded by its name" ); current_path( path( top ) ); } mc::state( n + char( '0' + in ) ); mc::outcome( n );
}
MC_SCENARIO( deep_folders ) { // as deep and as long as the system allows
	int len = mc::pick( { 1, 20, 200, 255 } ), total = mc::pick( { 100, 250, 300, 500, 1000, 1100, 2000, 2100, 3900 } ); string d = fresh(), p = d; vector< string > l; char* c = getcwd( nullptr, 0 ); string top = c; free( c ); while ( int( top.size() + p.size() ) + len + 2 < total && l.size() < 300 ) { p += "/" + string( size_t( len ), char( 'a' + l.size() % 26 ) ); l.push_back( p ); } if ( l.empty() ) mc::discard(); MC_STEP( l.size() << " levels of names of " << len << " characters" );
	MC_CHECK( create_directories( path( p ) ), "creation not successful" ); for ( auto& x : l ) MC_CHECK( is_dir( x ) && folder_exists( path( x ) ), "a level is missing" ); MC_CHECK( !create_directories( path( p ) ), "creation of an existing folder reported" ); current_path( path( p ) ); string got = current_path().str(); current_path( path( top ) ); MC_EQ( got, top + "/" + p, "current folder" ); put( p + "/f", "deep" ); MC_EQ( load_string( path( p + "/f" ) ), string( "deep" ), "loaded" ); MC_CHECK( copy_file( path( p + "/f" ), path( l.front() + "/g" ), false ) && slurp( l.front() + "/g" ) == "deep", "copied" ); MC_CHECK( flut::remove( path( p + "/f" ) ) && !exists( path( p + "/f" ) ), "removed" ); if ( l.size() > 1 ) { MC_CHECK( flut::remove( path( p ) ) && !exists( path( p ) ), "folder removed" ); MC_CHECK( folder_exists( path( l[ l.size() - 2 ] ) ), "parent removed" ); }
	mc::state( uint64_t( len * 10000 + total ) ); mc::outcome( uint64_t( l.size() ) );
}
MC_SCENARIO( unreadable_files ) { // a file that cannot be opened is there all the same
	int n = mc::choose( 8 ), in = mc::choose( 2 ); string d = fresh(), f = d + "/x"; if ( in ) { mkdir( f.c_str(), 0777 ); f += "/y"; } MC_STEP( "existence with " << n << " failing opens" ); MC_CHECK( !file_exists( path( f ) ) && !exists( path( f ) ) && !folder_exists( path( f ) ), "exists beforehand" ); put( f, "text" ); for ( int i = 0; i < n; ++i ) plan.push_back( { i, 1 } ); active = true; call_no = 0; bool a = file_exists( path( f ) ), b = exists( path( f ) ), c = folder_exists( path( f ) ), e = folder_exists( path( d ) ), g = file_exists( path( d ) ), h = file_exists( path( d + "/none" ) ); active = false; plan.clear();
	MC_CHECK( a && b && !c, "existence of a file that cannot be opened" ); MC_CHECK( e && !g, "existence of a folder" ); MC_CHECK( !h, "existence of a missing file" ); mc::state( uint64_t( n * 2 + in ) ); mc::outcome( uint64_t( n ) );
}
MC_SCENARIO( usable_folders ) { // every created level, whatever the mask of the process, is one the owner can list, enter and write
	int depth = mc::range( 1, 3 ), unique = mc::choose( 2 ); mode_t mask = mode_t( mc::pick( { 0, 022, 027, 077 } ) ); string d = fresh(), p = d; vector< string > l; for ( int i = 0; i < depth; ++i ) { p += "/n" + std::to_string( i ); l.push_back( p ); } MC_STEP( depth << " levels with mask " << int( mask ) << ( unique ? ", unique" : "" ) ); mode_t old = umask( mask ); bool ok = false; try { ok = unique ? create_unique_folder( path( p ) ).str() == p : create_directories( path( p ) ); } catch ( std::exception& ) {} umask( old ); MC_CHECK( ok, "creation not successful" );
	for ( auto& x : l ) { struct stat st; MC_CHECK( stat( x.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ), "a level is missing" ); MC_CHECK( ( st.st_mode & 0700 ) == 0700, "folder of mode " << int( st.st_mode & 0777 ) << " cannot be used by its owner" ); MC_CHECK( ( st.st_mode & mask ) == 0, "the mask of the process is not respected" ); } mc::state( uint64_t( depth * 10000 + mask * 2 + unique ) );
}
}
