// mc.hpp - a small stateless model checker for in-process exploration of real C++ code.
//
// A harness is a set of scenarios. A scenario is a deterministic function whose only source of
// nondeterminism is mc::choose(n). The explorer runs the scenario once for every reachable sequence
// of choices (depth-first odometer), so a run that ends normally has enumerated the whole bounded
// space. Executions are partitioned over worker processes by their choice prefix. The choices of the
// execution in progress live in a shared page, so that a crash or a hang of the code under test is
// attributed to one exact execution, which the driver replays in a fresh process before it reports.
#pragma once
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <exception>

namespace mc
{
	struct Fail { std::string msg; };   // deliberately not a std::exception: the code under test cannot swallow it by accident
	struct Skip {};                     // execution belongs to another worker
	struct Discard {};                  // execution outside the stated domain (counted, not checked)

	struct Shared {                     // one per worker
		volatile uint64_t heartbeat;
		volatile uint64_t executions;
		volatile int32_t scenario;
		volatile int32_t nchoices;
		volatile int32_t choices[ 4096 ];
		volatile int32_t failed;
		char msg[ 3500 ];
	};

	struct Scenario { const char* name; void ( *fn )(); int split; };
	inline std::vector< Scenario >& scenarios() { static std::vector< Scenario > v; return v; }
	struct Reg { Reg( const char* n, void ( *f )(), int split = 3 ) { scenarios().push_back( { n, f, split } ); } };

	struct HashSet {
		std::vector< uint64_t > t; size_t n = 0;
		HashSet() : t( 1 << 12, 0 ) {}
		bool add( uint64_t h ) {
			if ( h == 0 ) h = 1;
			if ( ( n + 1 ) * 2 > t.size() ) { std::vector< uint64_t > o( t.size() * 2, 0 ); o.swap( t ); n = 0; for ( auto x : o ) if ( x ) add( x ); }
			size_t m = t.size() - 1, i = ( h * 0x9E3779B97F4A7C15ull ) >> 20 & m;
			while ( t[ i ] ) { if ( t[ i ] == h ) return false; i = ( i + 1 ) & m; }
			t[ i ] = h; ++n; return true;
		}
	};

	struct Ctx {
		int tier = 0;                   // 0 quick, 1 thorough
		bool trace = false;             // replay / sample mode: record steps as text
		bool enumerating = false;
		int worker = 0, workers = 1;
		std::vector< int > choice, width;
		size_t pos = 0;
		int split = 3;
		uint64_t prefix_no = 0; std::vector< int > last_prefix; bool have_prefix = false, mine = true;
		uint64_t transitions = 0, executions = 0, discarded = 0;
		HashSet states, outcomes;
		size_t max_depth = 0;
		Shared* sh = nullptr;
		int cur_scenario = 0;
	};
	inline Ctx& ctx() { static Ctx c; return c; }

	inline bool thorough() { return ctx().tier == 1; }
	template< typename T > T bound( T q, T t ) { return ctx().tier == 1 ? t : q; }

	inline uint64_t hash_bytes( const void* p, size_t n, uint64_t h = 0xCBF29CE484222325ull ) {
		const unsigned char* c = (const unsigned char*)p;
		for ( size_t i = 0; i < n; ++i ) { h ^= c[ i ]; h *= 0x100000001B3ull; }
		return h ^ ( h >> 29 );
	}
	inline uint64_t hash_str( const std::string& s, uint64_t h = 0xCBF29CE484222325ull ) { return hash_bytes( s.data(), s.size(), h ); }

	[[noreturn]] inline void fail( const std::string& m ) { throw Fail{ m }; }
	[[noreturn]] inline void internal_error( const char* m ) { fprintf( stderr, "MC-INTERNAL-ERROR %s\n", m ); _exit( 70 ); }

	/// the only source of nondeterminism: enumerate 0..n-1
	inline int choose( int n ) {
		Ctx& c = ctx();
		if ( n <= 0 ) internal_error( "choose(0)" );
		if ( c.pos == c.choice.size() ) {
			c.choice.push_back( 0 ); c.width.push_back( n );
		}
		else if ( c.width[ c.pos ] == -1 ) { // replay: width learned now
			c.width[ c.pos ] = n;
			if ( c.choice[ c.pos ] >= n ) internal_error( "replayed choice out of range" );
		}
		else if ( c.width[ c.pos ] != n ) internal_error( "nondeterministic harness: branching changed during replay of a prefix" );
		int v = c.choice[ c.pos ];
		if ( c.sh && c.pos < 4096 ) { c.sh->choices[ c.pos ] = v; c.sh->nchoices = int( c.pos + 1 ); }
		++c.pos;
		if ( c.enumerating && int( c.pos ) == c.split ) {
			if ( !c.have_prefix || !std::equal( c.choice.begin(), c.choice.begin() + c.split, c.last_prefix.begin() ) || int( c.last_prefix.size() ) != c.split ) {
				c.last_prefix.assign( c.choice.begin(), c.choice.begin() + c.split );
				c.have_prefix = true;
				c.mine = int( c.prefix_no++ % c.workers ) == c.worker;
			}
			if ( !c.mine ) throw Skip();
		}
		return v;
	}
	template< typename T > const T& pick( const std::vector< T >& v ) { return v[ choose( int( v.size() ) ) ]; }
	template< typename T > T pick( std::initializer_list< T > v ) { return *( v.begin() + choose( int( v.size() ) ) ); }
	inline bool flip() { return choose( 2 ) == 1; }
	/// choose lo..hi inclusive
	inline int range( int lo, int hi ) { return lo + choose( hi - lo + 1 ); }

	inline bool tracing() { return ctx().trace; }
	inline void note( const std::string& s ) { if ( ctx().trace ) { printf( "  %s\n", s.c_str() ); fflush( stdout ); } }
	inline void state( uint64_t h ) { ctx().states.add( hash_bytes( &h, 8, 77 + ctx().cur_scenario ) ); }
	inline void state( const std::string& s ) { state( hash_str( s ) ); }
	inline void outcome( uint64_t h ) { ctx().outcomes.add( hash_bytes( &h, 8, 99 + ctx().cur_scenario ) ); }
	inline void outcome( const std::string& s ) { outcome( hash_str( s ) ); }
	inline void step() { ++ctx().transitions; if ( ctx().sh ) ctx().sh->heartbeat = ctx().sh->heartbeat + 1; }
	[[noreturn]] inline void discard() { throw Discard(); }

	/// printable form of a string
	inline std::string show( const std::string& s ) {
		std::string r = "\""; char b[ 8 ];
		for ( unsigned char ch : s ) {
			if ( ch == '"' || ch == '\\' ) { r += '\\'; r += ch; }
			else if ( ch < 32 || ch > 126 ) { snprintf( b, sizeof b, "\\x%02x", ch ); r += b; }
			else r += ch;
			if ( r.size() > 300 ) { r += "...(" + std::to_string( s.size() ) + ")"; break; }
		}
		return r + "\"";
	}
	inline std::string show( const char* s ) { return show( std::string( s ) ); }
	inline std::string show( bool b ) { return b ? "true" : "false"; }
	template< typename T > std::string show( const T& v ) { std::ostringstream o; o.precision( 17 ); o << v; return o.str(); }
	template< typename T > std::string show( const std::vector< T >& v ) { std::string r = "["; for ( size_t i = 0; i < v.size(); ++i ) r += ( i ? ", " : "" ) + show( v[ i ] ); return r + "]"; }
}

// record one transition; the text is only built while tracing
#define MC_STEP( expr_ ) do { ::mc::step(); if ( ::mc::tracing() ) { std::ostringstream mc_o_; mc_o_.precision( 17 ); mc_o_ << expr_; ::mc::note( mc_o_.str() ); } } while ( 0 )
#define MC_CHECK( cond_, expr_ ) do { if ( !( cond_ ) ) { std::ostringstream mc_o_; mc_o_.precision( 17 ); mc_o_ << expr_; ::mc::fail( mc_o_.str() ); } } while ( 0 )
#define MC_EQ( got_, want_, expr_ ) do { auto mc_g_ = ( got_ ); auto mc_w_ = ( want_ ); if ( !( mc_g_ == mc_w_ ) ) { std::ostringstream mc_o_; mc_o_.precision( 17 ); mc_o_ << expr_ << ": got " << ::mc::show( mc_g_ ) << ", expected " << ::mc::show( mc_w_ ); ::mc::fail( mc_o_.str() ); } } while ( 0 )
#define MC_SCENARIO( name_ ) static void name_(); static ::mc::Reg mc_reg_##name_( #name_, name_ ); static void name_()
// a recorded known finding: never part of the exploration, only replayed by the driver to report it
#define MC_KNOWN( name_ ) static void name_(); static ::mc::Reg mc_reg_##name_( #name_, name_, -1 ); static void name_()
#define MC_SCENARIO_SPLIT( name_, split_ ) static void name_(); static ::mc::Reg mc_reg_##name_( #name_, name_, split_ ); static void name_()
// evaluates to true if the statement throws a std::exception (the way this code base reports errors)
#define MC_THROWS( stmt_ ) ( [&]() -> bool { try { stmt_; } catch ( const std::exception& ) { return true; } return false; }() )

namespace mc
{
	inline double now_s() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
	extern std::function< void() > on_execution_start, on_worker_start;   // optional hooks of a harness
#ifndef MC_NO_MAIN
	std::function< void() > on_execution_start, on_worker_start;
#endif

	/// run one execution; returns 0 ok, 1 fail (msg), 2 skipped, 3 discarded
	inline int run_one( const Scenario& s, std::string& msg ) {
		Ctx& c = ctx();
		c.pos = 0;
		if ( c.sh ) { c.sh->nchoices = 0; }
		try {
			if ( on_execution_start ) on_execution_start();
			s.fn();
			return 0;
		}
		catch ( Fail& f ) { msg = f.msg; return 1; }
		catch ( Skip& ) { return 2; }
		catch ( Discard& ) { return 3; }
		catch ( std::exception& e ) { msg = std::string( "unexpected exception: " ) + e.what(); return 1; }
		catch ( ... ) { msg = "unexpected exception of unknown type"; return 1; }
	}

	inline bool advance( Ctx& c ) {
		c.choice.resize( c.pos ); c.width.resize( c.pos );
		while ( !c.choice.empty() ) {
			if ( c.choice.back() + 1 < c.width.back() ) { ++c.choice.back(); return true; }
			c.choice.pop_back(); c.width.pop_back();
		}
		return false;
	}

	inline std::string json_escape( const std::string& s ) {
		std::string r; char b[ 8 ];
		for ( unsigned char ch : s ) {
			if ( ch == '"' || ch == '\\' ) { r += '\\'; r += ch; }
			else if ( ch == '\n' ) r += "\\n";
			else if ( ch < 32 || ch > 126 ) { snprintf( b, sizeof b, "\\u%04x", ch ); r += b; }
			else r += ch;
		}
		return r;
	}

	struct WStats { uint64_t transitions, executions, discarded, max_depth, nscen; };

	inline int worker_main( Shared* sh, int w, int W, int tier, const std::string& out ) {
		Ctx& c = ctx();
		c.sh = sh; c.worker = w; c.workers = W; c.tier = tier; c.enumerating = true;
		if ( on_worker_start ) on_worker_start();
		auto& sc = scenarios();
		std::vector< uint64_t > per( sc.size(), 0 );
		std::vector< std::string > samples;
		for ( size_t si = 0; si < sc.size(); ++si ) {
			if ( sc[ si ].split < 0 ) continue;
			c.cur_scenario = int( si ); sh->scenario = int( si );
			c.choice.clear(); c.width.clear(); c.split = sc[ si ].split; c.have_prefix = false; c.last_prefix.clear();
			c.mine = true;
			while ( true ) {
				std::string msg;
				uint64_t tr0 = c.transitions;
				int r = run_one( sc[ si ], msg );
				sh->heartbeat = sh->heartbeat + 1;
				if ( r == 1 ) {
					snprintf( sh->msg, sizeof sh->msg, "%s", msg.c_str() );
					sh->nchoices = int( std::min< size_t >( c.pos, 4096 ) );
					sh->failed = 1;
					return 3;
				}
				bool counted = true;
				if ( r != 2 && int( c.pos ) < c.split ) // short execution: assign to one worker
					counted = int( c.prefix_no++ % W ) == w;
				if ( r == 0 && counted ) { ++c.executions; ++per[ si ]; sh->executions = c.executions; c.max_depth = std::max( c.max_depth, c.pos ); }
				if ( r == 3 && counted ) ++c.discarded;
				if ( r != 0 || !counted ) c.transitions = tr0;
				else if ( per[ si ] == 1 || per[ si ] == 40 || per[ si ] == 3000 ) {
					std::string l = sc[ si ].name; l += ' ';
					for ( size_t i = 0; i < c.pos; ++i ) l += ( i ? "," : "" ) + std::to_string( c.choice[ i ] );
					samples.push_back( l );
				}
				if ( !advance( c ) ) break;
			}
		}
		FILE* f = fopen( out.c_str(), "wb" );
		if ( !f ) internal_error( "cannot write worker result" );
		WStats st{ c.transitions, c.executions, c.discarded, c.max_depth, sc.size() };
		fwrite( &st, sizeof st, 1, f );
		fwrite( per.data(), 8, per.size(), f );
		for ( HashSet* h : { &c.states, &c.outcomes } ) {
			uint64_t n = h->n; fwrite( &n, 8, 1, f );
			std::vector< uint64_t > v; v.reserve( n ); for ( auto x : h->t ) if ( x ) v.push_back( x );
			fwrite( v.data(), 8, v.size(), f );
		}
		if ( fclose( f ) ) internal_error( "cannot write worker result" );
		if ( w == 1 % W && ( f = fopen( ( out + ".samples" ).c_str(), "w" ) ) ) { for ( auto& l : samples ) fprintf( f, "%s\n", l.c_str() ); fclose( f ); }
		return 0;
	}

	inline int replay_main( const std::string& scen, const std::vector< int >& choices, int tier, bool quiet ) {
		Ctx& c = ctx();
		c.trace = true; c.tier = tier;
		if ( on_worker_start ) on_worker_start();
		for ( size_t si = 0; si < scenarios().size(); ++si ) if ( scen == scenarios()[ si ].name ) {
			c.cur_scenario = int( si );
			c.choice = choices; c.width.assign( choices.size(), -1 );
			std::string msg;
			printf( "SCENARIO %s\n", scen.c_str() );
			int r = run_one( scenarios()[ si ], msg );
			if ( !quiet ) {
				if ( r == 1 ) printf( "FAIL %s\n", msg.c_str() ); else printf( "OK\n" );
			}
			fflush( stdout );
			return r == 1 ? 3 : 0;
		}
		fprintf( stderr, "no such scenario %s\n", scen.c_str() );
		return 71;
	}

	inline std::vector< int > parse_choices( const std::string& s ) {
		std::vector< int > v; std::stringstream st( s ); std::string t;
		while ( std::getline( st, t, ',' ) ) if ( !t.empty() ) v.push_back( atoi( t.c_str() ) );
		return v;
	}

	inline int mc_main( int argc, char** argv ) {
		std::string out = "result.json", scen, choices; int W = 8, tier = 0, only = -1; double hang = 20; bool replay = false, quiet = false;
		for ( int i = 1; i < argc; ++i ) {
			std::string a = argv[ i ];
			auto next = [&]() -> std::string { return i + 1 < argc ? argv[ ++i ] : ""; };
			if ( a == "--out" ) out = next();
			else if ( a == "--workers" ) W = atoi( next().c_str() );
			else if ( a == "--tier" ) tier = next() == "thorough";
			else if ( a == "--hang" ) hang = atof( next().c_str() );
			else if ( a == "--only" ) only = atoi( next().c_str() );
			else if ( a == "--replay" ) { replay = true; scen = next(); choices = next(); }
			else if ( a == "--quiet" ) quiet = true;
		}
		setvbuf( stdout, nullptr, _IOLBF, 0 );
		if ( replay ) return replay_main( scen, parse_choices( choices ), tier, quiet );

		double t0 = now_s();
		Shared* sh = (Shared*)mmap( nullptr, sizeof( Shared ) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
		if ( sh == MAP_FAILED ) internal_error( "mmap" );
		std::vector< pid_t > pid( W, -1 );
		std::vector< int > done( W, 0 ), status( W, 0 );
		std::vector< uint64_t > hb( W, 0 ); std::vector< double > hbt( W, now_s() ); std::vector< int > polls( W, 0 ); // a pause of the whole machine is no hang: many polls must have passed as well
		int nrun = 0;
		for ( int w = 0; w < W; ++w ) {
			if ( only >= 0 && w != only ) { done[ w ] = 1; continue; }
			fflush( nullptr );
			pid_t p = fork();
			if ( p < 0 ) internal_error( "fork" );
			if ( p == 0 ) { int r = worker_main( &sh[ w ], w, W, tier, out + ".w" + std::to_string( w ) ); fflush( nullptr ); _exit( r ); }
			pid[ w ] = p; ++nrun;
		}
		int bad = -1; const char* kind = "";
		while ( nrun > 0 && bad < 0 ) {
			int st; pid_t p = waitpid( -1, &st, WNOHANG );
			if ( p > 0 ) {
				for ( int w = 0; w < W; ++w ) if ( pid[ w ] == p ) {
					done[ w ] = 1; --nrun; status[ w ] = st;
					if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) {}
					else if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) { for ( int x = 0; x < W; ++x ) if ( !done[ x ] ) kill( pid[ x ], SIGKILL ); return 70; }
					else { bad = w; kind = sh[ w ].failed ? "fail" : "crash"; }
				}
				continue;
			}
			usleep( 2000 );
			double t = now_s();
			for ( int w = 0; w < W; ++w ) if ( !done[ w ] ) {
				if ( sh[ w ].heartbeat != hb[ w ] ) { hb[ w ] = sh[ w ].heartbeat; hbt[ w ] = t; polls[ w ] = 0; }
				else if ( ++polls[ w ] > 1500 && t - hbt[ w ] > hang ) { bad = w; kind = "hang"; }
			}
		}
		if ( bad >= 0 ) for ( int w = 0; w < W; ++w ) if ( !done[ w ] ) { kill( pid[ w ], SIGKILL ); waitpid( pid[ w ], nullptr, 0 ); }

		FILE* f = fopen( out.c_str(), "w" );
		if ( !f ) internal_error( "cannot write result" );
		if ( bad >= 0 ) {
			std::string cs; for ( int i = 0; i < sh[ bad ].nchoices && i < 4096; ++i ) cs += ( i ? "," : "" ) + std::to_string( sh[ bad ].choices[ i ] );
			std::string m = sh[ bad ].failed ? sh[ bad ].msg : "";
			fprintf( f, "{\"status\":\"%s\",\"worker\":%d,\"workers\":%d,\"scenario\":\"%s\",\"choices\":\"%s\",\"executions_before\":%llu,\"message\":\"%s\",\"wait_status\":%d}\n",
				kind, bad, W, scenarios()[ sh[ bad ].scenario ].name, cs.c_str(), (unsigned long long)sh[ bad ].executions, json_escape( m ).c_str(), status[ bad ] );
			fclose( f );
			return 3;
		}
		// merge
		std::vector< uint64_t > all[ 2 ], per( scenarios().size(), 0 );
		WStats tot{ 0, 0, 0, 0, 0 };
		for ( int w = 0; w < W; ++w ) if ( only < 0 || w == only ) {
			FILE* g = fopen( ( out + ".w" + std::to_string( w ) ).c_str(), "rb" );
			WStats st; if ( !g || fread( &st, sizeof st, 1, g ) != 1 ) internal_error( "worker result missing" );
			tot.transitions += st.transitions; tot.executions += st.executions; tot.discarded += st.discarded; tot.max_depth = std::max( tot.max_depth, st.max_depth );
			std::vector< uint64_t > p( per.size() ); if ( fread( p.data(), 8, p.size(), g ) != p.size() ) internal_error( "worker result short" );
			for ( size_t i = 0; i < p.size(); ++i ) per[ i ] += p[ i ];
			for ( auto& a : all ) {
				uint64_t n; if ( fread( &n, 8, 1, g ) != 1 ) internal_error( "worker result short" );
				size_t o = a.size(); a.resize( o + n ); if ( n && fread( &a[ o ], 8, n, g ) != n ) internal_error( "worker result short" );
			}
			fclose( g );
			unlink( ( out + ".w" + std::to_string( w ) ).c_str() );
		}
		for ( auto& a : all ) { std::sort( a.begin(), a.end() ); a.erase( std::unique( a.begin(), a.end() ), a.end() ); }
		fprintf( f, "{\"status\":\"ok\",\"executions\":%llu,\"transitions\":%llu,\"discarded\":%llu,\"max_choices\":%llu,\"states\":%llu,\"outcomes\":%llu,\"wall_s\":%.3f,\"scenarios\":{",
			(unsigned long long)tot.executions, (unsigned long long)tot.transitions, (unsigned long long)tot.discarded, (unsigned long long)tot.max_depth,
			(unsigned long long)all[ 0 ].size(), (unsigned long long)all[ 1 ].size(), now_s() - t0 );
		bool first = true;
		for ( size_t i = 0; i < per.size(); ++i ) if ( scenarios()[ i ].split >= 0 ) { fprintf( f, "%s\"%s\":%llu", first ? "" : ",", scenarios()[ i ].name, (unsigned long long)per[ i ] ); first = false; }
		fprintf( f, "}}\n" );
		fclose( f );
		return 0;
	}
}
#ifndef MC_NO_MAIN
int main( int argc, char** argv ) { return mc::mc_main( argc, argv ); }
#endif
