// sched.hpp - controlled scheduling of real threads: exactly one registered thread runs at a time, and control
// changes only at schedule points (intercepted system calls), where the explorer chooses the next thread.
#pragma once
#include "mc.hpp"
#include <semaphore.h>
#include <pthread.h>
#include <thread>
#include <errno.h>

namespace sched
{
	struct actor { sem_t go; sem_t back; bool done = true; bool blocked = false; std::function< void() > job; const char* op = "start"; std::thread* th = nullptr; };
	inline std::vector< actor* >& actors() { static std::vector< actor* > v; return v; }
	inline thread_local actor* self = nullptr;
	inline bool& free_run() { static bool b = false; return b; }

	/// a schedule point of a controlled thread: hand control back and wait to be chosen again
	inline void point( const char* op ) { actor* a = self; if ( !a || free_run() ) return; int e = errno; a->op = op; sem_post( &a->back ); while ( sem_wait( &a->go ) ) {} errno = e; }

	inline void ensure( size_t n ) {
		while ( actors().size() < n ) {
			actor* a = new actor; sem_init( &a->go, 0, 0 ); sem_init( &a->back, 0, 0 ); actors().push_back( a );
			a->th = new std::thread( [a] { self = a; while ( true ) { while ( sem_wait( &a->go ) ) {} a->job(); a->done = true; sem_post( &a->back ); } } );
			a->th->detach();
		}
	}
	inline void resume( actor* a ) { sem_post( &a->go ); while ( sem_wait( &a->back ) ) {} }

	/// run the jobs under every schedule with at most max_preemptions preemptions (each execution follows one);
	/// env(k), if given, is an environment actor with env_steps atomic steps taken by the scheduling thread
	inline std::string run( const std::vector< std::function< void() > >& jobs, int max_preemptions, const std::function< void() >& env = nullptr, int env_steps = 0 ) {
		size_t n = jobs.size(); ensure( n ); free_run() = false; std::string trace;
		for ( size_t i = 0; i < n; ++i ) { auto a = actors()[ i ]; a->job = jobs[ i ]; a->done = false; a->blocked = false; a->op = "start"; }
		int last = -1, pre = 0;
		try {
			while ( true ) {
				std::vector< int > r; bool cur = false;
				if ( last >= 0 && last < int( n ) && !actors()[ last ]->done ) { r.push_back( last ); cur = true; }
				if ( !cur || pre < max_preemptions ) for ( int i = 0; i < int( n ); ++i ) if ( i != last && !actors()[ i ]->done ) r.push_back( i );
				bool all_done = r.empty(); if ( env_steps > 0 && ( !all_done ) && ( !cur || pre < max_preemptions ) ) r.push_back( int( n ) );
				if ( all_done ) break;
				int k = r[ mc::choose( int( r.size() ) ) ];
				if ( cur && k != last ) ++pre;
				trace += char( k == int( n ) ? 'E' : 'A' + k );
				if ( k == int( n ) ) { --env_steps; env(); continue; }
				mc::step(); if ( mc::tracing() ) mc::note( std::string( "  caller " ) + char( 'A' + k ) + " continues with " + actors()[ k ]->op );
				last = k; resume( actors()[ k ] );
			}
		}
		catch ( ... ) { free_run() = true; for ( size_t i = 0; i < n; ++i ) while ( !actors()[ i ]->done ) resume( actors()[ i ] ); throw; }
		return trace;
	}
}
// a mutex of the code under test never blocks the controlled scheduler: a waiting thread gives up control until it gets it
extern "C" int pthread_mutex_trylock( pthread_mutex_t* ) noexcept;
