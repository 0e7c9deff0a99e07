// C20 circular_deque
// MC-BOUNDS: all sequences of 10 (quick) or 12 (thorough) pushes and pops at both ends from every initial capacity 0..3, all sequences of at most 5 (quick) or 7 (thorough) out of 11 operations including clear, reservations, copies and pushing an element of the deque itself, every wrap position of buffers of up to 65 (quick) or 257 (thorough) elements with growth at either end; the whole content is compared after every operation through ends, index and iterators; deques grown one at a time to up to 2049 elements in 4 ways and emptied in 3
// MC-ORACLE: std::deque
#include "gen.hpp"
#include "flut/system/types.hpp"
#include "flut/circular_deque.hpp"
#include <deque>
namespace vh { // own names do not clash with names of the library
using namespace flut;
template< typename V > void check( circular_deque< V >& d, const std::deque< V >& r ) {
	const circular_deque< V >& c = d; MC_EQ( c.size(), r.size(), "size" ); MC_EQ( c.empty(), r.empty(), "empty" ); MC_CHECK( c.capacity() >= c.size(), "capacity below size" );
	MC_EQ( c.full(), c.size() == c.capacity(), "full" );
	for ( size_t i = 0; i < r.size(); ++i ) { MC_EQ( d[ i ], r[ i ], "element " << i ); MC_EQ( c[ i ], r[ i ], "constant element " << i ); }
	size_t i = 0; for ( auto& v : d ) { MC_CHECK( i < r.size(), "iterates too far" ); MC_EQ( v, r[ i ], "iterated element " << i ); ++i; } MC_EQ( i, r.size(), "elements iterated" );
	i = 0; for ( auto it = c.begin(); it != c.end(); it++ ) { MC_CHECK( i < r.size(), "iterates too far" ); MC_EQ( *it, r[ i ], "iterated constant element " << i ); ++i; } MC_EQ( i, r.size(), "elements iterated" );
	i = 0; for ( auto it = d.begin(); !( it == d.end() ); ++i ) { MC_CHECK( i < r.size(), "iterates too far" ); auto was = it++; MC_EQ( *was, r[ i ], "element where the iterator was " << i ); MC_CHECK( was != it && !( was == it ) && long( it - was ) == 1 && it - 1 == was && was + 1 == it, "iterator positions" ); auto w2 = was; auto& w3 = ++w2; MC_CHECK( w2 == it && &w3 == &w2 && was.operator->() == &*was, "incremented iterator" ); } MC_EQ( i, r.size(), "elements iterated until equal to the end" );
	MC_EQ( long( d.end() - d.begin() ), long( r.size() ), "distance from begin to end" );
	if ( !r.empty() ) { MC_EQ( d.front(), r.front(), "front" ); MC_EQ( c.front(), r.front(), "constant front" ); MC_EQ( d.back(), r.back(), "back" ); MC_EQ( c.back(), r.back(), "constant back" ); MC_EQ( *( d.begin() + int( r.size() - 1 ) ), r.back(), "begin plus offset" ); MC_EQ( *( d.end() - 1 ), r.back(), "end minus one" ); }
}
template< typename V > void state( circular_deque< V >& d, const std::deque< V >& r, int base ) {
	std::string st = std::to_string( d.capacity() ) + ":"; if ( !r.empty() ) st += std::to_string( r.size() ); for ( auto& v : r ) st += "," + mc::show( v ); mc::state( st );
}
template< typename V > void empty_errors( circular_deque< V >& d ) {
	const circular_deque< V >& c = d; MC_CHECK( MC_THROWS( d.pop_back() ), "pop_back of an empty deque" ); MC_CHECK( MC_THROWS( d.pop_front() ), "pop_front of an empty deque" );
	MC_CHECK( MC_THROWS( d.front() ), "front of an empty deque" ); MC_CHECK( MC_THROWS( d.back() ), "back of an empty deque" ); MC_CHECK( MC_THROWS( c.front() ), "front of an empty deque" ); MC_CHECK( MC_THROWS( c.back() ), "back of an empty deque" );
	MC_EQ( d.size(), size_t( 0 ), "size after failed access" );
}
MC_SCENARIO_SPLIT( pushes_and_pops, 6 ) {
	int cap = mc::choose( 4 ); circular_deque< int > d( cap ); std::deque< int > r; int n = mc::bound( 10, 12 );
	for ( int i = 0; i < n; ++i ) {
		int op = mc::choose( 4 ); if ( op >= 2 && r.empty() ) mc::discard();
		switch ( op ) {
		case 0: MC_STEP( "push_back " << i ); d.push_back( i ); r.push_back( i ); break;
		case 1: MC_STEP( "push_front " << i ); d.push_front( i ); r.push_front( i ); break;
		case 2: MC_STEP( "pop_back" ); d.pop_back(); r.pop_back(); break;
		case 3: MC_STEP( "pop_front" ); d.pop_front(); r.pop_front(); break;
		}
		if ( i >= n - 2 || r.size() < 2 ) check( d, r );
	}
	state( d, r, 0 ); std::string o; for ( int v : r ) o += char( 'a' + v ); mc::outcome( o );
}
MC_SCENARIO_SPLIT( all_operations, 4 ) {
	int cap = mc::choose( 3 ); circular_deque< std::string > d( cap ), d2; std::deque< std::string > r, r2; int n = mc::range( 1, mc::bound( 5, 7 ) );
	for ( int i = 0; i < n; ++i ) {
		std::string v( 1 + i * 5, char( 'a' + i ) ); int op = mc::choose( 11 );
		if ( r.empty() && ( op == 2 || op == 3 || op == 6 || op == 7 || op == 10 ) ) mc::discard();
		switch ( op ) {
		case 0: MC_STEP( "push_back " << v ); d.push_back( v ); r.push_back( v ); break;
		case 1: MC_STEP( "push_front " << v ); d.push_front( v ); r.push_front( v ); break;
		case 2: MC_STEP( "pop_back" ); d.pop_back(); r.pop_back(); break;
		case 3: MC_STEP( "pop_front" ); d.pop_front(); r.pop_front(); break;
		case 4: MC_STEP( "clear" ); d.clear(); r.clear(); break;
		case 5: { size_t s = d.capacity() + size_t( mc::choose( 3 ) ); MC_STEP( "reserve " << s ); d.reserve( s ); MC_CHECK( d.capacity() >= s, "capacity after reserve" ); break; }
		case 6: MC_STEP( "push_back of the front" ); d.push_back( d.front() ); r.push_back( std::string( r.front() ) ); break;
		case 7: MC_STEP( "push_front of the back" ); d.push_front( d.back() ); r.push_front( std::string( r.back() ) ); break;
		case 8: MC_STEP( "copy to second" ); d2 = d; r2 = r; break;
		case 9: MC_STEP( "swap with second" ); { circular_deque< std::string > t( d ); d = d2; d2 = t; std::swap( r, r2 ); } break;
		case 10: { int x = mc::choose( int( r.size() ) ); MC_STEP( "write element " << x ); d[ x ] = v; r[ x ] = v; break; }
		}
		check( d, r ); check( d2, r2 );
	}
	state( d, r, 0 ); mc::outcome( mc::show( std::vector< std::string >( r.begin(), r.end() ) ) );
}
MC_SCENARIO_SPLIT( reservations, 5 ) { // every wrap position, then every reservation, then pushes
	int cap = mc::range( 0, 5 ), shift = mc::range( 0, 5 ), size = mc::range( 0, 5 ); bool front = mc::flip(); int res = mc::range( 0, 12 ), more = mc::range( 0, 4 ); if ( size > cap || ( cap == 0 && shift ) || shift >= std::max( cap, 1 ) ) mc::discard();
	circular_deque< int > d( cap ); std::deque< int > r; for ( int i = 0; i < shift; ++i ) { if ( front ) { d.push_front( i ); d.pop_back(); } else { d.push_back( i ); d.pop_front(); } }
	for ( int i = 0; i < size; ++i ) { d.push_back( 10 + i ); r.push_back( 10 + i ); }
	MC_STEP( "capacity " << cap << " shift " << shift << " size " << size << " reserve " << res << " then " << more << " more" );
	d.reserve( res ); check( d, r ); for ( int i = 0; i < more; ++i ) { if ( i % 2 ) { d.push_front( 20 + i ); r.push_front( 20 + i ); } else { d.push_back( 20 + i ); r.push_back( 20 + i ); } check( d, r ); }
	state( d, r, 0 );
}
MC_SCENARIO_SPLIT( emptied, 3 ) {
	circular_deque< int > d( mc::choose( 3 ) ); int n = mc::range( 0, 3 ); for ( int i = 0; i < n; ++i ) mc::flip() ? d.push_back( i ) : d.push_front( i );
	MC_STEP( "emptied after " << n ); if ( mc::flip() ) d.clear(); else while ( !d.empty() ) mc::flip() ? d.pop_front() : d.pop_back();
	empty_errors( d ); std::deque< int > r; check( d, r ); d.push_back( 5 ); r.push_back( 5 ); check( d, r );
}
MC_SCENARIO_SPLIT( long_queues, 2 ) { // every wrap position of long buffers, then growth at either end
	static const int caps[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 }; int cap = caps[ mc::choose( mc::bound( 12, 18 ) ) ], shift = mc::choose( cap ), end = mc::choose( 2 ), drop = mc::choose( 3 );
	circular_deque< int > d( cap ); std::deque< int > r; MC_STEP( "capacity " << cap << " first element at " << shift << " fill, drop " << drop << ", grow at the " << ( end ? "front" : "back" ) );
	for ( int i = 0; i < shift; ++i ) { d.push_back( i ); d.pop_front(); } for ( int i = 0; i < cap - drop; ++i ) { d.push_back( 1000 + i ); r.push_back( 1000 + i ); } check( d, r );
	for ( int i = 0; i < drop + 2; ++i ) { if ( end ) { d.push_front( i ); r.push_front( i ); } else { d.push_back( i ); r.push_back( i ); } check( d, r ); }
	for ( int i = 0; i < cap; ++i ) { if ( i % 3 ) { d.pop_front(); r.pop_front(); } else { d.pop_back(); r.pop_back(); } } check( d, r ); mc::state( std::to_string( cap ) + "/" + std::to_string( shift ) );
}
MC_SCENARIO_SPLIT( grown, 2 ) { // grown one element at a time to large sizes, then emptied
	int n = mc::pick( { 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049 } ), way = mc::choose( 4 ), out = mc::choose( 3 ), cap = mc::pick( { 0, 1, 5 } ); MC_STEP( n << " elements pushed in way " << way << " into a deque of capacity " << cap << ", emptied in way " << out );
	circular_deque< int > d( cap ); std::deque< int > r; for ( int i = 0; i < n; ++i ) { bool f = way == 1 || ( way == 2 && i % 2 ); if ( way == 3 && i % 3 == 2 ) { d.pop_front(); r.pop_front(); } if ( f ) { d.push_front( i ); r.push_front( i ); } else { d.push_back( i ); r.push_back( i ); } MC_CHECK( d.size() == r.size() && d.front() == r.front() && d.back() == r.back(), "wrong ends after " << i + 1 << " elements" ); } check( d, r ); { circular_deque< int > g( d ); for ( size_t more : { size_t( n ) + 1, size_t( 2 * n ) + 3, size_t( 9000 ) } ) { g.reserve( more ); MC_CHECK( g.capacity() >= more, "capacity after reserving " << more ); } check( g, r ); }
	circular_deque< int > e( d ); check( e, r ); for ( int i = 0; !r.empty(); ++i ) { if ( out == 0 || ( out == 2 && i % 2 ) ) { MC_CHECK( d.front() == r.front(), "wrong front" ); d.pop_front(); r.pop_front(); } else { MC_CHECK( d.back() == r.back(), "wrong back" ); d.pop_back(); r.pop_back(); } } check( d, r ); mc::state( uint64_t( ( n * 4 + way ) * 3 + out ) * 8 + cap );
}
}
