// C24 circular_frame_buffer
// MC-BOUNDS: all sequences of at most 4 (quick) or 5 (thorough) operations out of 8 kinds (frames, writes by number, by distance and to the newest frame, channels, labels, resizes, copies) on buffers of capacity 0..3 and 0..2 channels; all retained frames are compared after every operation through every accessor; 0..12 frames through capacities 1..5 with checked access at every position and interpolation at every quarter; capacities of up to 1000 with up to three rounds, 65 channels, 257 labels; up to 200000 frames through 8 capacities
// MC-ORACLE: list of all frames ever added, of which the last ones are retained
// MC-ASSUMES: labels of type text (the default); new frames are written before they are read; unchecked access only to retained frames
#include "gen.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
typedef circular_frame_buffer< double > B;
struct R { size_t cap; vector< string > labels; vector< vector< double > > frames;
	int find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( !l.empty() && labels[ i ] == l ) return int( i ); return -1; }
	void reset( size_t c, size_t n, double v ) { cap = c; labels.resize( n ); for ( auto& f : frames ) f.assign( n, v ); }
	size_t first() const { return frames.size() > cap ? frames.size() - cap : 0; } };
static const vector< string > names = { "a", "b", "c" };
static void check( B& b, const R& r, bool errors ) {
	const B& c = b; size_t N = r.frames.size(), C = r.labels.size(); MC_EQ( c.frame_size(), N, "frames" ); MC_EQ( c.channel_size(), C, "channels" ); MC_EQ( c.empty(), r.cap * C == 0, "empty" );
	for ( size_t i = 0; i < C; ++i ) MC_EQ( c.get_label( i ), r.labels[ i ], "label of channel " << i );
	for ( auto& l : names ) { int x = r.find( l ); MC_EQ( c.find_channel( l ), x < 0 ? no_index : index_t( x ), "channel of " << l ); }
	for ( size_t f = r.first(); f < N; ++f ) for ( size_t i = 0; i < C; ++i ) {
		double w = r.frames[ f ][ i ]; MC_EQ( b.at( f, i ), w, "value (" << f << "," << i << ")" ); MC_EQ( c.at( f, i ), w, "constant value (" << f << "," << i << ")" ); MC_EQ( b( f, i ), w, "unchecked value (" << f << "," << i << ")" ); MC_EQ( c( f, i ), w, "unchecked constant value (" << f << "," << i << ")" );
		MC_EQ( b.reverse( N - 1 - f, i ), w, "value " << N - 1 - f << " back" ); MC_EQ( c.reverse( N - 1 - f, i ), w, "constant value " << N - 1 - f << " back" ); if ( f + 1 == N ) { MC_EQ( b[ i ], w, "newest value" ); MC_EQ( c[ i ], w, "newest constant value" ); }
	}
	if ( errors ) for ( size_t f = 0; f <= N + 1; ++f ) for ( size_t i = 0; i <= C; ++i ) { bool ok = f >= r.first() && f < N && i < C; MC_EQ( MC_THROWS( b.at( f, i ) ), !ok, "error of access (" << f << "," << i << ")" ); if ( !ok ) MC_CHECK( MC_THROWS( c.at( f, i ) ), "error of constant access" ); }
}
MC_SCENARIO_SPLIT( histories, 4 ) {
	int cap = mc::choose( 4 ), ch = mc::choose( 3 ); B b = ch == 0 && cap == 0 ? B() : B( ch, cap ); R r; r.cap = cap; r.labels.assign( ch, "" ); MC_STEP( "buffer of " << cap << " frames, " << ch << " channels" ); int n = mc::range( 0, mc::bound( 4, 5 ) );
	for ( int i = 0; i < n; ++i ) {
		double v = 10 * ( i + 1 ); size_t N = r.frames.size(), C = r.labels.size(); int op = mc::choose( 8 ); bool data = N > 0 && r.cap > 0 && C > 0;
		switch ( op ) {
		case 0: { MC_STEP( "add_frame" ); b.add_frame(); r.frames.push_back( vector< double >( C, 0 ) ); for ( size_t c = 0; c < C && r.cap > 0; ++c ) { if ( i % 3 == 0 ) b[ c ] = v + c; else if ( i % 3 == 1 ) b( N, c ) = v + c; else b.reverse( 0, c ) = v + c; r.frames.back()[ c ] = v + c; } break; }
		case 1: { if ( !data ) mc::discard(); size_t f = r.first() + mc::choose( int( N - r.first() ) ), c = mc::choose( int( C ) ); MC_STEP( "write (" << f << "," << c << ")" ); if ( i % 2 ) b.at( f, c ) = v; else b( f, c ) = v; r.frames[ f ][ c ] = v; break; }
		case 2: { if ( !data ) mc::discard(); size_t k = mc::choose( int( N - r.first() ) ); MC_STEP( "write " << k << " back" ); b.reverse( k, C - 1 ) = v; r.frames[ N - 1 - k ][ C - 1 ] = v; break; }
		case 3: { string l = mc::pick( names ); MC_STEP( "add_channel " << l ); if ( r.find( l ) >= 0 ) MC_CHECK( MC_THROWS( b.add_channel( l ) ), "duplicate label not reported" ); else { MC_EQ( b.add_channel( l ), C, "channel" ); r.reset( r.cap, C + 1, 0 ); r.labels.back() = l; } break; }
		case 4: { string l = mc::pick( names ); MC_STEP( "find_or_add_channel " << l ); bool had = r.find( l ) >= 0; index_t x = b.find_or_add_channel( l ); if ( !had ) { r.reset( r.cap, C + 1, 0 ); r.labels.back() = l; } MC_EQ( x, index_t( r.find( l ) ), "channel" ); break; }
		case 5: { if ( !C ) mc::discard(); size_t c = mc::choose( int( C ) ); string l = mc::pick( names ); MC_STEP( "label " << c << " as " << l ); if ( r.find( l ) >= 0 && r.labels[ c ] != l ) MC_CHECK( MC_THROWS( b.set_label( c, l ) ), "duplicate label not reported" ); else { b.set_label( c, l ); r.labels[ c ] = l; } break; }
		case 6: { size_t f = mc::choose( 3 ) + ( i % 2 ); int with = mc::choose( 4 ); size_t c = C + ( with == 1 ); MC_STEP( "resize_buffer to " << f << " x " << c << " way " << with ); if ( with == 1 ) { b.resize_buffer( f, c, v ); r.reset( f, c, v ); } else if ( with == 0 ) { b.resize_buffer( f, C, 0.0 ); r.reset( f, C, 0 ); } else if ( with == 2 ) { b.resize_buffer( f ); r.reset( f, C, 0 ); } else { b.resize_buffer( f, v ); r.reset( f, C, v ); } break; }
		case 7: { MC_STEP( "copy" ); B t( b ); b = B(); b = t; break; }
		}
		check( b, r, i + 1 == n && i < 3 );
	}
	string st = std::to_string( r.cap ); for ( auto& l : r.labels ) st += l + ","; for ( auto& f : r.frames ) st += mc::show( f ); mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( long_runs, 2 ) {
	int cap = mc::range( 1, 5 ), n = mc::range( 0, 12 ), ch = mc::range( 1, 3 ); B b( ch, cap ); R r; r.cap = cap; r.labels.assign( ch, "" ); MC_STEP( n << " frames through " << cap );
	for ( int i = 0; i < n; ++i ) { b.add_frame(); r.frames.push_back( vector< double >( ch ) ); for ( int c = 0; c < ch; ++c ) b[ c ] = r.frames.back()[ c ] = ( ( i * 7 ) % 5 ) * 4 - c * 8; }
	check( b, r, true );
	for ( int f = 0; f + 1 < n; ++f ) for ( int c = 0; c < ch; ++c ) for ( int q = 0; q <= 4; ++q ) { double p = q / 4.0; if ( f >= int( r.first() ) ) MC_EQ( b.get_interpolated_value( f, c, p ), r.frames[ f ][ c ] + p * ( r.frames[ f + 1 ][ c ] - r.frames[ f ][ c ] ), "between frames " << f << " and " << f + 1 ); else if ( q == 0 ) MC_CHECK( MC_THROWS( b.get_interpolated_value( f, c, p ) ), "interpolation with an overwritten frame not reported" ); }
	for ( size_t f : { no_index, no_index - 1, no_index - cap, no_index / 2 } ) for ( size_t c : { size_t( 0 ), size_t( ch ), no_index } ) { MC_CHECK( MC_THROWS( b.get_interpolated_value( f, c, 0.5 ) ), "interpolation of frame " << f << " not reported" ); MC_CHECK( MC_THROWS( b.at( f, c ) ), "access to frame " << f << " not reported" ); } if ( n ) for ( size_t c : { no_index, no_index - ch, no_index / 2 } ) MC_CHECK( MC_THROWS( b.at( n - 1, c ) ), "access to channel " << c << " not reported" );
	MC_CHECK( MC_THROWS( b.get_interpolated_value( n, 0, 0.0 ) ), "interpolation of a future frame not reported" ); if ( n ) MC_CHECK( MC_THROWS( b.get_interpolated_value( n - 1, 0, 0.5 ) ), "interpolation beyond the newest frame not reported" ); if ( n > 1 && cap > 1 ) MC_CHECK( MC_THROWS( b.get_interpolated_value( n - 2, ch, 0.0 ) ), "interpolation of an unknown channel not reported" );
}
MC_SCENARIO_SPLIT( large, 2 ) {
	int cap = mc::pick( { 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000 } ), n = mc::choose( 8 ), ch = mc::pick( { 1, 2, 17, 65 } ); n = n == 0 ? cap - 1 : n == 1 ? cap : n == 2 ? cap + 1 : n == 3 ? 2 * cap - 1 : n == 4 ? 2 * cap : n == 5 ? 2 * cap + 1 : n == 6 ? 3 * cap : 3 * cap + 1; if ( ch > 2 && cap > 65 ) mc::discard();
	B b( ch, cap ); R r; r.cap = cap; r.labels.assign( ch, "" ); MC_STEP( n << " frames through " << cap << ", " << ch << " channels" );
	for ( int i = 0; i < n; ++i ) { b.add_frame(); r.frames.push_back( vector< double >( ch ) ); for ( int c = 0; c < ch; ++c ) b[ c ] = r.frames.back()[ c ] = i * 100 + c; }
	check( b, r, cap < 40 && ch < 3 ); for ( int f = int( r.first() ); f < n; ++f ) if ( f % 3 == 0 ) b.at( f, ch - 1 ) = r.frames[ f ][ ch - 1 ] = -f; check( b, r, false ); B t( b ); check( t, r, false );
	for ( int f = int( r.first() ); f + 1 < n; ++f ) MC_EQ( b.get_interpolated_value( f, ch - 1, 0.5 ), r.frames[ f ][ ch - 1 ] + 0.5 * ( r.frames[ f + 1 ][ ch - 1 ] - r.frames[ f ][ ch - 1 ] ), "between frames " << f << " and " << f + 1 );
	if ( r.first() > 0 ) MC_CHECK( MC_THROWS( b.at( r.first() - 1, 0 ) ) && MC_THROWS( b.at( 0, 0 ) ), "overwritten frame not reported" ); MC_CHECK( MC_THROWS( b.at( n, 0 ) ) && MC_THROWS( b.at( n - 1, ch ) ), "frame or channel out of range not reported" ); mc::state( uint64_t( cap ) * 1000000 + n * 100 + ch );
}
MC_SCENARIO_SPLIT( many_labels, 2 ) {
	int n = mc::pick( { 4, 8, 9, 16, 17, 33, 65, 129, 257 } ); bool or_add = mc::flip(); B b; R r; r.cap = 2; b.resize_buffer( 2 ); MC_STEP( n << " labels" ); auto nm = []( int i ) { return "ch" + std::to_string( i ); };
	for ( int i = 0; i < n; ++i ) MC_EQ( or_add ? b.find_or_add_channel( nm( i ) ) : b.add_channel( nm( i ) ), index_t( i ), "channel" );
	for ( int i = 0; i < n; ++i ) { MC_EQ( b.find_channel( nm( i ) ), index_t( i ), "channel of " << nm( i ) ); MC_EQ( b.find_or_add_channel( nm( i ) ), index_t( i ), "known channel" ); MC_EQ( b.get_label( i ), nm( i ), "label" ); MC_CHECK( MC_THROWS( b.add_channel( nm( i ) ) ), "duplicate label not reported" ); } MC_EQ( b.channel_size(), size_t( n ), "channels" ); MC_EQ( b.find_channel( nm( n ) ), no_index, "unknown label" );
	b.set_label( n / 2, "new" ); MC_EQ( b.find_channel( "new" ), index_t( n / 2 ), "renamed" ); MC_EQ( b.find_channel( nm( n / 2 ) ), no_index, "former label" ); mc::state( uint64_t( n * 2 + or_add ) );
}
MC_SCENARIO_SPLIT( very_many_frames, 1 ) { // frame numbers beyond 8, 16 bits
	int cap = mc::pick( { 1, 2, 3, 5, 7, 100, 256, 1000 } ), n = mc::pick( { 254, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073, 200000 } ), ch = mc::range( 1, 2 ); if ( n <= cap ) mc::discard(); B b( ch, cap ); MC_STEP( n << " frames through " << cap << ", " << ch << " channels" );
	for ( int i = 0; i < n; ++i ) { b.add_frame(); for ( int c = 0; c < ch; ++c ) b[ c ] = i * 2.0 + c; } MC_EQ( b.frame_size(), size_t( n ), "frames" ); for ( int f = n - cap; f < n; ++f ) for ( int c = 0; c < ch; ++c ) { MC_EQ( b.at( f, c ), f * 2.0 + c, "frame " << f ); MC_EQ( b( f, c ), f * 2.0 + c, "frame " << f ); MC_EQ( b.reverse( n - 1 - f, c ), f * 2.0 + c, "frame " << n - 1 - f << " back" ); if ( f + 1 < n ) MC_EQ( b.get_interpolated_value( f, c, 0.25 ), f * 2.0 + c + 0.5, "after frame " << f ); } MC_CHECK( MC_THROWS( b.at( n - cap - 1, 0 ) ) && MC_THROWS( b.at( n, 0 ) ) && MC_THROWS( b.at( 0, 0 ) ), "frame out of range not reported" ); mc::state( uint64_t( cap ) * 1000000 + n * 4 + ch );
}
}
