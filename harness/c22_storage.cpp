// C22 storage, data_header, debug output
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp flut/system/debug_storage.cpp
// MC-BOUNDS: all sequences of at most 3 (quick) or 4 (thorough) operations out of 12 kinds (channels and frames with defaults or data, growing and shrinking resizes, labelling, writes by position, by channel and by label, clearing, copies) from 5 initial shapes, compared cell by cell after every operation; interpolation at every quarter frame, at 11 positions outside and for unknown channels; storages of up to 300 channels and 2000 frames (thorough 1000 and 20000), built channel by channel or frame by frame; all debug output sequences of at most 3 (quick) or 4 (thorough) writes over 3 labels; vectors and rotations with every component out of 8 values; debug output of up to 257 labels and 33 rounds; a frame or channel that is the data of the storage itself; empty labels in every position of 2..4 channels; labelling 1..4 unlabelled channels by 3 (4) calls over 3 labels
// MC-ORACLE: list of rows, list of labels
#include "gen.hpp"
#include "flut/storage.hpp"
#include "flut/system/debug_storage.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
typedef storage< double, string > S;
struct R {
	vector< string > labels; vector< vector< double > > rows;
	int find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( !l.empty() && labels[ i ] == l ) return int( i ); return -1; }
	void add_channel( const string& l, double v ) { labels.push_back( l ); for ( auto& r : rows ) r.push_back( v ); }
	void add_frame( double v ) { rows.push_back( vector< double >( labels.size(), v ) ); }
	string text() const { string s; for ( size_t c = 0; c < labels.size(); ++c ) s += labels[ c ] + ( c + 1 == labels.size() ? '\n' : '\t' ); for ( auto& r : rows ) for ( size_t c = 0; c < r.size(); ++c ) { std::ostringstream o; o << r[ c ]; s += o.str() + ( c + 1 == r.size() ? '\n' : '\t' ); } return s; }
};
static const vector< string > names = { "a", "b", "c" };
static void check( S& s, const R& r, const char* which ) {
	const S& c = s;
	MC_EQ( c.frame_size(), r.rows.size(), which << ": frames" ); MC_EQ( c.channel_size(), r.labels.size(), which << ": channels" ); MC_EQ( c.empty(), r.rows.empty() || r.labels.empty(), which << ": empty" );
	MC_EQ( c.labels().size(), r.labels.size(), which << ": labels" ); MC_EQ( c.data().size(), r.rows.size() * r.labels.size(), which << ": values" );
	for ( size_t i = 0; i < r.labels.size(); ++i ) MC_EQ( c.get_label( i ), r.labels[ i ], which << ": label of channel " << i );
	for ( auto& l : names ) { int x = r.find( l ); MC_EQ( c.find_channel( l ), x < 0 ? no_index : index_t( x ), which << ": channel of label " << l ); if ( x >= 0 && !r.rows.empty() ) MC_EQ( c( l ), r.rows.back()[ x ], which << ": most recent value of " << l ); }
	for ( size_t f = 0; f < r.rows.size(); ++f ) for ( size_t i = 0; i < r.labels.size(); ++i ) { MC_EQ( s( f, i ), r.rows[ f ][ i ], which << ": value (" << f << "," << i << ")" ); MC_EQ( c.at( f, i ), r.rows[ f ][ i ], which << ": checked value (" << f << "," << i << ")" ); MC_EQ( c.data()[ f * r.labels.size() + i ], r.rows[ f ][ i ], which << ": raw value" ); }
	if ( !r.rows.empty() ) for ( size_t i = 0; i < r.labels.size(); ++i ) { MC_EQ( s[ i ], r.rows.back()[ i ], which << ": most recent value of channel " << i ); MC_EQ( c[ i ], r.rows.back()[ i ], which << ": most recent value of channel " << i ); }
}
MC_SCENARIO_SPLIT( histories, 4 ) {
	int shape = mc::choose( 5 ), f0 = shape == 0 ? 0 : shape == 1 ? 2 : shape == 2 ? 0 : shape == 3 ? 2 : 1, c0 = shape == 0 ? 0 : shape == 1 ? 0 : shape == 2 ? 2 : shape == 3 ? 2 : 1;
	S s( f0, c0, 0.5 ); R r; r.labels.assign( c0, "" ); r.rows.assign( f0, vector< double >( c0, 0.5 ) ); S s2; R r2;
	MC_STEP( "storage of " << f0 << " frames, " << c0 << " channels" ); check( s, r, "first" );
	int n = mc::range( 0, mc::bound( 3, 4 ) );
	for ( int i = 0; i < n; ++i ) {
		double v = 10 * ( i + 1 ); size_t F = r.rows.size(), C = r.labels.size(); if ( C > 5 || F > 6 ) mc::discard();
		switch ( mc::choose( 12 ) ) {
		case 0: { string l = mc::pick( names ); MC_STEP( "add_channel " << l << " default " << v ); if ( r.find( l ) >= 0 ) MC_CHECK( MC_THROWS( s.add_channel( l, v ) ), "duplicate label not reported" ); else { MC_EQ( s.add_channel( l, v ), C, "index of the channel" ); r.add_channel( l, v ); } break; }
		case 1: { string l = mc::pick( names ); int k = mc::choose( 4 ); vector< double > d; for ( int j = 0; j < k; ++j ) d.push_back( v + j ); MC_STEP( "add_channel " << l << " with " << k << " values" ); if ( r.find( l ) >= 0 ) MC_CHECK( MC_THROWS( s.add_channel( l, d ) ), "duplicate label not reported" ); else { MC_EQ( s.add_channel( l, d ), C, "index of the channel" ); while ( r.rows.size() < d.size() ) r.add_frame( 0 ); r.add_channel( l, 0 ); for ( int j = 0; j < k; ++j ) r.rows[ j ].back() = d[ j ]; } break; }
		case 2: MC_STEP( "add_frame default" ); if ( mc::flip() ) { s.add_frame(); r.add_frame( 0 ); } else { s.add_frame( v ); r.add_frame( v ); } break;
		case 3: { int wrong = mc::choose( 3 ); vector< double > d; for ( size_t j = 0; j < C + wrong - ( wrong == 2 ? 3 : 0 ) && j < 9; ++j ) d.push_back( v + j ); if ( wrong == 2 && C == 0 ) mc::discard(); MC_STEP( "add_frame of " << d.size() << " values" ); if ( d.size() != C ) MC_CHECK( MC_THROWS( s.add_frame( d ) ), "frame of the wrong size not reported" ); else { s.add_frame( d ); r.rows.push_back( d ); } break; }
		case 4: { int df = mc::choose( 4 ) - 1, dc = mc::choose( 4 ) - 1; if ( int( F ) + df < 0 || int( C ) + dc < 0 ) mc::discard(); MC_STEP( "resize by " << df << " frames, " << dc << " channels" ); if ( df < 0 || dc < 0 ) MC_CHECK( MC_THROWS( s.resize( F + df, C + dc, v ) ), "shrinking not reported" ); else { s.resize( F + df, C + dc, v ); for ( int j = 0; j < dc; ++j ) r.add_channel( "", v ); for ( int j = 0; j < df; ++j ) r.add_frame( v ); } break; }
		case 5: { if ( C == 0 ) mc::discard(); size_t c = mc::choose( int( C ) + 1 ); string l = mc::pick( names ); int x = r.find( l ); bool same = c < C && r.labels[ c ] == l; MC_STEP( "label channel " << c << " as " << l ); if ( ( x >= 0 && !same ) || c == C ) MC_CHECK( MC_THROWS( s.set_label( c, l ) ), "invalid label not reported" ); else { s.set_label( c, l ); r.labels[ c ] = l; } break; }
		case 6: { if ( C == 0 || F == 0 ) mc::discard(); size_t f = mc::choose( int( F ) ), c = mc::choose( int( C ) ); MC_STEP( "write (" << f << "," << c << ")" ); if ( i % 2 ) s( f, c ) = v; else s.at( f, c ) = v; r.rows[ f ][ c ] = v; break; }
		case 7: { if ( C == 0 || F == 0 ) mc::discard(); size_t c = mc::choose( int( C ) ); MC_STEP( "write most recent of channel " << c ); s[ c ] = v; r.rows.back()[ c ] = v; break; }
		case 8: { string l = mc::pick( names ); MC_STEP( "write most recent of " << l ); if ( F == 0 ) { MC_CHECK( MC_THROWS( s[ l ] = v ), "write without frames not reported" ); break; } s[ l ] = v; if ( r.find( l ) < 0 ) r.add_channel( l, 0 ); r.rows.back()[ r.find( l ) ] = v; break; }
		case 9: { string l = mc::pick( names ); MC_STEP( "find_or_add_channel " << l ); index_t x = s.find_or_add_channel( l, v ); if ( r.find( l ) < 0 ) r.add_channel( l, v ); MC_EQ( x, index_t( r.find( l ) ), "channel" ); break; }
		case 10: MC_STEP( "clear" ); s.clear(); r = R(); break;
		case 11: MC_STEP( "copy, then exchange" ); if ( mc::flip() ) { s2 = s; r2 = r; } else { std::swap( s, s2 ); std::swap( r, r2 ); } break;
		}
		check( s, r, "first" ); check( s2, r2, "second" );
	}
	if ( mc::ctx().pos % 3 == 0 ) { std::ostringstream o; o << s; MC_EQ( o.str(), r.text(), "printed storage" ); }
	mc::state( r.text() ); mc::outcome( r.text() );
}
MC_SCENARIO_SPLIT( invalid_positions, 2 ) {
	int F = mc::range( 0, 2 ), C = mc::range( 0, 2 ); S s( F, C, 1.0 ); const S& c = s; for ( int i = 0; i < C; ++i ) s.set_label( i, names[ i ] ); MC_STEP( F << " x " << C );
	for ( int f = 0; f <= F + 1; ++f ) for ( int i = 0; i <= C + 1; ++i ) { bool ok = f < F && i < C; MC_EQ( MC_THROWS( s.at( f, i ) ), !ok, "error of access (" << f << "," << i << ")" ); MC_EQ( MC_THROWS( c.at( f, i ) ), !ok, "error of constant access (" << f << "," << i << ")" ); }
	MC_CHECK( MC_THROWS( s.at( no_index, 0 ) ), "frame -1" ); MC_CHECK( MC_THROWS( s.at( 0, no_index ) ), "channel -1" ); MC_CHECK( MC_THROWS( c( string( "zz" ) ) ), "unknown label not reported" );
	if ( F == 0 || C == 0 ) { MC_CHECK( MC_THROWS( s[ index_t( 0 ) ] ), "most recent value without frames" ); MC_CHECK( MC_THROWS( c[ index_t( 0 ) ] ), "most recent value without frames" ); }
	for ( int f = 0; f <= F + 1; ++f ) for ( int i = 0; i <= C + 1; ++i ) if ( f < F || i < C ) MC_CHECK( MC_THROWS( s.resize( f, i ) ), "shrinking to " << f << " x " << i << " not reported" );
	R r; r.labels.assign( names.begin(), names.begin() + C ); r.rows.assign( F, vector< double >( C, 1.0 ) ); check( s, r, "after errors" );
}
MC_SCENARIO_SPLIT( growth, 3 ) { // larger storages, all channels at once and one by one
	int F = mc::range( 0, 9 ), C = mc::range( 0, 5 ), F2 = F + mc::choose( 5 ), C2 = C + mc::choose( 5 ); S s( F, C ); R r; r.labels.assign( C, "" ); r.rows.assign( F, vector< double >( C, 0 ) );
	for ( int f = 0; f < F; ++f ) for ( int c = 0; c < C; ++c ) s( f, c ) = r.rows[ f ][ c ] = f * 100 + c + 1;
	MC_STEP( F << " x " << C << " to " << F2 << " x " << C2 ); s.resize( F2, C2, -1 ); for ( int c = C; c < C2; ++c ) r.add_channel( "", -1 ); for ( int f = F; f < F2; ++f ) r.add_frame( -1 );
	check( s, r, "resized" ); std::ostringstream o; o << s; MC_EQ( o.str(), r.text(), "printed storage" );
}
MC_SCENARIO_SPLIT( large, 2 ) { // sizes beyond any buffer
	static const vector< int > cs = { 1, 2, 15, 17, 33, 63, 65, 127, 129, 255, 257, 300 }, fs = { 1, 2, 9, 33, 101, 257, 513, 1025, 2000 }; int C = mc::pick( cs ) * mc::bound( 1, 3 ), F = mc::pick( fs ) * mc::bound( 1, 10 ), how = mc::choose( 4 ); if ( how == 3 ? C > 33 || F > 300 : size_t( C ) * F > 80000u * mc::bound( 1, 10 ) ) mc::discard(); MC_STEP( F << " frames of " << C << " channels, built way " << how );
	S s; auto val = []( int f, int c ) { return f * 1000.0 + c; }; auto name = []( int c ) { return "ch" + std::to_string( c * 7 % 1009 ); };
	if ( how == 0 ) { for ( int c = 0; c < C; ++c ) MC_EQ( s.add_channel( name( c ) ), index_t( c ), "index" ); for ( int f = 0; f < F; ++f ) { vector< double > d; for ( int c = 0; c < C; ++c ) d.push_back( val( f, c ) ); s.add_frame( d ); } }
	else if ( how == 1 ) { for ( int c = 0; c < C; ++c ) { vector< double > d; for ( int f = 0; f < F; ++f ) d.push_back( val( f, c ) ); if ( size_t( C ) * C * F > 20000000u ) mc::discard(); s.add_channel( name( c ), d ); } }
	else if ( how == 2 ) { for ( int f = 0; f < F; ++f ) { s.add_frame(); for ( int c = 0; c < C; ++c ) s[ name( c ) ] = val( f, c ); } }
	else for ( int k = 0; k < std::max( C, F ); ++k ) { if ( k < F ) s.add_frame(); if ( k < C ) s.add_channel( name( k ) ); for ( size_t f = 0; f < s.frame_size(); ++f ) for ( size_t c = 0; c < s.channel_size(); ++c ) s( f, c ) = val( int( f ), int( c ) ); }
	MC_EQ( s.frame_size(), size_t( F ), "frames" ); MC_EQ( s.channel_size(), size_t( C ), "channels" ); const S k = s; for ( int c = 0; c < C; ++c ) { MC_EQ( k.get_label( c ), name( c ), "label" ); MC_EQ( k.find_channel( name( c ) ), index_t( c ), "channel of label " << name( c ) ); MC_EQ( k( name( c ) ), val( F - 1, c ), "most recent value of channel " << c ); MC_EQ( k[ index_t( c ) ], val( F - 1, c ), "most recent value" ); }
	for ( int f = 0; f < F; ++f ) for ( int c = 0; c < C; ++c ) if ( k( f, c ) != val( f, c ) || k.at( f, c ) != val( f, c ) ) mc::fail( "value (" + std::to_string( f ) + "," + std::to_string( c ) + ") is " + std::to_string( k( f, c ) ) );
	MC_CHECK( MC_THROWS( k.at( F, 0 ) ) && MC_THROWS( k.at( 0, C ) ) && k.find_channel( "zz" ) == no_index, "positions outside" ); if ( F > 1 ) for ( int c = 0; c < C; ++c ) { MC_EQ( k.get_interpolated_value( F - 1.5, c ), ( val( F - 2, c ) + val( F - 1, c ) ) / 2, "interpolated value of channel " << c ); MC_EQ( k.get_interpolated_value( 0.5, c ), ( val( 0, c ) + val( 1, c ) ) / 2, "interpolated value" ); } mc::state( uint64_t( F ) * 1000000 + C * 10 + how ); mc::outcome( uint64_t( F ) * 1000 + C );
}
MC_SCENARIO_SPLIT( interpolation, 3 ) {
	int F = mc::range( 2, 4 ), C = mc::range( 1, 3 ); S s( F, C ); const double vs[] = { 0, 1, -8, 4.5 }; for ( int f = 0; f < F; ++f ) for ( int c = 0; c < C; ++c ) s( f, c ) = c == 0 ? mc::pick( { 0., 4., -8. } ) : vs[ ( f * 3 + c ) % 4 ];
	MC_STEP( "interpolate " << F << " frames" );
	for ( int q = 0; q < ( F - 1 ) * 4; ++q ) for ( int c = 0; c < C; ++c ) { double p = q / 4.0; int f = q / 4; MC_EQ( s.get_interpolated_value( p, c ), s( f, c ) + ( p - f ) * ( s( f + 1, c ) - s( f, c ) ), "value at frame " << p << " of channel " << c ); }
	const double inf = std::numeric_limits< double >::infinity(); for ( double p : { double( F ), F - 1.0, F - 0.5, F + 0.5, -0.25, -1.0, -2.5, 1e9, 1e20, -1e20, inf } ) for ( int c = 0; c < C; ++c ) MC_CHECK( MC_THROWS( s.get_interpolated_value( p, c ) ), "interpolation at frame " << p << " of " << F << " not reported" );
	for ( size_t c : { size_t( C ), size_t( C + 1 ), no_index } ) for ( double p : { 0.0, 0.5, F - 2.0 } ) MC_CHECK( MC_THROWS( s.get_interpolated_value( p, c ) ), "interpolation of channel " << c << " of " << C << " not reported" );
}
MC_SCENARIO_SPLIT( headers, 3 ) { // label tables by themselves
	int n = mc::range( 0, 3 ); vector< string > l; for ( int i = 0; i < n; ++i ) { l.push_back( mc::pick( names ) ); } bool dup = false; for ( int i = 0; i < n; ++i ) for ( int j = 0; j < i; ++j ) dup = dup || l[ i ] == l[ j ]; if ( dup ) mc::discard();
	int how = mc::choose( 3 ); MC_STEP( "header of " << mc::show( l ) << " built way " << how ); data_header< string > h = how == 0 ? data_header< string >( l ) : how == 1 ? data_header< string >( size_t( n ) ) : data_header< string >(); if ( how == 1 ) for ( int i = n; i-- > 0; ) MC_EQ( h.set( i, l[ i ] ), index_t( i ), "index" ); if ( how == 2 ) for ( int i = 0; i < n; ++i ) MC_EQ( h.add( l[ i ] ), index_t( i ), "index" );
	auto look = [&] { MC_EQ( h.size(), l.size(), "size" ); MC_EQ( vector< string >( h.begin(), h.end() ), l, "labels" ); for ( auto& x : names ) { auto it = std::find( l.begin(), l.end(), x ); MC_EQ( h.find( x ), it == l.end() ? no_index : index_t( it - l.begin() ), "index of " << x ); } }; look();
	for ( int k = 0; k < 2; ++k ) { string x = mc::pick( names ); bool present = std::find( l.begin(), l.end(), x ) != l.end(); if ( mc::flip() ) { MC_STEP( "add " << x ); if ( present ) MC_CHECK( MC_THROWS( h.add( x ) ), "duplicate label not reported" ); else { h.add( x ); l.push_back( x ); } } else { if ( l.empty() ) mc::discard(); size_t c = mc::choose( int( l.size() ) ); MC_STEP( "set " << c << " to " << x ); if ( present && l[ c ] != x ) MC_CHECK( MC_THROWS( h.set( c, x ) ), "duplicate label not reported" ); else { h.set( c, x ); l[ c ] = x; } } look(); }
	mc::state( mc::show( l ) );
}
MC_SCENARIO( unlabelled_header ) { int n = mc::range( 0, 4 ), k = mc::range( 0, 4 ); MC_STEP( n << " channels, " << k << " added" ); data_header< void > h = n ? data_header< void >( size_t( n ) ) : data_header< void >(); for ( int i = 0; i < k; ++i ) { MC_EQ( h.size(), size_t( n + i ), "size" ); MC_EQ( h.add(), index_t( n + i ), "index of a new channel" ); } MC_EQ( h.size(), size_t( n + k ), "size" ); for ( int i = 0; i < n + k; ++i ) MC_EQ( h.get_label( i ), index_t( i ), "label" ); mc::state( uint64_t( n * 10 + k ) ); mc::outcome( uint64_t( n + k ) ); }
MC_SCENARIO_SPLIT( structured_values, 2 ) {
	S s; s.add_frame(); int n = mc::range( 0, 2 ); for ( int i = 0; i < n; ++i ) { math::vec3d v( 1 + i, 2 + i, 3 + i ); math::quatd q( 4 + i, 5 + i, 6 + i, 7 + i ); MC_STEP( "write vector and rotation" ); if ( i ) s.add_frame(); bool rev = mc::flip(); if ( rev ) write_storage( s, "q", q ); write_storage( s, "v", v ); if ( !rev ) write_storage( s, "q", q ); const S& c = s; MC_CHECK( c( "v.x" ) == v.x && c( "v.y" ) == v.y && c( "v.z" ) == v.z, "vector" ); MC_CHECK( c( "q.w" ) == q.w && c( "q.x" ) == q.x && c( "q.y" ) == q.y && c( "q.z" ) == q.z, "rotation" ); MC_EQ( s.channel_size(), size_t( 7 ), "channels" ); }
}
static string slurp( const string& fn ) { string s; FILE* f = fopen( fn.c_str(), "rb" ); if ( !f ) return "(no file)"; char b[ 4096 ]; size_t k; while ( ( k = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, k ); fclose( f ); return s; }
MC_SCENARIO_SPLIT( debug_output, 2 ) { // the values written for a label end up in one row until a label is written again
	int n = mc::range( 0, mc::bound( 3, 4 ) ); vector< int > seq; for ( int i = 0; i < n; ++i ) seq.push_back( mc::choose( 3 ) );
	string fn = "dbg" + std::to_string( getpid() ) + ".txt"; unlink( fn.c_str() ); MC_STEP( "debug output " << mc::show( seq ) ); fflush( nullptr );
	pid_t p = fork(); if ( p < 0 ) mc::internal_error( "fork" );
	if ( p == 0 ) { set_debug_output( path( fn ) ); for ( int i = 0; i < n; ++i ) write_debug( names[ seq[ i ] ], float( i + 1 ) ); exit( 0 ); }
	int st; waitpid( p, &st, 0 ); MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "debug writer ended abnormally" );
	const float none = std::numeric_limits< float >::lowest(); vector< string > labels; vector< vector< float > > rows;
	for ( int i = 0; i < n; ++i ) { const string& l = names[ seq[ i ] ]; size_t c = std::find( labels.begin(), labels.end(), l ) - labels.begin(); if ( c == labels.size() ) { labels.push_back( l ); for ( auto& r : rows ) r.push_back( none ); } if ( rows.empty() || rows.back()[ c ] != none ) rows.push_back( vector< float >( labels.size(), none ) ); rows.back()[ c ] = float( i + 1 ); }
	string want; for ( size_t c = 0; c < labels.size(); ++c ) want += labels[ c ] + ( c + 1 == labels.size() ? '\n' : '\t' ); for ( auto& r : rows ) for ( size_t c = 0; c < r.size(); ++c ) { std::ostringstream o; o << r[ c ]; want += o.str() + ( c + 1 == r.size() ? '\n' : '\t' ); }
	MC_EQ( slurp( fn ), n == 0 ? string( "(no file)" ) : want, "debug file" ); unlink( fn.c_str() );
}
MC_SCENARIO_SPLIT( structured_components, 2 ) { // every sign and magnitude of every component
	static const double vs[] = { 0.0, -0.0, 1.0, -1.0, 2.5, -1e-9, 1e300, -3e100 }; S s; s.add_frame(); int what = mc::choose( 2 ), n = what ? 4 : 3; double c[ 4 ] = {}; for ( int i = 0; i < n; ++i ) c[ i ] = vs[ mc::choose( 8 ) ]; MC_STEP( ( what ? "rotation " : "vector " ) << c[ 0 ] << " " << c[ 1 ] << " " << c[ 2 ] << " " << c[ 3 ] ); const S& k = s;
	for ( int f = 0; f < 2; ++f ) { if ( f ) { s.add_frame(); for ( int i = 0; i < n; ++i ) c[ i ] = -c[ i ]; } if ( what ) { write_storage( s, "b.rot", math::quatd( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ) ); MC_CHECK( k( "b.rot.w" ) == c[ 0 ] && k( "b.rot.x" ) == c[ 1 ] && k( "b.rot.y" ) == c[ 2 ] && k( "b.rot.z" ) == c[ 3 ], "rotation written as " << k( "b.rot.w" ) << " " << k( "b.rot.x" ) << " " << k( "b.rot.y" ) << " " << k( "b.rot.z" ) ); } else { write_storage( s, "b", math::vec3d( c[ 0 ], c[ 1 ], c[ 2 ] ) ); MC_CHECK( k( "b.x" ) == c[ 0 ] && k( "b.y" ) == c[ 1 ] && k( "b.z" ) == c[ 2 ], "vector written as " << k( "b.x" ) << " " << k( "b.y" ) << " " << k( "b.z" ) ); } }
	MC_EQ( s.channel_size(), size_t( n ), "channels" ); MC_EQ( s.frame_size(), size_t( 2 ), "frames" ); for ( int i = 0; i < n; ++i ) MC_CHECK( k( 0, i ) == -c[ i ] && k( 1, i ) == c[ i ], "frames of component " << i ); mc::state( uint64_t( what ) ); 
}
MC_SCENARIO_SPLIT( debug_large, 2 ) { // many labels and many rows of debug values
	int L = mc::pick( { 4, 8, 16, 17, 32, 33, 64, 65, 66, 100, 129, 257 } ), F = mc::pick( { 1, 2, 3, 10, 33 } ), skip = mc::choose( 3 ); string fn = "dbl" + std::to_string( getpid() ) + ".txt"; unlink( fn.c_str() ); MC_STEP( L << " labels, " << F << " rounds, pattern " << skip ); fflush( nullptr );
	auto used = [&]( int f, int l ) { return skip == 0 || f == 0 && skip == 1 || l == 0 || ( f + l ) % ( skip + 1 ) == 0; };
	pid_t p = fork(); if ( p < 0 ) mc::internal_error( "fork" ); if ( p == 0 ) { set_debug_output( path( fn ) ); for ( int f = 0; f < F; ++f ) for ( int l = 0; l < L; ++l ) if ( used( f, l ) ) write_debug( "v" + std::to_string( l ), float( f * 1000 + l + 1 ) ); exit( 0 ); }
	int st; waitpid( p, &st, 0 ); MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "debug writer ended abnormally" );
	const float none = std::numeric_limits< float >::lowest(); vector< string > labels; vector< vector< float > > rows; for ( int f = 0; f < F; ++f ) for ( int i = 0; i < L; ++i ) if ( used( f, i ) ) { string l = "v" + std::to_string( i ); size_t c = std::find( labels.begin(), labels.end(), l ) - labels.begin(); if ( c == labels.size() ) { labels.push_back( l ); for ( auto& r : rows ) r.push_back( none ); } if ( rows.empty() || rows.back()[ c ] != none ) rows.push_back( vector< float >( labels.size(), none ) ); rows.back()[ c ] = float( f * 1000 + i + 1 ); }
	string want; for ( size_t c = 0; c < labels.size(); ++c ) want += labels[ c ] + ( c + 1 == labels.size() ? '\n' : '\t' ); for ( auto& r : rows ) for ( size_t c = 0; c < r.size(); ++c ) { std::ostringstream o; o << r[ c ]; want += o.str() + ( c + 1 == r.size() ? '\n' : '\t' ); }
	string got = slurp( fn ); size_t d = 0; while ( d < got.size() && d < want.size() && got[ d ] == want[ d ] ) ++d; MC_CHECK( got == want, "debug file of " << L << " labels differs at byte " << d << " of " << want.size() ); unlink( fn.c_str() ); mc::state( uint64_t( L * 1000 + F * 10 + skip ) );
}
MC_SCENARIO_SPLIT( own_data, 3 ) { // the frame or channel added is the data of the storage itself
	bool frame = mc::flip(); int n = mc::range( 1, mc::bound( 5, 20 ) ), extra = mc::choose( 3 ); MC_STEP( "add the data of a storage of " << n << ( frame ? " channels as a frame" : " frames as a channel" ) ); S s( frame ? 1 : n, frame ? n : 1 ); R r; r.labels.assign( frame ? n : 1, "" ); r.rows.assign( frame ? 1 : n, vector< double >( frame ? n : 1 ) ); for ( int i = 0; i < n; ++i ) ( frame ? s( 0, i ) : s( i, 0 ) ) = ( frame ? r.rows[ 0 ][ i ] : r.rows[ i ][ 0 ] ) = i + 1;
	if ( frame ) { s.add_frame( s.data() ); r.rows.push_back( r.rows[ 0 ] ); } else { MC_EQ( s.add_channel( "a", s.data() ), index_t( 1 ), "index of the channel" ); r.labels.push_back( "a" ); for ( auto& x : r.rows ) x.push_back( x[ 0 ] ); }
	check( s, r, "extended" ); for ( int k = 0; k < extra; ++k ) { s.add_frame( k ); r.add_frame( k ); } check( s, r, "extended further" ); mc::state( uint64_t( n * 10 + extra * 2 + frame ) );
}
MC_SCENARIO( empty_labels ) { // a channel may be given the empty label; relabelling another channel leaves it alone
	int n = mc::range( 2, 4 ), a = mc::choose( n ), b = mc::choose( n ), back = mc::choose( 2 ); if ( a == b ) mc::discard(); MC_STEP( "channel " << a << " of " << n << " labelled \"\", then channel " << b << " labelled b" ); data_header< string > h( vector< string >{} ); vector< string > l; for ( int i = 0; i < n; ++i ) { l.push_back( i == a ? string() : "n" + std::to_string( i ) ); MC_EQ( h.add( l[ i ] ), index_t( i ), "index" ); }
	auto look = [&] { MC_EQ( vector< string >( h.begin(), h.end() ), l, "labels" ); for ( int i = 0; i < n; ++i ) MC_EQ( h.find( l[ i ] ), index_t( i ), "index of " << l[ i ] ); }; look(); h.set( b, l[ b ] = "b" ); look(); MC_CHECK( MC_THROWS( h.set( b, string() ) ), "second empty label not reported" ); MC_CHECK( MC_THROWS( h.add( string() ) ), "second empty label not reported" ); look(); if ( back ) { h.set( a, l[ a ] = "a" ); look(); h.set( b, l[ b ] = "" ); look(); }
	mc::state( uint64_t( n * 100 + a * 10 + b ) * 2 + back ); mc::outcome( uint64_t( a ) );
}
MC_SCENARIO( partly_labelled ) { // channels without a label may be labelled in any order
	int n = mc::range( 1, 4 ); data_header< string > h( ( size_t( n ) ) ); vector< string > l( n ); vector< int > given( n, 0 ); static const vector< string > some = { "c", "a", "b" };
	auto look = [&] { MC_EQ( vector< string >( h.begin(), h.end() ), l, "labels" ); for ( auto& x : some ) { index_t at = no_index; for ( int i = 0; i < n; ++i ) if ( given[ i ] && l[ i ] == x ) at = i; MC_EQ( h.find( x ), at, "index of \"" << x << "\"" ); } }; look();
	for ( int k = 0; k < mc::bound( 3, 4 ); ++k ) { int c = mc::choose( n ); string x = mc::pick( some ); bool taken = false; for ( int i = 0; i < n; ++i ) taken = taken || ( i != c && given[ i ] && l[ i ] == x ); MC_STEP( "channel " << c << " of " << n << " labelled \"" << x << "\"" ); if ( taken ) MC_CHECK( MC_THROWS( h.set( c, x ) ), "duplicate label not reported" ); else { MC_EQ( h.set( c, x ), index_t( c ), "index" ); given[ c ] = 1; l[ c ] = x; } look(); }
	mc::state( mc::show( l ) + mc::show( given ) );
}
}
