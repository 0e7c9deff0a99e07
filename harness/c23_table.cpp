// C23 table
// MC-SOURCES: flut/string_tools.cpp
// MC-BOUNDS: all sequences of at most 3 (quick) or 4 (thorough) operations out of 10 kinds (rows and columns with defaults, get-or-add, growing and shrinking resizes, writes by position and by label pair, copies) over 3 row and 3 column labels from 4 initial shapes, compared cell by cell after every operation; all resizes between tables of up to 5 x 5; tables of up to 257 rows or 65 columns built in 5 ways; defaults that are cells of the table; labels read from the table itself (tables up to 4 x 4, 8 operations)
// MC-ORACLE: list of rows, lists of labels
#include "gen.hpp"
#include "flut/string_tools.hpp"
#include "flut/table.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
typedef table< double, string > S;
struct R {
	vector< string > rl, cl; vector< vector< double > > d;
	static int find( const vector< string >& v, const string& l ) { for ( size_t i = 0; i < v.size(); ++i ) if ( !l.empty() && v[ i ] == l ) return int( i ); return -1; }
	void add_row( const string& l, double v ) { rl.push_back( l ); d.push_back( vector< double >( cl.size(), v ) ); }
	void add_col( const string& l, double v ) { cl.push_back( l ); for ( auto& r : d ) r.push_back( v ); }
	string text() const { std::ostringstream o; o << "Row"; for ( auto& c : cl ) o << "\t" << c; o << "\n"; for ( size_t r = 0; r < rl.size(); ++r ) { o << rl[ r ]; for ( auto v : d[ r ] ) o << "\t" << v; o << "\n"; } return o.str(); }
};
static const vector< string > names = { "a", "b", "c" };
static void check( S& s, const R& r, const char* which ) {
	const S& c = s; MC_EQ( c.row_size(), r.rl.size(), which << ": rows" ); MC_EQ( c.column_size(), r.cl.size(), which << ": columns" );
	MC_EQ( vector< string >( c.row_labels().begin(), c.row_labels().end() ), r.rl, which << ": row labels" ); MC_EQ( vector< string >( c.col_labels().begin(), c.col_labels().end() ), r.cl, which << ": column labels" );
	for ( auto& l : names ) { int x = R::find( r.rl, l ), y = R::find( r.cl, l ); MC_EQ( c.row_labels().find( l ), x < 0 ? no_index : index_t( x ), which << ": row of " << l ); MC_EQ( c.col_labels().find( l ), y < 0 ? no_index : index_t( y ), which << ": column of " << l ); }
	for ( size_t i = 0; i < r.rl.size(); ++i ) for ( size_t j = 0; j < r.cl.size(); ++j ) { MC_EQ( s( i, j ), r.d[ i ][ j ], which << ": cell (" << i << "," << j << ")" ); MC_EQ( c( i, j ), r.d[ i ][ j ], which << ": constant cell (" << i << "," << j << ")" ); if ( !r.rl[ i ].empty() && !r.cl[ j ].empty() ) MC_EQ( c( r.rl[ i ], r.cl[ j ] ), r.d[ i ][ j ], which << ": cell " << r.rl[ i ] << "," << r.cl[ j ] ); }
}
MC_SCENARIO_SPLIT( histories, 4 ) {
	int shape = mc::choose( 4 ), r0 = shape == 1 || shape == 3 ? 2 : 0, c0 = shape >= 2 ? 2 : 0; S s( r0, c0 ); R r; r.cl.assign( c0, "" ); for ( int i = 0; i < r0; ++i ) r.add_row( "", 0 ); S s2; R r2;
	MC_STEP( "table " << r0 << " x " << c0 ); int n = mc::range( 0, mc::bound( 3, 4 ) );
	for ( int i = 0; i < n; ++i ) {
		double v = 10 * ( i + 1 ); size_t NR = r.rl.size(), NC = r.cl.size();
		switch ( mc::choose( 10 ) ) {
		case 0: { string l = mc::pick( names ); bool d = mc::flip(); MC_STEP( "add_row " << l << ( d ? " with default" : "" ) ); if ( R::find( r.rl, l ) >= 0 ) MC_CHECK( MC_THROWS( s.add_row( l, v ) ), "duplicate row not reported" ); else { MC_EQ( d ? s.add_row( l, v ) : s.add_row( l ), NR, "row" ); r.add_row( l, d ? v : 0 ); } break; }
		case 1: { string l = mc::pick( names ); bool d = mc::flip(); MC_STEP( "add_column " << l << ( d ? " with default" : "" ) ); if ( R::find( r.cl, l ) >= 0 ) MC_CHECK( MC_THROWS( s.add_column( l, v ) ), "duplicate column not reported" ); else { MC_EQ( d ? s.add_column( l, v ) : s.add_column( l ), NC, "column" ); r.add_col( l, d ? v : 0 ); } break; }
		case 2: { string l = mc::pick( names ); MC_STEP( "get_or_add_row " << l ); index_t x = s.get_or_add_row( l, v ); if ( R::find( r.rl, l ) < 0 ) r.add_row( l, v ); MC_EQ( x, index_t( R::find( r.rl, l ) ), "row" ); break; }
		case 3: { string l = mc::pick( names ); MC_STEP( "get_or_add_column " << l ); index_t x = s.get_or_add_column( l, v ); if ( R::find( r.cl, l ) < 0 ) r.add_col( l, v ); MC_EQ( x, index_t( R::find( r.cl, l ) ), "column" ); break; }
		case 4: { int dr = mc::choose( 4 ) - 1, dc = mc::choose( 4 ) - 1; if ( int( NR ) + dr < 0 || int( NC ) + dc < 0 ) mc::discard(); MC_STEP( "resize by " << dr << " rows, " << dc << " columns" ); if ( dr < 0 || dc < 0 ) MC_CHECK( MC_THROWS( s.resize( NR + dr, NC + dc ) ), "shrinking not reported" ); else { s.resize( NR + dr, NC + dc ); for ( int j = 0; j < dc; ++j ) r.add_col( "", 0 ); for ( int j = 0; j < dr; ++j ) r.add_row( "", 0 ); } break; }
		case 5: { if ( !NR || !NC ) mc::discard(); size_t x = mc::choose( int( NR ) ), y = mc::choose( int( NC ) ); MC_STEP( "write (" << x << "," << y << ")" ); s( x, y ) = v; r.d[ x ][ y ] = v; break; }
		case 6: { string l = mc::pick( names ), k = mc::pick( names ); MC_STEP( "write " << l << "," << k ); s( l, k ) = v; if ( R::find( r.rl, l ) < 0 ) r.add_row( l, 0 ); if ( R::find( r.cl, k ) < 0 ) r.add_col( k, 0 ); r.d[ R::find( r.rl, l ) ][ R::find( r.cl, k ) ] = v; break; }
		case 7: { if ( i + 1 != n ) mc::discard(); string l = mc::pick( names ), k = mc::pick( names ); if ( R::find( r.rl, l ) >= 0 && R::find( r.cl, k ) >= 0 ) mc::discard(); MC_STEP( "read unknown " << l << "," << k ); const S& c = s; MC_CHECK( MC_THROWS( c( l, k ) ), "unknown label pair not reported" ); break; }
		case 8: MC_STEP( "exchange" ); std::swap( s, s2 ); std::swap( r, r2 ); break;
		case 9: MC_STEP( "copy" ); s2 = s; r2 = r; break;
		}
		check( s, r, "first" ); check( s2, r2, "second" );
	}
	if ( mc::ctx().pos % 3 == 0 ) { std::ostringstream o; o << s; MC_EQ( o.str(), r.text(), "printed table" ); }
	mc::state( r.text() ); mc::outcome( r.text() );
}
MC_SCENARIO_SPLIT( resizes, 4 ) {
	int a = mc::range( 0, 5 ), b = mc::range( 0, 5 ), c = mc::range( 0, 6 ), d = mc::range( 0, 6 ); S s( a, b ); R r; r.cl.assign( b, "" ); for ( int i = 0; i < a; ++i ) r.add_row( "", 0 ); for ( int i = 0; i < a; ++i ) for ( int j = 0; j < b; ++j ) s( i, j ) = r.d[ i ][ j ] = i * 10 + j + 1;
	MC_STEP( a << " x " << b << " to " << c << " x " << d ); if ( c < a || d < b ) MC_CHECK( MC_THROWS( s.resize( c, d ) ), "shrinking not reported" ); else { s.resize( c, d ); for ( int j = b; j < d; ++j ) r.add_col( "", 0 ); for ( int i = a; i < c; ++i ) r.add_row( "", 0 ); } check( s, r, "resized" );
	for ( int i = 0; i <= a; ++i ) MC_EQ( MC_THROWS( s( r.rl.size(), i ) ), true, "access beyond the last row" ); for ( int i = 0; i <= b; ++i ) MC_EQ( MC_THROWS( s( i, r.cl.size() ) ), true, "access beyond the last column" );
	s.add_row( "a", 7 ); r.add_row( "a", 7 ); s.add_column( "b", 8 ); r.add_col( "b", 8 ); check( s, r, "extended" );
}
MC_SCENARIO_SPLIT( texts, 3 ) { // cells of other types; interleaved label pairs
	table< string, string > t; std::map< std::pair< string, string >, string > m; int n = mc::range( 0, 4 ); for ( int i = 0; i < n; ++i ) { string a = mc::pick( names ), b = mc::pick( names ), v( 20 * ( i % 2 ) + 1, char( 'A' + i ) ); MC_STEP( "(" << a << "," << b << ") = " << v ); t( a, b ) = v; m[ { a, b } ] = v; const auto& c = t; for ( auto& x : m ) MC_EQ( c( x.first.first, x.first.second ), x.second, "cell" ); }
}
MC_SCENARIO_SPLIT( large, 2 ) { // many rows and columns, labelled in five ways of growing
	int R_ = mc::pick( { 1, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257 } ), C_ = mc::pick( { 1, 5, 8, 9, 16, 17, 33, 65 } ), how = mc::choose( 5 ); if ( R_ * C_ > 3000 ) mc::discard(); S s; R r; MC_STEP( R_ << " x " << C_ << " built way " << how ); auto rn = []( int i ) { return "r" + std::to_string( i ); }; auto cn = []( int i ) { return "c" + std::to_string( i ); };
	auto row = [&]( int i ) { s.add_row( rn( i ), i ); r.add_row( rn( i ), i ); }; auto col = [&]( int i ) { s.add_column( cn( i ), -i ); r.add_col( cn( i ), -i ); };
	if ( how == 0 ) { for ( int i = 0; i < R_; ++i ) row( i ); for ( int i = 0; i < C_; ++i ) col( i ); }
	else if ( how == 1 ) { for ( int i = 0; i < C_; ++i ) col( i ); for ( int i = 0; i < R_; ++i ) row( i ); }
	else if ( how == 2 ) { for ( int i = 0; i < std::max( R_, C_ ); ++i ) { if ( i < R_ ) row( i ); if ( i < C_ ) col( i ); } }
	else if ( how == 3 ) { s.resize( R_, C_ ); for ( int j = 0; j < C_; ++j ) r.add_col( "", 0 ); for ( int i = 0; i < R_; ++i ) r.add_row( "", 0 ); for ( int i = 0; i < 3; ++i ) { row( i ); col( i ); } }
	else { for ( int i = 0; i < R_; ++i ) for ( int j = i % 2; j < C_; j += 2 ) { s( rn( i ), cn( j ) ) = i * 100 + j; if ( R::find( r.rl, rn( i ) ) < 0 ) r.add_row( rn( i ), 0 ); if ( R::find( r.cl, cn( j ) ) < 0 ) r.add_col( cn( j ), 0 ); r.d[ R::find( r.rl, rn( i ) ) ][ R::find( r.cl, cn( j ) ) ] = i * 100 + j; } }
	for ( size_t i = 0; i < r.rl.size(); i += 2 ) for ( size_t j = i % 3; j < r.cl.size(); j += 3 ) s( i, j ) = r.d[ i ][ j ] = 0.5 + i * 1000 + j;
	check( s, r, "built" ); S t( s ); s.add_column( "last", 9 ); check( t, r, "copy" ); r.add_col( "last", 9 ); s.add_row( "end", 8 ); r.add_row( "end", 8 ); s.resize( r.rl.size() + 2, r.cl.size() + 1 ); r.add_col( "", 0 ); r.add_row( "", 0 ); r.add_row( "", 0 ); check( s, r, "extended" ); if ( how != 3 ) { MC_CHECK( MC_THROWS( s.add_row( r.rl[ ( r.rl.size() - 3 ) / 2 ] ) ) && MC_THROWS( s.add_column( r.cl[ ( r.cl.size() - 2 ) / 2 ] ) ), "duplicate label not reported" ); }
	std::ostringstream o, p; o << s; MC_CHECK( o.str() == r.text(), "printed table of " << R_ << " x " << C_ ); mc::state( uint64_t( R_ * 10000 + C_ * 10 + how ) );
}
MC_SCENARIO_SPLIT( own_values, 4 ) { // a default taken from a cell of the table itself
	int a = mc::range( 1, 4 ), b = mc::range( 1, 4 ), x = mc::choose( a ), y = mc::choose( b ), op = mc::choose( 5 ); S s( a, b ); R r; r.cl.assign( b, "" ); for ( int i = 0; i < a; ++i ) r.add_row( "", 0 ); for ( int i = 0; i < a; ++i ) for ( int j = 0; j < b; ++j ) s( i, j ) = r.d[ i ][ j ] = i * 10 + j + 1; double v = r.d[ x ][ y ]; MC_STEP( "operation " << op << " with the value of (" << x << "," << y << ") of " << a << " x " << b );
	switch ( op ) { case 0: s.add_row( "a", s( x, y ) ); r.add_row( "a", v ); break; case 1: s.add_column( "a", s( x, y ) ); r.add_col( "a", v ); break; case 2: s.get_or_add_row( "a", s( x, y ) ); r.add_row( "a", v ); break; case 3: s.get_or_add_column( "a", s( x, y ) ); r.add_col( "a", v ); break; default: s.resize( a + 2, b + 2, s( x, y ) ); r.add_col( "", v ); r.add_col( "", v ); r.add_row( "", v ); r.add_row( "", v ); }
	check( s, r, "extended" ); mc::state( uint64_t( ( ( a * 10 + b ) * 10 + x ) * 10 + y ) * 10 + op );
}
MC_SCENARIO_SPLIT( own_labels, 4 ) { // labels that are read from the table itself
	int a = mc::range( 1, 4 ), b = mc::range( 1, 4 ), x = mc::choose( a ), y = mc::choose( b ), op = mc::choose( 8 ); auto rn = []( int i ) { return "r" + std::to_string( i ) + string( i % 2 * 30, 'r' ); }; auto cn = []( int i ) { return "c" + std::to_string( i ) + string( i % 2 * 30, 'c' ); }; S s; R r; for ( int i = 0; i < a; ++i ) { s.add_row( rn( i ) ); r.add_row( rn( i ), 0 ); } for ( int i = 0; i < b; ++i ) { s.add_column( cn( i ) ); r.add_col( cn( i ), 0 ); } for ( int i = 0; i < a; ++i ) for ( int j = 0; j < b; ++j ) s( i, j ) = r.d[ i ][ j ] = i * 10 + j + 1;
	MC_STEP( "operation " << op << " with row " << x << ", column " << y << " of " << a << " x " << b ); auto& rl = s.row_labels(); auto& cl = s.col_labels(); string R_ = rn( x ), C_ = cn( y ); auto put = [&]( const string& p, const string& q ) { if ( R::find( r.rl, p ) < 0 ) r.add_row( p, 0 ); if ( R::find( r.cl, q ) < 0 ) r.add_col( q, 0 ); r.d[ R::find( r.rl, p ) ][ R::find( r.cl, q ) ] = 99; };
	switch ( op ) { case 0: s( rl[ x ], cl[ y ] ) = 99; put( R_, C_ ); break; case 1: s( rl[ x ], "new" ) = 99; put( R_, "new" ); break; case 2: s( "new", cl[ y ] ) = 99; put( "new", C_ ); break; case 3: s( cl[ y ], "new" ) = 99; put( C_, "new" ); break; case 4: s( "new", rl[ x ] ) = 99; put( "new", R_ ); break; case 5: s( cl[ y ], rl[ x ] ) = 99; put( C_, R_ ); break; case 6: s.add_row( cl[ y ], 5 ); r.add_row( C_, 5 ); break; default: s.add_column( rl[ x ], 5 ); r.add_col( R_, 5 ); }
	check( s, r, "extended" ); mc::state( uint64_t( ( ( a * 10 + b ) * 10 + x ) * 10 + y ) * 10 + op );
}
}
