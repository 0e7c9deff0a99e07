// C10 property tree operations
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: all sequences of <= 3 (thorough 4) operations out of 45 (append, set, set by dotted key, get-or-add, erase and insert at every position, clear, copy, move, self and subtree assignment) on the root and on nested nodes, from 4 initial trees, over the keys a, b, empty and a.b; all pairs of trees with <= 3 nodes below the root for equality; nodes of up to 2049 children and chains of up to 257 levels with a difference anywhere; every lookup by every key, pattern and dotted key after each history
// MC-ORACLE: a plain recursive ordered list of (key, subtree), compared after every operation
#include "tree.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

static const std::vector< string > keys = { "a", "b", "", "a.b" };

/// all read operations on the tree agree with the reference and change nothing
static bool light = false; // light: without the reads that end in exceptions
static void lookups( const prop_node& p, const T& t, int depth )
{
	MC_EQ( p.size(), t.c.size(), "size" );
	MC_EQ( p.has_value(), !t.v.empty(), "has_value" );
	MC_EQ( p.empty(), t.v.empty() && t.c.empty(), "empty" );
	MC_EQ( p.get< string >(), t.v, "get< string >()" );
	for ( size_t i = 0; i < t.c.size(); ++i ) {
		MC_EQ( p.get_key( i ), t.c[ i ].first, "get_key" );
		TREE_EQ( p.get_child( i ), t.c[ i ].second, "get_child by index" );
		TREE_EQ( p[ i ], t.c[ i ].second, "operator[] by index" );
	}
	if ( !light ) MC_CHECK( MC_THROWS( p.get_child( t.c.size() ) ), "child past the end is not an error" );
	if ( !light ) MC_CHECK( MC_THROWS( p.get_key( t.c.size() ) ), "key past the end is not an error" );
	prop_node def( string( "default" ) );
	for ( auto& k : { string( "a" ), string( "b" ), string( "" ), string( "a.b" ), string( "zz" ) } ) {
		int i = t.find( k );
		MC_EQ( p.has_key( k ), i >= 0, "has_key( " << mc::show( k ) << " )" );
		MC_EQ( int( p.find( k ) - p.begin() ), i >= 0 ? i : int( t.c.size() ), "find( " << mc::show( k ) << " )" );
		MC_EQ( p.has_value( k ), i >= 0 && !t.c[ i ].second.v.empty(), "has_value( " << mc::show( k ) << " )" );
		MC_EQ( p.get< string >( k, "dflt" ), i >= 0 ? t.c[ i ].second.v : string( "dflt" ), "get( " << mc::show( k ) << ", default )" );
		if ( !light ) MC_EQ( MC_THROWS( p.get< string >( k ) ), i < 0, "get of " << mc::show( k ) << " is an error" );
		if ( !light ) MC_EQ( MC_THROWS( p.get_child( k ) ), i < 0, "get_child of " << mc::show( k ) << " is an error" );
		if ( !light ) MC_EQ( MC_THROWS( p[ k ] ), i < 0, "operator[] const of " << mc::show( k ) << " is an error" );
		const prop_node* c = p.try_get_child( k );
		MC_EQ( c != nullptr, i >= 0, "try_get_child( " << mc::show( k ) << " ) found" );
		const prop_node& d = p.try_get_child( k, def );
		if ( i >= 0 ) {
			MC_CHECK( c == &p[ size_t( i ) ] && &p.get_child( k ) == c && &p[ k ] == c && &d == c, "lookups of " << mc::show( k ) << " find different nodes" );
			MC_EQ( p.get< string >( k ), t.c[ i ].second.v, "get( " << mc::show( k ) << " )" );
		}
		else MC_CHECK( &d == &def, "default child not returned" );
		string any = p.get_any< string >( { "zz", k, "b" }, "none" );
		int j = i >= 0 ? i : t.find( "b" );
		MC_EQ( any, j >= 0 ? t.c[ j ].second.v : string( "none" ), "get_any with default" );
		if ( !light ) MC_EQ( MC_THROWS( p.get_any< string >( { "zz", k } ) ), i < 0, "get_any without default" );
		if ( i >= 0 ) MC_EQ( p.get_any< string >( { "zz", k, "b" } ), t.c[ i ].second.v, "get_any" );
		std::vector< size_t > sel, want;
		auto view = p.select( k );
		for ( auto it = view.begin(); it != view.end(); ++it ) sel.push_back( size_t( &( *it ) - &*p.begin() ) );
		for ( size_t n = 0; n < t.c.size(); ++n ) if ( t.c[ n ].first == k ) want.push_back( n );
		MC_EQ( sel, want, "select( " << mc::show( k ) << " )" );
	}
	for ( auto& pat : { string( "a*" ), string( "?" ), string( "*b" ), string( "*" ) } ) {
		std::vector< size_t > sel, want;
		auto view = p.select_pattern( pat );
		for ( auto it = view.begin(); it != view.end(); ++it ) sel.push_back( size_t( &( *it ) - &*p.begin() ) );
		for ( size_t n = 0; n < t.c.size(); ++n ) { const string& k = t.c[ n ].first; bool m = pat == "*" || ( pat == "?" && k.size() == 1 ) || ( pat == "a*" && !k.empty() && k[ 0 ] == 'a' ) || ( pat == "*b" && !k.empty() && k.back() == 'b' ); if ( m ) want.push_back( n ); }
		MC_EQ( sel, want, "select_pattern( " << mc::show( pat ) << " )" );
	}
	for ( auto& dk : { std::pair< string, string >( "a", "b" ), std::pair< string, string >( "b", "a" ), std::pair< string, string >( "a", "" ), std::pair< string, string >( "", "b" ) } ) {
		string key = dk.first + "." + dk.second, key2 = dk.first + "/" + dk.second;
		int i = t.find( dk.first ), j = i >= 0 ? t.c[ i ].second.find( dk.second ) : -1;
		const prop_node* c = p.try_get_child_delimited( key );
		MC_EQ( c != nullptr, j >= 0, "try_get_child_delimited( " << mc::show( key ) << " ) found" );
		if ( !light ) MC_EQ( MC_THROWS( p.get_delimited< string >( key ) ), j < 0, "get_delimited of " << mc::show( key ) << " is an error" );
		if ( j >= 0 ) {
			MC_CHECK( c == &p.get_child( dk.first ).get_child( dk.second ), "dotted access differs from stepwise access" );
			MC_EQ( p.get_delimited< string >( key ), t.c[ i ].second.c[ j ].second.v, "get_delimited( " << mc::show( key ) << " )" );
			MC_EQ( p.get_delimited< string >( key2, '/' ), t.c[ i ].second.c[ j ].second.v, "get_delimited( " << mc::show( key2 ) << " )" );
		}
	}
	if ( depth > 0 ) for ( size_t i = 0; i < t.c.size(); ++i ) lookups( p.get_child( i ), t.c[ i ].second, depth - 1 );
	TREE_EQ( p, t, "tree changed by lookups" );
}

static T initial( int k )
{
	T t;
	if ( k == 1 ) { t.v = "r"; t.add( "a", "1" ); t.add( "b" ).add( "a", "2" ); }
	else if ( k == 2 ) { t.add( "a", "1" ).add( "b", "x" ); t.add( "a", "2" ); t.add( "b", "" ); t.add( "a", "3" ); }
	else if ( k == 3 ) { t.add( "b", "v" ).add( "a" ).add( "b", "deep" ); t.add( "", "e" ); }
	return t;
}

static void history( int max_ops, int init )
{
	T t = initial( init ); prop_node p = build( t );
	T saved; prop_node copy; bool have_copy = false; int last_op = -1;
	MC_STEP( "initial " << show_tree( t ) );
	int n = mc::range( 0, max_ops );
	for ( int i = 0; i < n; ++i ) {
		// target: the root or the first or last child
		int where = t.c.empty() ? 0 : mc::choose( t.c.size() > 1 ? 3 : 2 );
		T& tt = where == 0 ? t : where == 1 ? t.c.front().second : t.c.back().second;
		prop_node& pp = where == 0 ? p : where == 1 ? p.get_child( index_t( 0 ) ) : p.get_child( p.size() - 1 );
		int op = mc::choose( 16 );
		last_op = op;
		switch ( op ) {
		case 0: { string k = mc::pick( keys ); MC_STEP( "push_back " << k << " = n" << i << " at " << where ); string v = "n" + std::to_string( i ); prop_node& r = pp.push_back( k, v ); tt.add( k, v ); MC_EQ( r.get_value(), v, "node returned by push_back" ); break; }
		case 1: { string k = mc::pick( keys ); MC_STEP( "set " << k << " = s" << i << " at " << where ); string v = "s" + std::to_string( i ); pp.set( k, v ); int j = tt.find( k ); if ( j >= 0 ) tt.c[ j ].second = T( v ); else tt.add( k, v ); break; }
		case 2: { auto k = mc::pick( { std::make_pair( "a", "b" ), std::make_pair( "b", "b" ), std::make_pair( "c", "" ) } ); MC_STEP( "set_delimited " << k.first << "." << k.second << " at " << where ); string v = "d" + std::to_string( i );
			pp.set_delimited( string( k.first ) + "." + k.second, v ); T& x = tt.get_or_add( k.first ); int j = x.find( k.second ); if ( j >= 0 ) x.c[ j ].second = T( v ); else x.add( k.second, v ); break; }
		case 3: { string k = mc::pick( { "a", "b", "c" } ); bool br = mc::flip(); MC_STEP( "get_or_add " << k << " at " << where ); string v = "g" + std::to_string( i ); ( br ? pp[ k ] : pp.get_or_add_child( k ) ).set_value( v ); tt.get_or_add( k ).v = v; break; }
		case 4: { if ( tt.c.empty() ) mc::discard(); int j = mc::choose( int( tt.c.size() ) ); MC_STEP( "erase " << j << " at " << where ); auto it = pp.erase( pp.cbegin() + j ); tt.c.erase( tt.c.begin() + j ); MC_EQ( int( it - pp.begin() ), j, "position returned by erase" ); break; }
		case 5: { int j = mc::choose( int( tt.c.size() ) + 1 ); MC_STEP( "insert at " << j << " of " << where ); prop_node src; src.push_back( "i", string( "1" ) ); src.push_back( "a", string( "2" ) ).push_back( "b" );
			if ( mc::flip() ) { auto it = pp.insert( pp.begin() + j, src.cbegin(), src.cend() ); MC_EQ( int( it - pp.begin() ), j, "position returned by insert" ); }
			else { auto it = pp.insert( pp.cbegin() + j, src.cbegin(), src.cend() ); MC_EQ( int( it - pp.cbegin() ), j, "position returned by insert" ); }
			T x( "1" ), y( "2" ); y.add( "b" ); tt.c.insert( tt.c.begin() + j, std::make_pair( string( "a" ), y ) ); tt.c.insert( tt.c.begin() + j, std::make_pair( string( "i" ), x ) ); break; }
		case 6: MC_STEP( "clear at " << where ); pp.clear(); tt = T(); break;
		case 7: { bool mv = mc::flip(); MC_STEP( "set_value at " << where ); string v = "w" + std::to_string( i ); if ( mv ) pp.set_value( string( v ) ); else pp.set_value( v ); tt.v = v; break; }
		case 8: MC_STEP( "copy whole tree" ); copy = p; saved = t; have_copy = true; break;
		case 9: if ( !have_copy ) mc::discard(); MC_STEP( "restore copy at " << where ); { T s = saved; pp = copy; tt = s; } break;
		case 10: { MC_STEP( "move through another node at " << where ); prop_node q( std::move( pp ) ); pp = std::move( q ); break; }
		case 11: { MC_STEP( "copy construct, change the original at " << where ); prop_node q( pp ); T s = tt; pp.push_back( "z", string( "9" ) ); pp.set_value( string( "changed" ) ); if ( !tt.c.empty() ) pp.get_child( index_t( 0 ) ).set_value( string( "changed" ) ); TREE_EQ( q, s, "copy changed with its original" ); pp = q; break; }
		case 12: { if ( tt.c.empty() ) mc::discard(); int j = mc::choose( int( tt.c.size() ) ), form = mc::choose( 3 ); MC_STEP( "replace node by its child " << j << " at " << where );
			T s = tt.c[ j ].second; if ( form == 0 ) pp = pp.get_child( index_t( j ) ); else if ( form == 1 ) pp.set( (const prop_node&)pp.get_child( index_t( j ) ) ); else pp = prop_node( &pp.get_child( index_t( j ) ) ); tt = s; break; }
		case 13: { MC_STEP( "assign to itself at " << where ); prop_node& self = pp; pp = self; break; }
		case 14: { string k = mc::pick( { "a", "" } ); int form = mc::choose( 3 ); MC_STEP( "push_back subtree under " << k << " at " << where ); T s = t; // a copy of the whole tree below one of its nodes
			if ( form == 0 ) { prop_node q( p ); pp.push_back( k, q ); } else if ( form == 1 ) pp.push_back( k, prop_node( p ) ); else { pp.push_back( k, pp ); s = tt; }
			tt.add( k, s ); break; }
		case 15: { string k = mc::pick( keys ); MC_STEP( "set subtree " << k << " at " << where ); prop_node q; q.push_back( "q", string( "1" ) ); T x; x.add( "q", "1" ); pp.set( k, q ); int j = tt.find( k ); if ( j >= 0 ) tt.c[ j ].second = x; else tt.add( k, x ); break; }
		}
		TREE_EQ( p, t, "tree after operation " << i );
		if ( have_copy ) TREE_EQ( copy, saved, "independent copy after operation " << i );
		mc::state( show_tree( t ) );
	}
	static mc::HashSet seen; // the lookups are checked once per worker for every distinct tree and last operation leading to it
	if ( seen.add( mc::hash_str( show_tree( t ) ) ^ uint64_t( last_op ) * 0x9E3779B97F4A7C15ull ) ) { light = n > 2; lookups( p, t, light ? 0 : 1 ); }
	prop_node eq( p ); MC_CHECK( eq == p && !( eq != p ), "a copy is not equal to its original " << show_tree( t ) );
	prop_node pc( &p ); TREE_EQ( pc, t, "copy from a pointer" );
	mc::outcome( show_tree( t ) );
}
MC_SCENARIO_SPLIT( histories, 5 ) { int init = mc::choose( 4 ); history( 2 + mc::thorough(), init ); }
MC_SCENARIO_SPLIT( deeper, 5 ) { int init = mc::pick( { 0, 1 } ); history( 3 + mc::thorough(), init ); }

MC_SCENARIO_SPLIT( equality, 6 ) {
	T a, b; int n = mc::bound( 2, 3 ), m = 2;
	a.v = mc::pick( { "", "1" } ); gen_children( a, n, 3, { "a", "b" }, { "", "1" }, { "1", "2" } );
	b.v = mc::pick( { "", "1" } ); gen_children( b, m, 3, { "a", "b" }, { "", "1" }, { "1", "2" } );
	MC_STEP( "compare " << show_tree( a ) << " with " << show_tree( b ) );
	prop_node p = build( a ), q = build( b );
	MC_EQ( p == q, a == b, "equality of " << show_tree( a ) << " and " << show_tree( b ) );
	MC_EQ( q == p, a == b, "equality of " << show_tree( b ) << " and " << show_tree( a ) );
	MC_EQ( p != q, a != b, "inequality of " << show_tree( a ) << " and " << show_tree( b ) );
	mc::state( show_tree( a ) + show_tree( b ) );
}
MC_SCENARIO_SPLIT( wide_nodes, 2 ) { // many children: relocation of the child list must keep everything
	int n = mc::range( 0, 70 ); int res = mc::choose( 3 ); T t; prop_node p; if ( res ) p.reserve( res == 1 ? 5 : 100 );
	MC_STEP( n << " children" );
	for ( int i = 0; i < n; ++i ) { string k = "k" + std::to_string( i % 13 ), v = std::to_string( i ); p.push_back( k, v ).push_back( "s", i ); t.add( k, v ).add( "s", v ); }
	TREE_EQ( p, t, "wide node" );
	for ( int i = 0; i < n; ++i ) MC_EQ( p.get< int >( "k" + std::to_string( i % 13 ) ), i % 13, "first match among duplicates" );
	prop_node q( p ); TREE_EQ( q, t, "copy of a wide node" );
	prop_node r( std::move( q ) ); TREE_EQ( r, t, "moved wide node" );
	MC_CHECK( empty_prop_node().empty(), "the empty node is not empty" );
	mc::state( std::to_string( n ) );
}
MC_SCENARIO_SPLIT( large_nodes, 2 ) { // sizes around every power of two and ten; a difference at any place is a difference
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049 } ), at = mc::pick( { 0, 1, -2, -1 } ); if ( at < 0 ) at += n; int kind = mc::choose( 6 );
	MC_STEP( n << " children, change " << kind << " at " << at );
	T t; prop_node p; for ( int i = 0; i < n; ++i ) { string k = "k" + std::to_string( i ), v = std::to_string( i ); p.push_back( k, v ).push_back( "s", i ); t.add( k, v ).add( "s", v ); }
	prop_node q( p ), r; r = p; MC_CHECK( q == p && p == r && !( q != p ), "copies of a node with " << n << " children are not equal" );
	string k = "k" + std::to_string( at ); MC_EQ( p.get< int >( k ), at, "value of key " << k ); MC_EQ( p.get_key( at ), k, "key at " << at ); MC_EQ( p.get< int >( k, -1 ), at, "value of key " << k ); MC_EQ( p.get_delimited< int >( k + ".s" ), at, "dotted key" );
	MC_EQ( int( p.find( k ) - p.begin() ), at, "position of " << k ); auto view = p.select( k ); int found = 0; for ( auto it = view.begin(); it != view.end(); ++it ) ++found; MC_EQ( found, 1, "selected" );
	switch ( kind ) {
	case 0: q.get_child( index_t( at ) ).set_value( string( "x" ) ); t.c[ at ].second.v = "x"; break;
	case 1: q.get_child( index_t( at ) ).get_child( "s" ).set_value( string( "x" ) ); t.c[ at ].second.c[ 0 ].second.v = "x"; break;
	case 2: q.erase( q.begin() + at ); t.c.erase( t.c.begin() + at ); break;
	case 3: q.insert( q.begin() + at, p.begin(), p.begin() + 1 ); t.c.insert( t.c.begin() + at, T( t ).c[ 0 ] ); break;
	case 4: ( q.begin() + at )->first = "other"; t.c[ at ].first = "other"; break;
	case 5: q.set( k, string( "y" ) ); t.c[ at ].second = T( "y" ); break;
	}
	MC_CHECK( p != q && !( p == q ) && q != p, "a difference at " << at << " of " << n << " children is not seen" ); TREE_EQ( q, t, "changed tree" ); MC_CHECK( p == r, "copy changed with its original" );
	q = std::move( r ); MC_CHECK( q == p, "moved tree differs" ); q.clear(); MC_CHECK( q.empty() && q.size() == 0, "cleared tree" );
}
MC_SCENARIO_SPLIT( deep_nodes, 2 ) {
	int n = mc::pick( { 2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 100, 101, 200, 257 } ), at = mc::range( 0, 3 ); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1; char delim = mc::pick( { '.', '/' } );
	string key; for ( int i = 0; i < n; ++i ) key += ( i ? string( 1, delim ) : "" ) + "n" + std::to_string( i ); MC_STEP( "key of " << n << " levels" );
	prop_node p; if ( delim == '.' ) p.set_delimited( key, 7 ); else p.set_delimited( key, 7, delim ); T t, *x = &t; for ( int i = 0; i < n; ++i ) x = &x->add( "n" + std::to_string( i ) ); x->v = "7"; TREE_EQ( p, t, "tree made by a dotted key" );
	MC_EQ( p.get_delimited< int >( key, delim ), 7, "value at the dotted key" ); const prop_node* c = &p; for ( int i = 0; i < n; ++i ) c = &c->get_child( "n" + std::to_string( i ) ); MC_CHECK( ( (const prop_node&)p ).try_get_child_delimited( key, delim ) == c, "dotted access differs from stepwise access" );
	prop_node q( p ); MC_CHECK( q == p, "copy of a deep tree" ); prop_node* y = &q; for ( int i = 0; i <= at; ++i ) y = &y->get_child( index_t( 0 ) ); y->push_back( "extra" ); MC_CHECK( q != p, "difference at level " << at << " not seen" ); MC_CHECK( !( (const prop_node&)p ).try_get_child_delimited( key + delim + "zz", delim ), "missing dotted key found" );
}
}
