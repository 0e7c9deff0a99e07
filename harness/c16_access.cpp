// C16 access tracking
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: all trees of at most 3 (quick) or 4 (thorough) entries and depth 3 with all histories of at most 1 / 2 reads, and a 7-node tree with all histories of at most 2 / 3 reads, out of 19 kinds of reads at every node and key (present, absent, duplicate), trees of up to 1025 nodes in width and 200 in depth, then a count at every node, a copy, and the report
// MC-ORACLE: reference set of nodes reached by reads; the report is recomputed from that set
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/system/log_sink.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;

struct capture : public flut::log::sink {
	std::vector< string > lines;
	capture() : sink( flut::log::trace_level ) {}
	void send_log_message( flut::log::level l, const string& m ) override { lines.push_back( std::to_string( int( l ) ) + ":" + m ); }
};
struct N { prop_node* p; bool acc; std::vector< int > kids; std::vector< string > keys; string v; };
static std::vector< N > nodes;
static int index_nodes( prop_node& p, const T& t ) {
	int me = int( nodes.size() ); nodes.push_back( { &p, false, {}, {}, t.v } );
	for ( size_t i = 0; i < t.c.size(); ++i ) { int k = index_nodes( ( p.begin() + i )->second, t.c[ i ].second ); nodes[ me ].kids.push_back( k ); nodes[ me ].keys.push_back( t.c[ i ].first ); }
	return me;
}
static size_t unaccessed( int n ) { size_t c = nodes[ n ].acc ? 0 : 1; for ( int k : nodes[ n ].kids ) c += unaccessed( k ); return c; }
static void report( int n, int depth, std::vector< string >& out ) {
	for ( size_t i = 0; i < nodes[ n ].kids.size(); ++i ) {
		int k = nodes[ n ].kids[ i ];
		if ( unaccessed( k ) > 0 ) out.push_back( "4:" + string( depth * 2, ' ' ) + nodes[ n ].keys[ i ] + ( nodes[ k ].acc ? "" : ( nodes[ k ].v.empty() ? "" : " = " + nodes[ k ].v ) + " *" ) );
		report( k, depth + 1, out );
	}
}
static int child( int n, const string& k ) { for ( size_t i = 0; i < nodes[ n ].keys.size(); ++i ) if ( nodes[ n ].keys[ i ] == k ) return nodes[ n ].kids[ i ]; return -1; }
static void touch( int n ) { if ( n >= 0 ) nodes[ n ].acc = true; }
static void check_all( const char* when ) {
	for ( size_t i = 0; i < nodes.size(); ++i ) {
		MC_EQ( nodes[ i ].p->is_accessed(), nodes[ i ].acc, when << ": accessed flag of node " << i );
		MC_EQ( nodes[ i ].p->count_unaccessed(), unaccessed( int( i ) ), when << ": unaccessed nodes below node " << i );
	}
}
/// one read starting at any node
static void one_read() {
	int n = mc::choose( int( nodes.size() ) ); const prop_node& c = *nodes[ n ].p; prop_node& m = *nodes[ n ].p;
	int op = mc::choose( 20 ); std::vector< string > ks = { "a", "b", "zz" };
	string k, k2; if ( ( op >= 1 && op <= 12 ) || op >= 18 ) k = mc::pick( ks ); if ( op >= 10 && op <= 12 ) k2 = mc::pick( { "a", "b" } );
	int x = child( n, k );
	switch ( op ) {
	case 0: MC_STEP( "node " << n << ": get<string>()" ); MC_EQ( c.get< string >(), nodes[ n ].v, "value" ); touch( n ); break;
	case 1: MC_STEP( "node " << n << ": get(" << k << ")" ); if ( x >= 0 ) { MC_EQ( c.get< string >( k ), nodes[ x ].v, "value" ); } else MC_CHECK( MC_THROWS( c.get< string >( k ) ), "missing key not reported" ); touch( n ); touch( x ); break;
	case 2: MC_STEP( "node " << n << ": get(" << k << ",default)" ); MC_EQ( c.get< string >( k, string( "D" ) ), x >= 0 ? nodes[ x ].v : string( "D" ), "value" ); touch( n ); touch( x ); break;
	case 3: MC_STEP( "node " << n << ": get_any(zz," << k << ")" ); MC_EQ( c.get_any< string >( { "zz", k }, "D" ), x >= 0 ? nodes[ x ].v : string( "D" ), "value" ); touch( n ); touch( x ); break;
	case 4: MC_STEP( "node " << n << ": get_child(" << k << ").get_value()" ); if ( x >= 0 ) { MC_EQ( c.get_child( k ).get_value(), nodes[ x ].v, "value" ); touch( x ); touch( n ); } else { MC_CHECK( MC_THROWS( c.get_child( k ) ), "missing key not reported" ); touch( n ); } break;
	case 5: MC_STEP( "node " << n << ": try_get_child(" << k << ")" ); MC_CHECK( c.try_get_child( k ) == ( x >= 0 ? nodes[ x ].p : nullptr ), "try_get_child finds another node" ); touch( n ); touch( x ); break;
	case 6: MC_STEP( "node " << n << ": mutable try_get_child(" << k << ")" ); MC_CHECK( m.try_get_child( k ) == ( x >= 0 ? nodes[ x ].p : nullptr ), "try_get_child finds another node" ); touch( n ); touch( x ); break;
	case 7: MC_STEP( "node " << n << ": try_get_child(" << k << ",default)" ); MC_CHECK( &c.try_get_child( k, empty_prop_node() ) == ( x >= 0 ? nodes[ x ].p : &empty_prop_node() ), "try_get_child finds another node" ); touch( n ); touch( x ); break;
	case 8: MC_STEP( "node " << n << ": has_key(" << k << ")" ); MC_EQ( c.has_key( k ), x >= 0, "has_key" ); touch( n ); break;
	case 9: MC_STEP( "node " << n << ": const [" << k << "].get<string>()" ); if ( x < 0 ) mc::discard(); MC_EQ( c[ k ].get< string >(), nodes[ x ].v, "value" ); touch( n ); touch( x ); break;
	case 10: { MC_STEP( "node " << n << ": get_delimited(" << k << "." << k2 << ")" ); int y = x >= 0 ? child( x, k2 ) : -1; if ( y >= 0 ) { MC_EQ( c.get_delimited< string >( k + "." + k2 ), nodes[ y ].v, "value" ); } else MC_CHECK( MC_THROWS( c.get_delimited< string >( k + "." + k2 ) ), "missing key not reported" ); touch( n ); touch( x ); touch( y ); break; }
	case 11: { MC_STEP( "node " << n << ": try_get_child_delimited(" << k << "/" << k2 << ")" ); int y = x >= 0 ? child( x, k2 ) : -1; MC_CHECK( c.try_get_child_delimited( k + "/" + k2, '/' ) == ( y >= 0 ? nodes[ y ].p : nullptr ), "try_get_child_delimited finds another node" ); touch( n ); touch( x ); touch( y ); break; }
	case 12: { MC_STEP( "node " << n << ": get_child(" << k << ").get_child(" << k2 << ").get_value()" ); int y = x >= 0 ? child( x, k2 ) : -1; if ( y < 0 ) mc::discard(); MC_EQ( c.get_child( k ).get_child( k2 ).get_value(), nodes[ y ].v, "value" ); touch( n ); touch( x ); touch( y ); break; }
	case 13: { MC_STEP( "node " << n << ": read the last entry by position" ); if ( nodes[ n ].kids.empty() ) mc::discard(); size_t i = nodes[ n ].kids.size() - 1; MC_EQ( c.get_child( i ).get_value(), nodes[ nodes[ n ].kids[ i ] ].v, "value" ); MC_EQ( c.get_key( i ), nodes[ n ].keys[ i ], "key" ); touch( n ); touch( nodes[ n ].kids[ i ] ); break; }
	case 14: MC_STEP( "node " << n << ": iterate and read every second entry" ); { size_t i = 0; for ( auto& e : c ) { if ( i % 2 == 0 ) { MC_EQ( e.second.get_value(), nodes[ nodes[ n ].kids[ i ] ].v, "value" ); touch( nodes[ n ].kids[ i ] ); } ++i; } touch( n ); } break;
	case 15: MC_STEP( "node " << n << ": reset" ); m.clear_accessed_recursively(); { std::function< void( int ) > f = [&]( int q ) { nodes[ q ].acc = false; for ( int z : nodes[ q ].kids ) f( z ); }; f( n ); } break;
	case 16: MC_STEP( "node " << n << ": size, empty, counts" ); MC_EQ( c.size(), nodes[ n ].kids.size(), "size" ); MC_EQ( c.empty(), nodes[ n ].kids.empty() && nodes[ n ].v.empty(), "empty" ); MC_EQ( c.has_value(), !nodes[ n ].v.empty(), "has_value" ); break; // not a read of content
	case 17: { MC_STEP( "node " << n << ": key of the first entry" ); if ( nodes[ n ].kids.empty() ) mc::discard(); MC_EQ( c.get_key( 0 ), nodes[ n ].keys[ 0 ], "key" ); touch( n ); break; }
	case 18: { MC_STEP( "node " << n << ": mutable [" << k << "].get<string>()" ); if ( x < 0 ) mc::discard(); MC_EQ( m[ k ].get< string >(), nodes[ x ].v, "value" ); touch( n ); touch( x ); break; }
	case 19: { MC_STEP( "node " << n << ": select(" << k << ")" ); auto view = c.select( k ); for ( auto it = view.begin(); it != view.end(); ++it ) { int z = nodes[ n ].kids[ &*it - &*c.begin() ]; MC_EQ( it->second.get< string >(), nodes[ z ].v, "value" ); touch( z ); } touch( n ); break; }
	}
}
static void history( T& t, int max_reads ) {
	prop_node p = build( t ); nodes.clear(); nodes.reserve( 16 ); index_nodes( p, t ); p.clear_accessed_recursively();
	check_all( "start" );
	int n = mc::range( 0, max_reads );
	for ( int i = 0; i < n; ++i ) { one_read(); check_all( "after read" ); }
	string st; for ( auto& x : nodes ) st += x.acc ? '1' : '0';
	mc::state( show_tree( t ) + st );
	switch ( mc::choose( 6 ) ) {
	case 0: { MC_STEP( "report" ); capture cap; log_unaccessed( p ); std::vector< string > want; report( 0, 0, want ); MC_EQ( cap.lines, want, "report of unaccessed entries" ); mc::outcome( st + mc::show( want ) ); break; }
	case 1: { MC_STEP( "copy" ); prop_node q( p ); MC_EQ( q.count_unaccessed(), t.count(), "unaccessed nodes of a copy" ); const prop_node* pp = &p; prop_node q2( pp ); MC_EQ( q2.count_unaccessed(), t.count(), "unaccessed nodes of a copy through a pointer" ); prop_node q3 = p.get< prop_node >(); MC_EQ( q3.count_unaccessed(), t.count(), "unaccessed nodes of a retrieved copy" ); prop_node q4( std::move( q3 ) ); MC_EQ( q4.count_unaccessed(), t.count(), "unaccessed nodes of a moved copy" ); touch( 0 ); check_all( "after being copied" ); break; }
	case 2: { MC_STEP( "copy assignment" ); prop_node q; q.push_back( "old", string( "x" ) ); q.clear_accessed_recursively(); q = p; MC_EQ( q.count_unaccessed(), t.count(), "unaccessed nodes of an assigned copy" ); check_all( "after being copied" ); break; }
	case 3: { MC_STEP( "insert as child" ); prop_node q; prop_node& r = q.push_back( "c", p ); MC_EQ( r.count_unaccessed(), t.count(), "unaccessed nodes of an inserted copy" ); check_all( "after being copied" ); break; }
	case 4: { MC_STEP( "read as a tree" ); prop_node q = const_cast< const prop_node& >( p ).get< prop_node >(); touch( 0 ); MC_EQ( q.count_unaccessed(), t.count(), "unaccessed nodes of a retrieved tree" ); check_all( "after being retrieved" ); break; }
	case 5: { MC_STEP( "parse afresh" ); string s; std::function< void( const T& ) > w = [&]( const T& x ) { for ( auto& e : x.c ) { s += e.first; if ( e.second.c.empty() || !e.second.v.empty() ) s += " = \"" + e.second.v + "\""; if ( !e.second.c.empty() ) { s += " { "; w( e.second ); s += " }"; } s += "\n"; } }; T u = t; u.v = ""; w( u ); prop_node q = parse_prop( s.c_str() ); MC_EQ( q.count_unaccessed(), u.count(), "unaccessed nodes of a parsed tree" ); break; }
	}
}
MC_SCENARIO_SPLIT( small_trees, 6 ) {
	T t; int budget = mc::bound( 3, 4 ); t.v = mc::pick( { "", "r" } );
	gen_children( t, budget, 3, { "a", "b" }, { "", "v" }, { "", "1" } );
	history( t, mc::bound( 1, 2 ) );
}
MC_SCENARIO_SPLIT( one_tree, 4 ) { // one tree with nesting, duplicate keys and empty values; longer histories
	T t; T& a = t.add( "a", "1" ); T& aa = a.add( "a" ); aa.add( "b", "2" ); a.add( "b", "3" ); t.add( "b" ); t.add( "a", "dup" );
	history( t, mc::bound( 2, 3 ) );
}
MC_SCENARIO_SPLIT( large_trees, 2 ) {
	int n = mc::pick( { 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1023, 1024, 1025 } ), shape = mc::choose( 4 ), which = mc::choose( 5 ); T t, *x = &t; t.v = "";
	if ( shape == 0 ) for ( int i = 0; i < n; ++i ) t.add( "k" + std::to_string( i ), std::to_string( i ) ); else if ( shape == 1 ) for ( int i = 0; i < std::min( n, 200 ); ++i ) x = &x->add( "k" + std::to_string( i ), i % 2 ? "" : "v" ); else if ( shape == 3 ) { auto& g = t.add( "g", "" ); for ( int i = 0; i < n; ++i ) g.add( "k" + std::to_string( i ), std::to_string( i ) ); } else for ( int i = 0; i < n; ++i ) t.add( "k", "" ).add( "s", std::to_string( i ) );
	MC_STEP( "tree of shape " << shape << " and size " << n << ", reads " << which ); prop_node p = build( t ); nodes.clear(); nodes.reserve( 2 * n + 8 ); index_nodes( p, t ); p.clear_accessed_recursively(); auto read_node = [&]( size_t i ) { nodes[ i ].p->get< string >(); touch( int( i ) ); };
	if ( which == 1 ) read_node( nodes.size() - 1 ); if ( which == 2 ) for ( size_t i = 0; i + 1 < nodes.size(); ++i ) read_node( i ); if ( which == 3 ) for ( size_t i = 0; i < nodes.size(); ++i ) read_node( i ); if ( which == 4 ) for ( size_t i = 0; i < nodes.size(); i += 2 ) read_node( i );
	size_t left = 0; for ( auto& z : nodes ) { left += !z.acc; MC_EQ( z.p->is_accessed(), z.acc, "accessed flag" ); } MC_EQ( p.count_unaccessed(), left, "unaccessed nodes" );
	capture cap; log_unaccessed( p ); std::vector< string > want; report( 0, 0, want ); MC_EQ( cap.lines, want, "report of unaccessed entries" ); p.clear_accessed_recursively(); MC_EQ( p.count_unaccessed(), nodes.size(), "unaccessed nodes after a reset" );
}
static void spit( const string& fn, const string& s ) { FILE* f = fopen( fn.c_str(), "wb" ); if ( !f || fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f ) ) mc::internal_error( "scratch file" ); }
MC_SCENARIO_SPLIT( loaded, 1 ) {
	string d = std::to_string( getpid() ); int kind = mc::choose( 5 ); string fn = d + mc::pick( { ".prop", ".xml", ".ini" } ); size_t pos = fn.find( '.' ); string ext = fn.substr( pos );
	spit( fn, ext == ".prop" ? "a = 1\nb { c = 2\n d { e = 3 } }\nf {}\n" : ext == ".xml" ? "<r><a>1</a><b><c>2</c><d><e>3</e></d></b><f/></r>" : "a = 1\n[b]\nc = 2\nd = 4\n[f]\ng=5\n" );
	spit( d + "main.prop", "r { INCLUDE { file = " + fn + "; merge_children = 1 } }" );
	if ( ext == ".ini" && ( kind == 0 || kind == 4 ) ) mc::discard();
	MC_STEP( "load " << fn << " as " << kind ); prop_node p;
	if ( kind == 0 ) p = load_file( path( fn ) );
	else if ( kind == 1 ) { if ( ext != ".prop" ) mc::discard(); p = load_prop( path( fn ) ); }
	else if ( kind == 2 ) { if ( ext != ".xml" ) mc::discard(); p = load_xml( path( fn ) ); }
	else if ( kind == 3 ) { if ( ext != ".ini" ) mc::discard(); p = load_ini( path( fn ) ); }
	else { p = load_file_with_include( path( ext == ".xml" ? d + "main.prop" : fn ) ); }
	size_t n = p.count_unaccessed(); T t = read( p ); MC_CHECK( t.count() > 4, "file not loaded" );
	MC_EQ( n, t.count(), "unaccessed nodes of a loaded tree" );
	unlink( fn.c_str() ); unlink( ( d + "main.prop" ).c_str() );
}
}
