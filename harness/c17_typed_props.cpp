// C17 typed values in property trees
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/filesystem.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp flut/prop_node.cpp flut/prop_node_tools.cpp
// MC-BOUNDS: every supported type with all combinations of its boundary component values, stored in each of 7 ways (append, set new, replace, assign, index, delimited, macro) and retrieved in each of 6 ways directly and after saving and loading the tree; lists of length 0..12, and up to 2049; every notation of vectors and bounds with every component value and separator; present, absent and default values
// MC-ORACLE: the value that was stored; components as spelled out
// MC-ASSUMES: floating point values with at most six decimals (what is written)
#include "tree.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounds.hpp"
#include <climits>
#include <cfloat>
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string;
using std::vector;

template< typename T_ > bool eq( const T_& a, const T_& b ) { return a == b; }
template< typename T_ > bool eq( const math::quat_< T_ >& a, const math::quat_< T_ >& b ) { return a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z; }
template< typename T_ > bool eq( const math::transform_< T_ >& a, const math::transform_< T_ >& b ) { return eq( a.p, b.p ) && eq( a.q, b.q ); }
template< typename T_ > bool eq( const vector< T_ >& a, const vector< T_ >& b ) { if ( a.size() != b.size() ) return false; for ( size_t i = 0; i < a.size(); ++i ) if ( !eq( T_( a[ i ] ), T_( b[ i ] ) ) ) return false; return true; }
template< typename T_ > string str( const T_& v ) { return show_tree( read( make_prop_node( v ) ) ); }

static void write_text( std::ostream& o, const T& t ) { for ( auto& x : t.c ) { o << x.first; if ( !x.second.v.empty() || x.second.c.empty() ) o << " = " << quoted( x.second.v ); if ( !x.second.c.empty() ) { o << " {\n"; write_text( o, x.second ); o << "}"; } o << "\n"; } }

/// store v in one of several ways, retrieve it in every way
template< typename V > void roundtrip( const V& v, const char* type, const V& other, bool through_text )
{
	prop_node p; p.push_back( "before", string( "x" ) );
	int how = mc::choose( 8 ); string key = "some key"; if ( how == 5 ) key = "k"; if ( how == 7 ) key = "my_value";
	switch ( how ) {
	case 0: MC_STEP( type << " push_back " << str( v ) ); p.push_back( key, v ); break;
	case 1: MC_STEP( type << " set " << str( v ) ); p.set( key, v ); break;
	case 2: MC_STEP( type << " set replacing " << str( other ) << " by " << str( v ) ); p.set( key, other ); p.push_back( "after", string( "y" ) ); p.set( key, v ); break;
	case 3: MC_STEP( type << " assign " << str( v ) ); p.push_back( key ) = v; break;
	case 4: MC_STEP( type << " index and assign " << str( v ) ); p[ key ] = v; break;
	case 5: MC_STEP( type << " set_delimited " << str( v ) ); p.set_delimited( "x.y.k", v ); break;
	case 6: MC_STEP( type << " add tree " << str( v ) ); p.push_back( key, make_prop_node( v ) ); break;
	case 7: { MC_STEP( type << " SET_PROP " << str( v ) ); V my_value_ = v; SET_PROP( p, my_value_ ); break; }
	}
	if ( through_text && mc::flip() ) { std::ostringstream o; write_text( o, read( p ) ); MC_STEP( "as text: " << o.str() ); p = parse_prop( o.str().c_str() ); }
	const prop_node& c = how == 5 ? p.get_child( "x" ).get_child( "y" ) : p;
	if ( how == 5 ) MC_CHECK( eq( p.get_delimited< V >( "x.y.k" ), v ), type << " get_delimited returns " << str( p.get_delimited< V >( "x.y.k" ) ) << ", stored " << str( v ) );
	MC_CHECK( c.has_key( key ), "stored key is missing" );
	MC_CHECK( eq( c.get< V >( key ), v ), type << " get returns " << str( c.get< V >( key ) ) << ", stored " << str( v ) );
	MC_CHECK( eq( c.get< V >( key, other ), v ), type << " get with default returns " << str( c.get< V >( key, other ) ) << ", stored " << str( v ) );
	MC_CHECK( eq( c.get_child( key ).get< V >(), v ), type << " get of the child returns " << str( c.get_child( key ).get< V >() ) << ", stored " << str( v ) );
	MC_CHECK( eq( c.get_any< V >( { "nope", key }, other ), v ), type << " get_any returns " << str( c.get_any< V >( { "nope", key }, other ) ) << ", stored " << str( v ) );
	MC_CHECK( eq( c.get_any< V >( { key, "before" } ), v ), type << " get_any returns " << str( c.get_any< V >( { key, "before" } ) ) << ", stored " << str( v ) );
	if ( how == 7 ) { V my_value_ = other, q = other; INIT_PROP( c, my_value_, other ); MC_CHECK( eq( my_value_, v ), "INIT_PROP" ); INIT_PROP_NAMED( c, q, "my_value", other ); MC_CHECK( eq( q, v ), "INIT_PROP_NAMED" ); my_value_ = other; INIT_PROP_REQUIRED( c, my_value_ ); MC_CHECK( eq( my_value_, v ), "INIT_PROP_REQUIRED" ); q = other; INIT_PROP_NAMED_REQUIRED( c, q, "my_value" ); MC_CHECK( eq( q, v ), "INIT_PROP_NAMED_REQUIRED" ); }
	// a missing key gives the default, or an error; and changes nothing
	T before = read( p );
	MC_CHECK( eq( c.get< V >( "missing", other ), other ), type << " default" ); MC_CHECK( eq( c.get_any< V >( { "missing", "too" }, other ), other ), type << " default of get_any" );
	if ( mc::ctx().pos % 4 == 0 ) { MC_CHECK( MC_THROWS( c.get< V >( "missing" ) ), type << ": missing key not reported" ); MC_CHECK( MC_THROWS( c.get_any< V >( { "missing" } ) ), type << ": missing key not reported" ); }
	{ V missing_ = v; INIT_PROP( c, missing_, other ); MC_CHECK( eq( missing_, other ), "INIT_PROP default" ); }
	TREE_EQ( p, before, "tree changed by reading" ); MC_EQ( p.begin()->second.get_value(), string( "x" ), "entry before" );
	mc::state( string( type ) + str( v ) + char( 'a' + how ) ); mc::outcome( str( v ) );
}
enum color { red, green = 7, blue = -2 };
enum class shade : int { dark = 3, light = 100000 };

MC_SCENARIO( integers ) {
	switch ( mc::choose( 7 ) ) {
	case 0: roundtrip< int >( mc::pick( { 0, 1, -1, 9, 10, 255, 256, 65536, INT_MAX, INT_MIN, INT_MIN + 1 } ), "int", 42, true ); break;
	case 1: roundtrip< long >( mc::pick( { 0l, 1l, -1l, LONG_MAX, LONG_MIN, 1l << 53 } ), "long", 42l, true ); break;
	case 2: roundtrip< long long >( mc::pick( { 0ll, 7ll, -7ll, LLONG_MAX, LLONG_MIN } ), "long long", 42ll, true ); break;
	case 3: roundtrip< size_t >( mc::pick( { size_t( 0 ), size_t( 1 ), ~size_t( 0 ), size_t( 1 ) << 63, size_t( UINT_MAX ) + 1 } ), "size_t", size_t( 42 ), true ); break;
	case 4: roundtrip< unsigned >( mc::pick( { 0u, 1u, UINT_MAX, 1u << 31 } ), "unsigned", 42u, true ); break;
	case 5: roundtrip< short >( mc::pick( { short( 0 ), short( -1 ), short( SHRT_MAX ), short( SHRT_MIN ) } ), "short", short( 42 ), true ); break;
	case 6: roundtrip< bool >( mc::flip(), "bool", mc::flip(), true ); break;
	}
}
MC_SCENARIO( enums ) {
	if ( mc::flip() ) roundtrip< color >( mc::pick( { red, green, blue } ), "enum", green, true ); else roundtrip< shade >( mc::pick( { shade::dark, shade::light } ), "enum class", shade::dark, true );
}
MC_SCENARIO( texts ) {
	string s = gen::str( mc::bound( "a 1=", "a 1={\"" ), 0, mc::bound( 3, 4 ) );
	if ( mc::flip() ) roundtrip< string >( s, "string", "other", true ); else roundtrip< path >( path( s ), "path", path( "x/y.z" ), true );
}
MC_SCENARIO( reals ) {
	vector< double > d = { 0, 1, -1, 0.5, -0.25, 0.000001, -0.000001, 123456.789012, 1e15, 3.141592, 0.1, -0.999999 };
	if ( mc::flip() ) roundtrip< double >( mc::pick( d ), "double", 7.5, true );
	else roundtrip< float >( mc::pick( { 0.f, 1.f, -1.f, 0.5f, -0.25f, 1024.125f, 1e10f, 0.000001f, 0.015625f } ), "float", 7.5f, true );
}
static const vector< double > comp = { 0, 1, -2.5, 0.000001, 1000.25 };
template< typename F > math::vec3_< F > vec() { F x = F( mc::pick( comp ) ), y = F( mc::pick( comp ) ), z = F( mc::pick( comp ) ); return math::vec3_< F >( x, y, z ); }
template< typename F > math::quat_< F > quat() { F w = F( mc::pick( comp ) ), x = F( mc::pick( comp ) ), y = F( mc::pick( comp ) ), z = F( mc::pick( comp ) ); return math::quat_< F >( w, x, y, z ); }
MC_SCENARIO( vectors ) { if ( mc::flip() ) roundtrip( vec< double >(), "vec3d", math::vec3d( 1, 2, 3 ), true ); else roundtrip( vec< float >(), "vec3f", math::vec3f( 1, 2, 3 ), false ); }
MC_SCENARIO_SPLIT( rotations, 4 ) { if ( mc::flip() ) roundtrip( quat< double >(), "quatd", math::quatd( 4, 1, 2, 3 ), false ); else roundtrip( quat< float >(), "quatf", math::quatf( 4, 1, 2, 3 ), false ); }
MC_SCENARIO_SPLIT( transforms, 4 ) {
	auto v = vec< double >(); math::quatd q( 1, 2, 3, 4 ); int i = mc::choose( 4 ); ( i == 0 ? q.w : i == 1 ? q.x : i == 2 ? q.y : q.z ) = mc::pick( comp );
	math::transformd t( v, q ); roundtrip( t, "transform", math::transformd( math::vec3d( 9, 8, 7 ), math::quatd( 5, 6, 7, 8 ) ), true );
}
template< typename V > void list_of( const char* type, const vector< V >& values, int n ) {
	vector< V > l, o( 2, values[ 0 ] ); for ( int i = 0; i < n; ++i ) l.push_back( i < 3 ? mc::pick( values ) : values[ i % values.size() ] );
	roundtrip< vector< V > >( l, type, o, true );
}
MC_SCENARIO_SPLIT( lists, 4 ) {
	int n = mc::range( 0, 12 );
	switch ( mc::choose( 6 ) ) {
	case 0: list_of< int >( "vector<int>", { 1, -5, 0 }, n ); break;
	case 1: list_of< string >( "vector<string>", { "a", "", "b c" }, n ); break;
	case 2: list_of< double >( "vector<double>", { 0.5, -1, 1000000 }, n ); break;
	case 3: list_of< math::vec3d >( "vector<vec3>", { math::vec3d( 1, 2, 3 ), math::vec3d( -1, 0.5, 0 ) }, n ); break;
	case 4: list_of< long >( "vector<long>", { 1l, -9l }, n ); break;
	case 5: list_of< vector< int > >( "vector<vector<int>>", { { 1, 2 }, { 3 }, {} }, n ); break;
	}
}
MC_SCENARIO_SPLIT( long_lists, 2 ) { // every element keeps its place and has a key of its own
	int n = mc::pick( { 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049 } ); std::vector< int > v; for ( int i = 0; i < n; ++i ) v.push_back( i * 7 - 3 ); MC_STEP( n << " elements" ); prop_node p; p.set( "l", v ); MC_CHECK( p.get< std::vector< int > >( "l" ) == v, "long list" );
	const prop_node& l = p.get_child( "l" ); std::set< string > ks; for ( int i = 0; i < n; ++i ) { ks.insert( l.get_key( i ) ); MC_EQ( l.get< int >( l.get_key( i ) ), v[ i ], "element by its key" ); } MC_EQ( int( ks.size() ), n, "keys of the elements" ); mc::state( n );
	std::vector< string > w( n, "t" ); w.back() = "last"; p.set( "w", w ); MC_CHECK( p.get< std::vector< string > >( "w" ) == w, "long list of texts" );
}
MC_SCENARIO_SPLIT( any_keys_of_lists, 3 ) { // a list is read in order whatever its keys are
	vector< string > ks = { "a", "item0", "" , "item9" }; T t; T& l = t.add( "l" ); vector< int > want; int n = mc::range( 0, 4 );
	for ( int i = 0; i < n; ++i ) { l.add( mc::pick( ks ), std::to_string( i * 3 ) ); want.push_back( i * 3 ); }
	MC_STEP( show_tree( t ) ); prop_node p = build( t ); MC_EQ( p.get< vector< int > >( "l" ), want, "list" );
}
static const vector< std::pair< string, double > > num = { { "0", 0 }, { "1", 1 }, { "-2.5", -2.5 }, { "+3", 3 }, { "1e3", 1000 }, { ".5", 0.5 }, { "7.", 7 }, { "-0.125", -0.125 } };
MC_SCENARIO_SPLIT( vector_text, 3 ) {
	auto& x = mc::pick( num ); auto& y = mc::pick( num ); auto& z = mc::pick( num ); string sep = mc::pick( { " ", "  ", "\t", " \n" } ), lead = mc::pick( { "", " " } ), tail = mc::pick( { "", " " } );
	string s = lead + x.first + sep + y.first + sep + z.first + tail; T t; t.add( "v", s ); prop_node p = build( t );
	MC_STEP( "vector written as " << mc::show( s ) );
	auto v = p.get< math::vec3d >( "v" ); MC_CHECK( v.x == x.second && v.y == y.second && v.z == z.second, "vector text: " << v.x << ' ' << v.y << ' ' << v.z );
	auto f = p.get< math::vec3f >( "v" ); MC_CHECK( f.x == float( x.second ) && f.y == float( y.second ) && f.z == float( z.second ), "vector text: " << f.x << ' ' << f.y << ' ' << f.z );
	mc::state( s );
}
MC_SCENARIO_SPLIT( vector_components, 3 ) { // missing components are zero, in any order, unrelated entries are ignored
	T t; T& v = t.add( "v" ); double want[ 3 ] = { 0, 0, 0 }; vector< int > order = mc::pick( vector< vector< int > >{ { 0, 1, 2 }, { 2, 1, 0 }, { 1, 0, 2 } } );
	for ( int i : order ) if ( mc::flip() ) { auto& n = mc::pick( num ); v.add( string( 1, "xyz"[ i ] ), n.first ); want[ i ] = n.second; }
	if ( mc::flip() ) v.add( "w", "9" );
	MC_STEP( show_tree( t ) ); prop_node p = build( t ); auto r = p.get< math::vec3d >( "v" );
	MC_CHECK( r.x == want[ 0 ] && r.y == want[ 1 ] && r.z == want[ 2 ], "components: " << r.x << ' ' << r.y << ' ' << r.z );
	bool all = v.find( "x" ) >= 0 && v.find( "y" ) >= 0 && v.find( "z" ) >= 0 && v.find( "w" ) >= 0;
	if ( !all ) { MC_CHECK( MC_THROWS( p.get< math::quatd >( "v" ) ), "incomplete rotation not reported" ); MC_CHECK( MC_THROWS( p.get< math::transformd >( "v" ) ), "incomplete transform not reported" ); }
	else { auto q = p.get< math::quatd >( "v" ); MC_CHECK( q.w == 9 && q.x == want[ 0 ] && q.y == want[ 1 ] && q.z == want[ 2 ], "rotation components" ); }
}
template< typename F > void check_bounds( const T& t, double lo, double hi, bool has_lo = true, bool has_hi = true ) {
	prop_node p = build( t ); bounds< F > b( p );
	F l = has_lo ? F( lo ) : std::numeric_limits< F >::lowest(), u = has_hi ? F( hi ) : std::numeric_limits< F >::max();
	MC_CHECK( b.lower == l && b.upper == u, "bounds: got " << b.lower << " .. " << b.upper << ", expected " << l << " .. " << u );
	mc::state( show_tree( t ) ); mc::outcome( mc::show( l ) + mc::show( u ) );
}
MC_SCENARIO( bounds_text ) {
	vector< std::pair< string, double > > n = num, ni = { { "0", 0 }, { "1", 1 }, { "-2", -2 }, { "+3", 3 }, { "100", 100 } }; bool integral = mc::flip();
	auto& a = mc::pick( integral ? ni : n ); int form = mc::choose( 4 );
	if ( form == 0 ) { T t( a.first ); MC_STEP( "bounds " << a.first ); if ( integral ) check_bounds< int >( t, a.second, a.second ); else { check_bounds< double >( t, a.second, a.second ); check_bounds< float >( t, a.second, a.second ); } return; }
	auto& b = mc::pick( integral ? ni : n );
	string s = a.first + ( form == 1 ? ".." : form == 2 ? " .. " : ".. " ) + b.first;
	if ( a.first.back() == '.' && form != 2 ) mc::discard(); // "7..." has no defined reading
	MC_STEP( "bounds " << mc::show( s ) ); T t( s );
	if ( integral ) check_bounds< int >( t, a.second, b.second ); else { check_bounds< double >( t, a.second, b.second ); check_bounds< float >( t, a.second, b.second ); }
}
MC_SCENARIO( bounds_named ) {
	T t; double lo = 0, hi = 0; bool hl = false, hh = false; auto low = [&] { if ( ( hl = mc::flip() ) ) { auto& n = mc::pick( num ); t.add( mc::pick( { "min", "lower" } ), n.first ); lo = n.second; } };
	auto high = [&] { if ( ( hh = mc::flip() ) ) { auto& n = mc::pick( num ); t.add( mc::pick( { "max", "upper" } ), n.first ); hi = n.second; } };
	if ( mc::flip() ) { low(); high(); } else { high(); low(); }
	if ( mc::flip() ) t.add( "other", "4" );
	MC_STEP( "bounds " << show_tree( t ) );
	if ( t.c.empty() ) MC_CHECK( MC_THROWS( bounds< double > b( build( t ) ) ), "bounds without content not reported" );
	else { check_bounds< double >( t, lo, hi, hl, hh ); check_bounds< float >( t, lo, hi, hl, hh ); }
}
}
