// C26 dictionary, factory, memoize, clone, type names
// MC-SOURCES: flut/string_tools.cpp flut/char_stream.cpp flut/system/path.cpp flut/system_tools.cpp flut/system/log.cpp
// MC-BOUNDS: all dictionaries of at most 4 entries over 3 elements and 3 names with every lookup; all sequences of at most 5 (quick) or 6 (thorough) registrations of 3 classes under 3 names with every creation after each; all call sequences of at most 5 (quick) or 6 (thorough) calls of memoised functions of 1..3 arguments, by value and by reference, with failing calls; all vectors of at most 4 owned objects cloned and mutated; class names at every nesting, of and inside templates; dictionaries of up to 1000 elements, factories of up to 300 classes, memoised functions of up to 66000 arguments; lookups and dictionaries of names of up to 1000 characters that share all but one character
// MC-ORACLE: association lists; call counters
#include "gen.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/dictionary.hpp"
#include "flut/factory.hpp"
#include "flut/memoize.hpp"
#include "flut/memory_tools.hpp"
namespace vh { // own names do not clash with names of the library
using namespace flut;
using std::string; using std::vector;
enum color { red, green, blue };
MC_SCENARIO_SPLIT( dictionaries, 3 ) {
	vector< string > ns = { "one", "two", "" }; int n = mc::range( 0, 3 ); vector< std::pair< color, string > > e; for ( int i = 0; i < n; ++i ) { color k = color( mc::choose( 3 ) ); e.push_back( { k, mc::pick( ns ) } ); }
	typedef std::pair< color, string > P; dictionary< color > d = n == 0 ? dictionary< color >() : n == 1 ? dictionary< color >{ P( e[ 0 ] ) } : n == 2 ? dictionary< color >{ P( e[ 0 ] ), P( e[ 1 ] ) } : make_dictionary< color >( { e[ 0 ], e[ 1 ], e[ 2 ] } );
	MC_STEP( n << " entries" ); string st;
	for ( int k = 0; k < 3; ++k ) { auto it = std::find_if( e.begin(), e.end(), [&]( const P& p ) { return p.first == color( k ); } ); if ( it != e.end() ) MC_EQ( d( color( k ) ), it->second, "name of element " << k ); else MC_CHECK( MC_THROWS( d( color( k ) ) ), "unknown element not reported" ); }
	for ( auto& s : ns ) { auto it = std::find_if( e.begin(), e.end(), [&]( const P& p ) { return p.second == s; } ); for ( int def = 0; def < 3; ++def ) MC_EQ( int( d( s, color( def ) ) ), it != e.end() ? int( it->first ) : def, "element named " << s << " with default" ); if ( it != e.end() ) MC_EQ( int( d( s ) ), int( it->first ), "element named " << s ); else MC_CHECK( MC_THROWS( d( s ) ), "unknown name not reported" ); }
	MC_CHECK( MC_THROWS( d( string( "on" ) ) ), "prefix of a name found" ); MC_EQ( int( d( "onex", blue ) ), int( blue ), "default" );
	for ( auto& p : e ) st += p.second + char( '0' + p.first ); mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( lookups, 3 ) {
	vector< const char* > ns = { "a", "ab", "b" }; int i = mc::choose( 3 ), j = mc::choose( 3 ), k = mc::choose( 3 ); string q = mc::pick( { "a", "ab", "b", "", "abc" } ); MC_STEP( "lookup " << q );
	int want = q == ns[ i ] ? 1 : q == ns[ j ] ? 2 : q == ns[ k ] ? 3 : 0; auto go = [&] { return lookup< int >( q, { { ns[ i ], 1 }, { ns[ j ], 2 }, { ns[ k ], 3 } } ); }; if ( want ) { MC_EQ( go(), want, "lookup" ); } else MC_CHECK( MC_THROWS( go() ), "unknown name not reported" );
}
struct base { int a; string b; base( int x, const string& y ) : a( x ), b( y ) {} virtual ~base() {} virtual int id() const { return 0; } };
struct A1 : base { using base::base; int id() const override { return 1; } };
struct B2 : base { using base::base; int id() const override { return 2; } };
namespace outer { namespace inner { struct C3 : base { using base::base; int id() const override { return 3; } }; } struct holder { struct nested {}; }; }
MC_SCENARIO_SPLIT( factories, 4 ) {
	typedef factory< base, int, string > F; F f, copy; vector< string > ns = mc::flip() ? vector< string >{ "x", "A1", "C3" } : vector< string >{ "", "A1", "a rather long name of a class" }; std::map< string, int > r; int n = mc::range( 0, mc::bound( 4, 5 ) );
	for ( int i = 0; i <= n; ++i ) {
		MC_EQ( f.empty(), r.empty(), "empty" );
		for ( auto& k : { string( "x" ), string( "A1" ), string( "C3" ), string( "" ), string( "B2" ), string( "a rather long name of a class" ) } ) {
			auto it = r.find( k ); MC_EQ( f.has_type( k ), it != r.end(), "has_type " << k ); auto p = f.try_create( k, i, "t" ); MC_EQ( bool( p ), it != r.end(), "try_create " << k );
			if ( p ) { MC_CHECK( p->id() == it->second && p->a == i && p->b == "t", "created object of " << k << " has type " << p->id() << " and arguments " << p->a << "," << p->b ); auto q = f.create( k, i, "u" ); MC_CHECK( q && q->id() == it->second && q->b == "u" && q.get() != p.get(), "create" ); auto s = f( k, i + 1, "v" ); MC_CHECK( s->id() == it->second && s->a == i + 1 && s->b == "v", "call" ); MC_EQ( f[ k ]( 5, "w" )->id(), it->second, "function of " << k ); }
			else if ( i == n && n < 3 ) { MC_CHECK( MC_THROWS( f.create( k, 1, "" ) ), "unknown type not reported" ); MC_CHECK( MC_THROWS( f( k, 1, "" ) ), "unknown type not reported" ); MC_CHECK( MC_THROWS( f[ k ] ), "unknown type not reported" ); }
		}
		if ( i == n ) break;
		switch ( mc::choose( 7 ) ) {
		case 0: MC_STEP( "register A1 under its own name" ); f.register_class< A1 >(); r[ "A1" ] = 1; break;
		case 1: MC_STEP( "register C3 under its own name" ); f.register_class< outer::inner::C3 >(); r[ "C3" ] = 3; break;
		case 2: { string k = mc::pick( ns ); MC_STEP( "register A1 as " << k ); f.register_class< A1 >( k ); r[ k ] = 1; break; }
		case 3: { string k = mc::pick( ns ); MC_STEP( "register B2 as " << k ); f.register_class< B2 >( k ); r[ k ] = 2; break; }
		case 4: { string k = mc::pick( ns ); MC_STEP( "register C3 as " << k ); f.register_class< outer::inner::C3 >( k ); r[ k ] = 3; break; }
		case 5: { MC_STEP( "copy" ); F t( f ); f = F(); f = t; break; }
		case 6: MC_STEP( "register B2 under its own name" ); f.register_class< B2 >(); r[ "B2" ] = 2; break;
		}
	}
	string st; for ( auto& x : r ) st += x.first + char( '0' + x.second ); mc::state( st ); mc::outcome( st );
}
MC_SCENARIO_SPLIT( memoised, 4 ) {
	int calls = 0; std::map< string, int > seen; int n = mc::range( 1, mc::bound( 5, 6 ) ), kind = mc::choose( 4 ); string st( 1, char( 'a' + kind ) );
	memoize< int( int ) > m1( [&]( int x ) { ++calls; if ( x == 2 && calls % 2 ) throw std::runtime_error( "no" ); return x * 10; } );
	memoize< string( const string&, int ) > m2( [&]( const string& s, int k ) { ++calls; return s + "/" + std::to_string( k ); } );
	memoize< double( bool, char, string ) > m3( [&]( bool b, char c, string s ) { ++calls; return b * 100 + c + double( s.size() ); } );
	int base_calls = 0; memoize< int() > m0( [&] { return ++base_calls; } );
	for ( int i = 0; i < n; ++i ) {
		int before = calls;
		if ( kind == 0 ) { int x = mc::choose( 3 ); MC_STEP( "f(" << x << ")" ); string k = std::to_string( x ); bool threw = false; int v = 0; try { v = m1( x ); } catch ( std::runtime_error& ) { threw = true; } if ( seen.count( k ) ) { MC_CHECK( !threw, "failed although known" ); MC_EQ( calls, before, "evaluations" ); } else MC_EQ( calls, before + 1, "evaluations" ); if ( !threw ) { MC_EQ( v, x * 10, "value" ); seen[ k ] = 1; } st += k; }
		else if ( kind == 1 ) { string s = mc::pick( { "a", "b", "a long text that does not fit anywhere small" } ); s += ""; int k = mc::choose( 2 ); MC_STEP( "f(" << s << "," << k << ")" ); MC_EQ( m2( s, k ), s + "/" + std::to_string( k ), "value" ); string key = s + char( '0' + k ); MC_EQ( calls, before + ( seen.count( key ) ? 0 : 1 ), "evaluations" ); seen[ key ] = 1; st += key; s.assign( s.size(), '#' ); }
		else if ( kind == 2 ) { bool b = mc::flip(); char c = mc::pick( { 'x', 'y' } ); string s( 1 + 30 * mc::choose( 2 ), 'q' ); MC_STEP( "f(" << b << "," << c << "," << s.size() << ")" ); MC_EQ( m3( b, c, s ), b * 100 + c + double( s.size() ), "value" ); string key = string( 1, c ) + char( '0' + b ) + std::to_string( s.size() ); MC_EQ( calls, before + ( seen.count( key ) ? 0 : 1 ), "evaluations" ); seen[ key ] = 1; st += key; }
		else { MC_STEP( "f()" ); MC_EQ( m0(), 1, "value" ); MC_EQ( base_calls, 1, "evaluations" ); }
	}
	mc::state( st ); mc::outcome( st );
}
struct thing { int v; string s; static int alive; thing( int a, const string& b ) : v( a ), s( b ) { ++alive; } thing( const thing& o ) : v( o.v ), s( o.s ) { ++alive; } ~thing() { --alive; } };
int thing::alive = 0;
MC_SCENARIO_SPLIT( clones, 3 ) {
	thing::alive = 0; { vector< std::unique_ptr< thing > > v; int n = mc::range( 0, 4 ); for ( int i = 0; i < n; ++i ) v.emplace_back( new thing( mc::choose( 3 ), string( 1 + 40 * mc::choose( 2 ), 'k' ) ) );
		MC_STEP( "clone " << n ); auto c = clone( v ); MC_EQ( c.size(), v.size(), "size of the clone" ); MC_EQ( thing::alive, 2 * n, "objects" );
		for ( int i = 0; i < n; ++i ) { MC_CHECK( c[ i ].get() != v[ i ].get() && c[ i ]->v == v[ i ]->v && c[ i ]->s == v[ i ]->s, "clone of object " << i ); int old = v[ i ]->v; c[ i ]->v = 99; c[ i ]->s += "x"; MC_EQ( v[ i ]->v, old, "original after changing the clone" ); MC_CHECK( v[ i ]->s.size() + 1 == c[ i ]->s.size(), "original after changing the clone" ); }
		if ( n ) { auto one = clone( v.front() ); MC_CHECK( one.get() != v.front().get() && one->s == v.front()->s && one->v == v.front()->v, "clone of one object" ); v.clear(); MC_EQ( c.front()->v, 99, "clone after destroying the original" ); } }
	MC_EQ( thing::alive, 0, "objects left" );
}
struct plain {}; template< typename X > struct tmpl {}; class kls {}; enum en { x }; union uni { int a; }; namespace outer { template< typename X, typename Y > struct pair2 { struct in {}; }; }
template< int K > struct numbered : base { using base::base; int id() const override { return K; } }; template< int... I > void reg( factory< base, int, string >& f, std::integer_sequence< int, I... > ) { int d[] = { ( f.register_class< numbered< I > >( "n" + std::to_string( I ) ), 0 )... }; (void)d; }
MC_SCENARIO_SPLIT( many, 2 ) { // sizes beyond any buffer
	int k = mc::choose( 3 ), n = mc::pick( { 16, 17, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 500, 1000, 5000, 33000 } ); MC_STEP( "many " << k << " " << n );
	if ( k == 0 ) { dictionary< int > d; (void)d; static dictionary< int > ten{ { 1, "a1" }, { 2, "a2" }, { 3, "a3" }, { 4, "a4" }, { 5, "a5" }, { 6, "a6" }, { 7, "a7" }, { 8, "a8" }, { 9, "a9" }, { 10, "a10" }, { 11, "a11" }, { 12, "a12" }, { 13, "a13" }, { 14, "a14" }, { 15, "a15" }, { 16, "a16" }, { 17, "a17" }, { 18, "a18" }, { 19, "a19" }, { 20, "a20" }, { 21, "a21" } }; for ( int i = 1; i < 22; ++i ) { string nm = "a" + std::to_string( i ); MC_EQ( ten( i ), nm, "name of element" ); MC_EQ( ten( nm ), i, "element" ); MC_EQ( ten( nm, -1 ), i, "element" ); } MC_CHECK( MC_THROWS( ten( 22 ) ) && MC_THROWS( ten( string( "a22" ) ) ), "unknown" ); }
	else if ( k == 1 ) { factory< base, int, string > f; reg( f, std::make_integer_sequence< int, 150 >() ); for ( int i = 0; i < 150; ++i ) { string nm = "n" + std::to_string( i ); MC_CHECK( f.has_type( nm ), "type " << nm << " not known" ); auto p = f( nm, n, nm ); MC_CHECK( p && p->id() == i && p->a == n && p->b == nm, "object of " << nm ); } MC_CHECK( !f.has_type( "n150" ) && !f.try_create( "n150", 1, "" ), "unknown type" ); }
	else { int calls = 0; memoize< string( int, string ) > m( [&]( int a, string b ) { ++calls; return std::to_string( a ) + b; } ); for ( int r = 0; r < 3; ++r ) for ( int i = 0; i < 2 * n; ++i ) { int before = calls; string b( i % 2 ? 1 : 40, 'x' ); MC_EQ( m( i / 2, b ), std::to_string( i / 2 ) + b, "value" ); MC_EQ( calls - before, r == 0 ? 1 : 0, "evaluations of call " << i << " in round " << r ); } }
	mc::state( uint64_t( k * 10000 + n ) ); mc::outcome( uint64_t( k * 10000 + n ) );
}
MC_SCENARIO( type_names ) {
	int k = mc::choose( 17 ); MC_STEP( "type name " << k ); if ( k >= 10 ) { string g = k == 10 ? clean_type_name< tmpl< int > >() : k == 11 ? clean_type_name< tmpl< plain > >() : k == 12 ? clean_type_name< outer::pair2< int, outer::inner::C3 > >() : k == 13 ? clean_type_name< tmpl< tmpl< plain > > >() : k == 14 ? clean_type_name< outer::pair2< plain, int >::in >() : k == 15 ? clean_type_name< outer::pair2< plain, tmpl< kls > >::in >() : clean_type_name< tmpl< outer::pair2< plain, int >::in > >(); vector< string > w = { "tmpl<int>", "tmpl<vh::plain>", "pair2<int, vh::outer::inner::C3>", "tmpl<vh::tmpl<vh::plain> >", "in", "in", "tmpl<vh::outer::pair2<vh::plain, int>::in>" }; auto sq = []( string s ) { string r; for ( char c : s ) if ( c != ' ' ) r += c; return r; }; MC_EQ( sq( g ), sq( w[ k - 10 ] ), "class name" ); return; }
	string g = k == 0 ? clean_type_name< plain >() : k == 1 ? clean_type_name< outer::inner::C3 >() : k == 2 ? clean_type_name< outer::holder >() : k == 3 ? clean_type_name< outer::holder::nested >() : k == 4 ? clean_type_name< kls >() : k == 5 ? clean_type_name< int >() : k == 6 ? clean_type_name< double >() : k == 7 ? clean_type_name< flut::char_stream >() : k == 8 ? clean_type_name< en >() : clean_type_name< uni >();
	vector< string > w = { "plain", "C3", "holder", "nested", "kls", "int", "double", "char_stream", "en", "uni" }; MC_EQ( g, w[ k ], "class name" );
}
MC_SCENARIO( long_names ) { // names of any length that differ in one character or are prefixes of one another
	int n = mc::pick( { 1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000 } ), d = mc::choose( 5 ), q = mc::choose( 4 ); string base; for ( int i = 0; i < n; ++i ) base += char( 'a' + i % 26 ); int p = d * ( n - 1 ) / 4; string diff = base; diff[ p ] = '#'; string shorter = base.substr( 0, n - 1 ), longer = base + "x"; string qs = q == 0 ? base : q == 1 ? diff : q == 2 ? shorter : longer; MC_STEP( "names of " << n << " characters differing at " << p << ", query " << q );
	for ( int skip = -1; skip < 4; ++skip ) { const string ks[] = { longer, diff, shorter, base }; auto go = [&] { return skip == 0 ? lookup< int >( qs, { { ks[ 1 ].c_str(), 2 }, { ks[ 2 ].c_str(), 3 }, { ks[ 3 ].c_str(), 4 } } ) : skip == 1 ? lookup< int >( qs, { { ks[ 0 ].c_str(), 1 }, { ks[ 2 ].c_str(), 3 }, { ks[ 3 ].c_str(), 4 } } ) : skip == 2 ? lookup< int >( qs, { { ks[ 0 ].c_str(), 1 }, { ks[ 1 ].c_str(), 2 }, { ks[ 3 ].c_str(), 4 } } ) : skip == 3 ? lookup< int >( qs, { { ks[ 0 ].c_str(), 1 }, { ks[ 1 ].c_str(), 2 }, { ks[ 2 ].c_str(), 3 } } ) : lookup< int >( qs, { { ks[ 0 ].c_str(), 1 }, { ks[ 1 ].c_str(), 2 }, { ks[ 2 ].c_str(), 3 }, { ks[ 3 ].c_str(), 4 } } ); };
		int want = 0; for ( int i = 0; i < 4; ++i ) if ( i != skip && ks[ i ] == qs ) { want = i + 1; break; } if ( want ) { MC_EQ( go(), want, "lookup without entry " << skip ); } else MC_CHECK( MC_THROWS( go() ), "unknown name not reported" );
		dictionary< int > dict = skip == 0 ? dictionary< int >( { { 2, ks[ 1 ] }, { 3, ks[ 2 ] }, { 4, ks[ 3 ] } } ) : skip == 3 ? dictionary< int >( { { 1, ks[ 0 ] }, { 2, ks[ 1 ] }, { 3, ks[ 2 ] } } ) : dictionary< int >( { { 1, ks[ 0 ] }, { 2, ks[ 1 ] }, { 3, ks[ 2 ] }, { 4, ks[ 3 ] } } ); if ( skip == -1 || skip == 0 || skip == 3 ) { MC_EQ( dict( qs, -1 ), want ? want : -1, "dictionary without entry " << skip ); if ( want ) { MC_EQ( dict( qs ), want, "dictionary without entry " << skip ); MC_EQ( dict( want ), ks[ want - 1 ], "name of element " << want ); } else MC_CHECK( MC_THROWS( dict( qs ) ), "unknown name not reported" ); } }
	mc::state( qs + char( d ) ); mc::outcome( uint64_t( q ) );
}
}
