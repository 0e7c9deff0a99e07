// tree.hpp - reference property tree and comparisons with the real one
#pragma once
#include "gen.hpp"
#include "flut/prop_node.hpp"

struct T
{
	std::string v; std::vector< std::pair< std::string, T > > c;
	T() {}
	explicit T( const std::string& s ) : v( s ) {}
	bool operator==( const T& o ) const { return v == o.v && c == o.c; }
	bool operator!=( const T& o ) const { return !( *this == o ); }
	int find( const std::string& k ) const { for ( size_t i = 0; i < c.size(); ++i ) if ( c[ i ].first == k ) return int( i ); return -1; }
	T& add( const std::string& k, const T& t = T() ) { c.push_back( { k, t } ); return c.back().second; }
	T& add( const std::string& k, const std::string& s ) { return add( k, T( s ) ); }
	T& get_or_add( const std::string& k ) { int i = find( k ); return i >= 0 ? c[ i ].second : add( k ); }
	size_t count() const { size_t n = 1; for ( auto& x : c ) n += x.second.count(); return n; }
	size_t depth() const { size_t n = 0; for ( auto& x : c ) n = std::max( n, x.second.depth() ); return n + 1; }
};
inline std::string show_tree( const T& t ) {
	std::string s = t.v.empty() && !t.c.empty() ? "" : mc::show( t.v );
	if ( !t.c.empty() ) { s += "{"; for ( auto& x : t.c ) s += " " + mc::show( x.first ) + ":" + show_tree( x.second ); s += " }"; }
	return s;
}
namespace mc { inline std::string show( const T& t ) { return show_tree( t ); } }
inline flut::prop_node build( const T& t ) {
	flut::prop_node p; p.set_value( std::string( t.v ) );
	for ( auto& x : t.c ) p.push_back( x.first, build( x.second ) );
	return p;
}
inline T read( const flut::prop_node& p ) {
	T t; t.v = p.get_value();
	for ( auto it = p.begin(); it != p.end(); ++it ) t.c.push_back( { it->first, read( it->second ) } );
	return t;
}
/// compare without building a copy
inline bool same( const flut::prop_node& p, const T& t ) {
	if ( p.get_value() != t.v || p.size() != t.c.size() ) return false;
	size_t i = 0;
	for ( auto it = p.begin(); it != p.end(); ++it, ++i ) if ( it->first != t.c[ i ].first || !same( it->second, t.c[ i ].second ) ) return false;
	return i == t.c.size();
}
#define TREE_EQ( pn_, t_, expr_ ) MC_CHECK( same( pn_, t_ ), expr_ << ": got " << show_tree( read( pn_ ) ) << ", expected " << show_tree( t_ ) )
/// every tree with at most n nodes below this one; keys and values from the given sets; max depth
inline void gen_children( T& t, int& budget, int depth, const std::vector< std::string >& keys, const std::vector< std::string >& inner, const std::vector< std::string >& leaf ) {
	while ( budget > 0 && mc::flip() ) {
		--budget;
		T x; std::string k = mc::pick( keys );
		if ( depth > 1 && budget > 0 && mc::flip() ) { // a node with children
			--budget; x.v = mc::pick( inner );
			T y( mc::pick( leaf ) ); x.add( mc::pick( keys ), y );
			if ( depth > 2 && mc::flip() ) gen_children( x.c.back().second, budget, depth - 2, keys, inner, leaf );
			gen_children( x, budget, depth - 1, keys, inner, leaf );
		}
		else x.v = mc::pick( leaf );
		t.add( k, x );
	}
}
