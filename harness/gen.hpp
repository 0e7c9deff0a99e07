// gen.hpp - input alphabets shared by the harnesses
#pragma once
#include "mc.hpp"
namespace gen
{
	/// every string over `alphabet` of length lo..hi (simplest first)
	inline std::string str( const std::string& alphabet, int lo, int hi ) {
		int n = mc::range( lo, hi ); std::string s;
		for ( int i = 0; i < n; ++i ) s += alphabet[ mc::choose( int( alphabet.size() ) ) ];
		return s;
	}
	/// every sequence of lo..hi pieces
	inline std::string pieces( const std::vector< std::string >& p, int lo, int hi ) {
		int n = mc::range( lo, hi ); std::string s;
		for ( int i = 0; i < n; ++i ) s += mc::pick( p );
		return s;
	}
	/// a long string: filler of a boundary length with one special piece at the front, in the middle or at the end
	inline std::string long_str( const std::string& fillers, const std::vector< std::string >& specials, const std::vector< int >& lengths ) {
		char f = fillers[ mc::choose( int( fillers.size() ) ) ];
		const std::string& sp = mc::pick( specials );
		int n = mc::pick( lengths );
		int where = mc::choose( 4 );
		std::string base( n, f );
		size_t pos = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n : ( n > 0 ? n - 1 : 0 );
		return base.insert( pos, sp );
	}
	/// the k-th byte 1..255 or 0..255
	inline std::string all_bytes( int first ) { std::string s; for ( int i = first; i < 256; ++i ) s += char( i ); return s; }
}
