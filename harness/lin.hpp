// lin.hpp - plain linear algebra in long double, the reference for the math harnesses
#pragma once
#include "mc.hpp"
#include <cmath>
#include <array>
namespace lin
{
	typedef long double R; const R pi = 3.14159265358979323846264338327950288L;
	struct V { R x = 0, y = 0, z = 0; };
	inline V operator+( V a, V b ) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
	inline V operator-( V a, V b ) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
	inline V operator*( R s, V a ) { return { s * a.x, s * a.y, s * a.z }; }
	inline R dot( V a, V b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
	inline V cross( V a, V b ) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
	inline R len( V a ) { return std::sqrt( dot( a, a ) ); }
	inline V unit( V a ) { return ( 1 / len( a ) ) * a; }
	struct M { std::array< R, 9 > m{ { 1, 0, 0, 0, 1, 0, 0, 0, 1 } }; };
	inline V operator*( const M& a, V v ) { return { a.m[ 0 ] * v.x + a.m[ 1 ] * v.y + a.m[ 2 ] * v.z, a.m[ 3 ] * v.x + a.m[ 4 ] * v.y + a.m[ 5 ] * v.z, a.m[ 6 ] * v.x + a.m[ 7 ] * v.y + a.m[ 8 ] * v.z }; }
	inline M operator*( const M& a, const M& b ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { R s = 0; for ( int k = 0; k < 3; ++k ) s += a.m[ i * 3 + k ] * b.m[ k * 3 + j ]; r.m[ i * 3 + j ] = s; } return r; }
	inline M transposed( const M& a ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.m[ i * 3 + j ] = a.m[ j * 3 + i ]; return r; }
	inline V col( const M& a, int j ) { return { a.m[ j ], a.m[ 3 + j ], a.m[ 6 + j ] }; }
	/// rotation about a unit axis (Rodrigues)
	inline M rot( V u, R a ) { R c = std::cos( a ), s = std::sin( a ), t = 1 - c; M r; r.m = { { c + u.x * u.x * t, u.x * u.y * t - u.z * s, u.x * u.z * t + u.y * s, u.y * u.x * t + u.z * s, c + u.y * u.y * t, u.y * u.z * t - u.x * s, u.z * u.x * t - u.y * s, u.z * u.y * t + u.x * s, c + u.z * u.z * t } }; return r; }
	inline R diff( V a, V b ) { return std::max( { std::abs( a.x - b.x ), std::abs( a.y - b.y ), std::abs( a.z - b.z ) } ); }
	inline R diff( const M& a, const M& b ) { R d = 0; for ( int i = 0; i < 9; ++i ) d = std::max( d, std::abs( a.m[ i ] - b.m[ i ] ) ); return d; }
	inline bool ok( R d, R tol ) { return d <= tol; } // false for NaN
	inline std::string str( V v ) { std::ostringstream o; o.precision( 9 ); o << "(" << (double)v.x << " " << (double)v.y << " " << (double)v.z << ")"; return o.str(); }
}
