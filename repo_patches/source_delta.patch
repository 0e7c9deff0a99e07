From b13e79545294b2d85547afa4449ddb51017fb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 01/74] fix: container_tools.hpp is ill-formed outside MSVC

'typename const X' is not valid C++, a statement lacks its semicolon, a dependent
type lacks 'typename', and the standard headers it uses are not included. Nothing that
includes it (prop_node, storage, table, vec3, ...) compiles with GCC or Clang.
---
 flut/container_tools.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..b998a0e 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -2,7 +2,10 @@
 
 #include "flut/system/types.hpp"
 #include "system/assert.hpp"
+#include <algorithm>
+#include <iterator>
 #include <numeric>
+#include <ostream>
 
 namespace flut
 {
@@ -31,7 +34,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +69,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +80,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From 006c62a20d7aec2c76178d107b44c2455436e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 02/74] fix: prop_node_tools.cpp binds a temporary char_stream
 to a non-const reference

Only MSVC accepts that; the prop parser does not compile elsewhere.
---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..c3dd707 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream stream( str, "\n\r\t\v;" );
+		return parse_prop( stream, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 3c99a3f4957c1adff4eeb38c721acabb0357dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 03/74] fix: filesystem.cpp does not compile on the platforms
 it has branches for

<direct.h> is Windows-only, the POSIX headers were missing, exists() passed the type
name instead of its argument, and path has no implicit conversion from string.
---
 flut/filesystem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..9c4e72c 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -7,9 +7,13 @@
 #ifdef FLUT_COMP_MSVC
 #	include <conio.h>
 #	include <shlobj.h>
+#	include <direct.h>
 #	pragma warning( disable: 4996 )
+#else
+#	include <cstdlib>
+#	include <sys/stat.h>
+#	include <unistd.h>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +37,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +86,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 446e4ba07a6d094428e011ccdf41be8fb8c33525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 04/74] fix: pattern_match uses an undeclared identifier on
 non-MSVC platforms

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..581193b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 952cc3daedd6b4773e2f033a5c8fc79960d5a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 05/74] fix: irange and linear_regression include MSVC-internal
 headers

irange's post-increment also named a member that does not exist, and
linear_regression did not include the header that declares average().
---
 flut/math/irange.hpp            | 4 ++--
 flut/math/linear_regression.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 4e62555..6d4ce68 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <xutility>
+#include <iterator>
 
 namespace flut
 {
@@ -18,7 +18,7 @@ namespace flut
 			T value_;
 			T operator-( const iterator& other ) { return value_ - other.value_; }
 			T operator++() { return ++value_; }
-			T operator++( int ) { return value++; }
+			T operator++( int ) { return value_++; }
 			bool operator==( const iterator& other ) { return other.value_ == value_; }
 			bool operator!=( const iterator& other ) { return other.value_ != value_; }
 			T operator*() { return value_; }
diff --git a/flut/math/linear_regression.hpp b/flut/math/linear_regression.hpp
index c2df43d..2b27d96 100644
--- a/flut/math/linear_regression.hpp
+++ b/flut/math/linear_regression.hpp
@@ -3,7 +3,7 @@
 #include <numeric>
 #include "math.hpp"
 #include "polynomial.hpp"
-#include <xtr1common>
+#include "flut/container_tools.hpp"
 
 namespace flut
 {
-- 
2.43.0


From 13e892d064b9cf6dc42e3b842f3a13734ff09cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 06/74] fix: headers that cannot be instantiated for lack of
 declarations

factory.hpp, bounding_box.hpp, bounds.hpp and data_algorithms.hpp used names whose
headers they did not include; pattern_matcher::find_match called a missing function and
returned nothing; IS_PROP_NODE_CONSTRUCTABLE was ill-formed outside MSVC.
---
 flut/buffer/data_algorithms.hpp | 1 +
 flut/factory.hpp                | 2 ++
 flut/math/bounding_box.hpp      | 1 +
 flut/math/bounds.hpp            | 1 +
 flut/pattern_matcher.hpp        | 7 ++++---
 flut/prop_node.hpp              | 2 +-
 6 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/data_algorithms.hpp b/flut/buffer/data_algorithms.hpp
index e4fa6b4..e5e91f3 100644
--- a/flut/buffer/data_algorithms.hpp
+++ b/flut/buffer/data_algorithms.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "flut/storage.hpp"
 #include "flut/table.hpp"
 #include <vector>
 
diff --git a/flut/factory.hpp b/flut/factory.hpp
index 86510f0..0ad15d9 100644
--- a/flut/factory.hpp
+++ b/flut/factory.hpp
@@ -4,6 +4,8 @@
 #include <memory>
 #include "system/assert.hpp"
 #include "system/platform.hpp"
+#include "string_tools.hpp"
+#include "system_tools.hpp"
 #include "flat_map.hpp"
 
 // need for demangling with GCC
diff --git a/flut/math/bounding_box.hpp b/flut/math/bounding_box.hpp
index 677c4c8..4ed933d 100644
--- a/flut/math/bounding_box.hpp
+++ b/flut/math/bounding_box.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "flut/math/math.hpp"
+#include "flut/math/vec3_type.hpp"
 
 namespace flut
 {
diff --git a/flut/math/bounds.hpp b/flut/math/bounds.hpp
index 6845b96..c3c2525 100644
--- a/flut/math/bounds.hpp
+++ b/flut/math/bounds.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "math.hpp"
+#include "flut/prop_node.hpp"
 
 namespace flut
 {
diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index 44b892c..b76555b 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -24,12 +24,13 @@ namespace flut
 		template< typename T > bool operator()( const T* str ) const { return operator()( static_cast< const string& >( *str ) ); }
 
 		template< typename It > It find_match( It begin, It end ) const {
-			while ( begin != end && !match( static_cast< const string& >( *begin ) ) ) ++begin;
+			while ( begin != end && !operator()( static_cast< const string& >( *begin ) ) ) ++begin;
+			return begin;
 		}
 
 		vector< string > patterns;
 	};
-
-	IS_PROP_NODE_CONSTRUCTABLE( pattern_matcher );
 }
 
+IS_PROP_NODE_CONSTRUCTABLE( flut::pattern_matcher );
+
diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..56308d7 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -255,7 +255,7 @@ namespace flut
 }
 
 #define IS_PROP_NODE_CONSTRUCTABLE( _class_name_ ) \
-template<> struct ::flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
+template<> struct flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
 
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
-- 
2.43.0


From 868d25dce1af9c07cc521f924a76480c23c6aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 07/74] fix: quoting loses bytes above 127 and NUL

The control-character tests compare plain char, which is signed on most
platforms, so every non-ASCII byte was encoded as an 11-digit octal escape that
cannot be decoded; the escape of NUL was decoded to '?'.
---
 flut/string_tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 581193b..13787ad 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -145,7 +145,7 @@ namespace flut
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 32 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From ba5d886080dd7057f6de6282a5e7071e676c8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:38 +0000
Subject: [PATCH 08/74] fix: unquoting reads past the end of malformed text

A lone quote or a closing quote that is itself escaped made try_unquoted run
past the end of the string, and decode_char consumed no characters for a
trailing backslash, on which get_token looped forever.
---
 flut/string_tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 13787ad..b5fcb7b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
@@ -182,16 +182,16 @@ namespace flut
 
 	FLUT_API string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() - 1 && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
 				int len;
-				sout += decode_char( &( *it ), s.end() - it, &len );
+				sout += decode_char( &( *it ), s.end() - 1 - it, &len );
 				it += ( len - 1 );
 			}
 			else sout += *it;
-- 
2.43.0


From 07a3967f8287b50999f07f66d42b02c8abf51213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:05 +0000
Subject: [PATCH 09/74] fix: get_token drops text before a quoted part and
 empty quoted tokens

---
 flut/char_stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..e978fef 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -40,6 +40,7 @@ namespace flut
 	flut::string char_stream::get_token( const char* operators, const char* quotations )
 	{
 		string s;
+		bool has_quotes = false;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -53,6 +54,8 @@ namespace flut
 			else if ( strchr( quotations, *cur_pos_end ) )
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
+				has_quotes = true;
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				while ( good() )
@@ -76,7 +79,7 @@ namespace flut
 			else if ( strchr( operators, *cur_pos_end ) )
 			{
 				// operator
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && !has_quotes )
 					s = *cur_pos_end++; // token is an operator
 				else s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
-- 
2.43.0


From 949b9e15cb9167d19b7a93a4c538dd7494730015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:45 +0000
Subject: [PATCH 10/74] fix: scan_str does not count the last value of a text

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..9e1d635 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -52,7 +52,7 @@ namespace flut
 
 	inline int scan_str_impl( char_stream& str ) { return 0; }
 	template< typename T, typename... Args > int scan_str_impl( char_stream& str, T& v, Args&... args )
-	{ str >> v; return str.good() ? scan_str_impl( str, args... ) + 1 : 0; }
+	{ str >> v; if ( str.fail() ) return 0; else return str.good() ? scan_str_impl( str, args... ) + 1 : 1; }
 
 	/// read variables from string
 	template< typename... Args > int scan_str( const string& s, Args&... args )
-- 
2.43.0


From c7f61bb2c137e42ae303f29c5051ac9d1b5c9b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:29 +0000
Subject: [PATCH 11/74] fix: str_ends_with misses a suffix that also occurs
 earlier

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 9e1d635..ed3ba35 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.compare( s1 - s2, s2, substr ) == 0 ); }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From 4ecb2b832b232056857099664d53bb34404c75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:13 +0000
Subject: [PATCH 12/74] fix: stringf truncates text of more than 255 characters

---
 flut/string_tools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index b5fcb7b..51a1101 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -75,9 +75,17 @@ namespace flut
 		va_list args;
 		va_start( args, format );
 		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		int len = vsnprintf( buf, sizeof( buf ), format, args );
 		va_end( args );
-		return string( buf );
+		if ( len < int( sizeof( buf ) ) )
+			return string( buf );
+
+		// text does not fit in buffer
+		vector< char > long_buf( size_t( len ) + 1 );
+		va_start( args, format );
+		vsnprintf( long_buf.data(), long_buf.size(), format, args );
+		va_end( args );
+		return string( long_buf.data() );
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 6deda22260f355c7337027b6d638543e6cd10e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 13/74] fix: path parts are wrong without separator, with dots
 in folders and below the root

---
 flut/system/path.cpp | 22 +++++++++++++---------
 flut/system/path.hpp |  1 +
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..cb91ea2 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -11,7 +11,7 @@ namespace flut
 
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		if ( n != string::npos ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
@@ -22,10 +22,7 @@ namespace flut
 
 	path& path::remove_filename()
 	{
-		size_t n = last_separator_pos();
-		if ( n != string::npos ) data_ = data_.substr( 0, n );
-		else data_.clear();
-		return *this;
+		return *this = parent_path();
 	}
 
 	path& path::replace_filename( const path& f )
@@ -44,27 +41,28 @@ namespace flut
 	path path::parent_path() const
 	{
 		size_t n = last_separator_pos();
+		if ( n == 0 ) n = 1; // keep root separator
 		return n != string::npos ? path( data_.substr( 0, n ) ) : path();
 	}
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
 	{
 		size_t n1 = last_separator_pos();
-		size_t n2 = data_.find_last_of( '.' );
+		size_t n2 = extension_pos();
 		if ( n1 == string::npos ) n1 = 0; else ++n1;
-		return path( data_.substr( n1, ( n2 >= n1 ) ? n2 - n1 : string::npos ) );
+		return path( data_.substr( n1, n2 != string::npos ? n2 - n1 : string::npos ) );
 	}
 
 	bool path::empty() const
@@ -87,6 +85,12 @@ namespace flut
 		return data_.find_last_of( "/\\" );
 	}
 
+	size_t path::extension_pos() const
+	{
+		size_t n = data_.find_last_of( "./\\" );
+		return n != string::npos && data_[ n ] == '.' ? n : string::npos;
+	}
+
 	flut::path& path::operator/=( const flut::string& p )
 	{
 		data_ += has_filename() ? preferred_separator() + p : p;
diff --git a/flut/system/path.hpp b/flut/system/path.hpp
index 1e55b3e..95ff36f 100644
--- a/flut/system/path.hpp
+++ b/flut/system/path.hpp
@@ -51,6 +51,7 @@ namespace flut
 
 	private:
 		size_t last_separator_pos() const;
+		size_t extension_pos() const; // position of the last dot of the filename
 		flut::string data_;
 	};
 
-- 
2.43.0


From 7d5774f97904f59fee2cdb3e5b69f95c5912edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 14/74] fix: get_filename_folder returns the filename if there
 is no folder

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 51a1101..ed1b7c5 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -229,7 +229,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string(); // no folder found
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From 8a8aaf4d770a09625e95f4e8e95b37c3431ae2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 15/74] fix: parsed version has undefined build number and
 loses its postfix

---
 flut/system/version.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 78409e9..368c519 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -11,11 +11,11 @@ namespace flut
 		version( int maj, int min, int bugfix, int bld = 0, string post = "" ) :
 			major( maj ), minor( min ), patch( bugfix ), build( bld ), postfix( post ) {}
 
-		version( const string& version ) {
+		version( const string& version ) : major( 0 ), minor( 0 ), patch( 0 ), build( 0 ) {
 			std::stringstream str( version );
 			char dummy;
-			str >> major >> dummy >> minor >> dummy >> patch >> dummy;
-			if ( str.good() ) str >> build;
+			str >> major >> dummy >> minor >> dummy >> patch;
+			if ( str.peek() == '.' ) str >> dummy >> build;
 			if ( str.good() ) str >> postfix;
 		}
 
-- 
2.43.0


From 93b9cdfd4a8095634c1e9be03eb3d4d880124680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 16/74] fix: assigning a subtree to its ancestor corrupts the
 prop_node

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 56308d7..a691249 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { container_t c( other.children ); value = other.value; children = std::move( c ); return *this; } // other can be a descendant
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From 258d40eb92648d5e1d06053441431218bda3373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:01 +0000
Subject: [PATCH 17/74] fix: property text with comments, blank lines, quotes
 or errors is misread

---
 flut/char_stream.cpp     |  6 +++-
 flut/char_stream.hpp     |  2 +-
 flut/prop_node_tools.cpp | 61 ++++++++++++++++++++++++----------------
 3 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index e978fef..c8afe59 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -37,10 +37,11 @@ namespace flut
 		return s;
 	}
 
-	flut::string char_stream::get_token( const char* operators, const char* quotations )
+	flut::string char_stream::get_token( const char* operators, const char* quotations, const char* trim_chars )
 	{
 		string s;
 		bool has_quotes = false;
+		size_t quoted_size = 0;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -74,6 +75,7 @@ namespace flut
 					}
 					else s += getc();
 				}
+				quoted_size = s.size();
 				cur_pos_end = const_cast<char*>( cur_pos );
 			}
 			else if ( strchr( operators, *cur_pos_end ) )
@@ -87,6 +89,8 @@ namespace flut
 			}
 			else ++cur_pos_end;
 		}
+		while ( s.size() > quoted_size && strchr( trim_chars, s.back() ) )
+			s.pop_back(); // trailing characters that are not between quotes
 		skip_delimiters();
 		test_eof();
 		return s;
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..d072b83 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -45,7 +45,7 @@ namespace flut
 		char_stream& operator>>( unsigned short& v ) { v = (unsigned short)strtoul( cur_pos, &cur_pos_end, radix ); process_end_pos(); return *this; }
 
 		string get_line();
-		string get_token( const char* operators = "", const char* quotations = "\"" );
+		string get_token( const char* operators = "", const char* quotations = "\"", const char* trim_chars = "" );
 		char getc() { char c = *cur_pos++; test_eof(); return c; }
 		char peekc() { return *cur_pos; }
 
diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index c3dd707..58c90ea 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -102,51 +102,64 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
-	string get_prop_token( char_stream& str )
+	void skip_prop_blanks( char_stream& str, const string& blanks )
 	{
-		while ( true )
+		while ( str.good() )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
-			{
-				// comment: skip rest of line
-				str.get_line();
-				continue;
-			}
-			else return trim_str( t );
+			if ( blanks.find( str.peekc() ) != string::npos )
+				str.getc();
+			else if ( str.peekc() == '%' )
+				str.get_line(); // comment: skip rest of line
+			else break;
 		}
 	}
 
+	string get_prop_token( char_stream& str, const string& blanks = " \t\r\n\f\v;" )
+	{
+		skip_prop_blanks( str, blanks );
+		return str.get_token( "={}%", "\"'", " \f" );
+	}
+
 	void read_prop_node( char_stream& str, prop_node& parent )
 	{
 		string t = get_prop_token( str );
 		if ( t == "=" )
 		{
-			parent.set_value( get_prop_token( str ) );
+			parent.set_value( get_prop_token( str, " \f" ) );
+			skip_prop_blanks( str, " \t\r\n\f\v;" );
+			t = str.good() && str.peekc() == '{' ? get_prop_token( str ) : "";
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
-			while ( str.good() && t != "}" )
+			for ( t = get_prop_token( str ); t != "}"; t = get_prop_token( str ) )
 			{
-				t = get_prop_token( str );
-				if ( is_valid_prop_label( t ) )
-					read_prop_node( str, parent.push_back( t ) );
-				else if ( t != "}" )
-					flut_error( "Invalid token: " + t );
+				flut_error_if( !is_valid_prop_label( t ), "Invalid token: " + t );
+				read_prop_node( str, parent.push_back( t ) );
 			}
 		}
+		else flut_error_if( !t.empty(), "Invalid token: " + t );
 	}
 
 	prop_node parse_prop( char_stream& str, error_code* ec )
 	{
-		prop_node root;
-		string t = get_prop_token( str );
-		while ( is_valid_prop_label( t ) )
+		try
 		{
-			read_prop_node( str, root.push_back( t ) );
-			t = get_prop_token( str );
+			prop_node root;
+			for ( skip_prop_blanks( str, " \t\r\n\f\v;" ); str.good(); skip_prop_blanks( str, " \t\r\n\f\v;" ) )
+			{
+				string t = get_prop_token( str );
+				flut_error_if( !is_valid_prop_label( t ), "Invalid token: " + t );
+				read_prop_node( str, root.push_back( t ) );
+			}
+			return root;
+		}
+		catch ( std::exception& e )
+		{
+			if ( try_set_error( ec, e.what() ) )
+				return prop_node();
+			else throw;
 		}
-		return root;
 	}
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
-- 
2.43.0


From 0f81eb31de4b6d197a1243bbe63611b49141c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:02 +0000
Subject: [PATCH 18/74] fix: saved properties cannot be read back

---
 flut/prop_node_tools.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 58c90ea..9aee80f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -225,15 +225,20 @@ namespace flut
 		}
 	}
 
+	string prop_quoted( const string& s )
+	{
+		return s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : try_quoted( s );
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << prop_quoted( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << ( pn.empty() ? "\"\"" : prop_quoted( pn.get_value() ) );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
@@ -251,7 +256,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.close();
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From 865c7042606dce7b032abd81c8235c31916ce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:10 +0000
Subject: [PATCH 19/74] fix: load_ini skips the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9aee80f..90a02ab 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -190,10 +190,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From 38fd8541937cd7750717ffad1f303b456fe27a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 20/74] fix: save_ini writes plain items into the preceding
 group

---
 flut/prop_node_tools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 90a02ab..8df369f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -209,6 +209,14 @@ namespace flut
 	FLUT_API void save_ini( const prop_node& pn, const path& filename )
 	{
 		std::ofstream str( filename.str() );
+
+		// main items come first, otherwise they become part of a group
+		for ( auto& e : pn )
+		{
+			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+				str << e.first << "=" << e.second.get_value() << std::endl;
+		}
+
 		for ( auto& e : pn )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -217,8 +225,6 @@ namespace flut
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_value() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_value() << std::endl;
 		}
 	}
 
-- 
2.43.0


From 69409effade5b2fad74030f2b91499b8d0af17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 21/74] fix: load_ini returns groups that are already marked as
 accessed

---
 flut/prop_node_tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 8df369f..1604a75 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -203,6 +203,7 @@ namespace flut
 			flut_error_if( kvp.first == line, "Error loading ini file, expected '='" );
 			cur_group->set( kvp.first, kvp.second );
 		}
+		pn.clear_accessed_recursively();
 		return pn;
 	}
 
-- 
2.43.0


From 21ad90a711cfe59e8a0aafd824571acd95277015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:03 +0000
Subject: [PATCH 22/74] fix: sorted_vector::find does not compile

---
 flut/sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..7b793c6 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -27,12 +27,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From f728960a39b88c6f6442852ddbeca838bdd7f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 23/74] fix: circular_deque loses and misplaces elements when
 growing

---
 flut/circular_deque.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..4edccd5 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <iterator>
+#include <vector>
 #include "flut/dynarray.hpp"
 #include "flut/system/assert.hpp"
 
@@ -16,12 +19,12 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
-			else back() = value;
+			if ( full() ) { T v( value ); reserve( capacity() + 1 ); ++size_; back() = std::move( v ); } // value can be an element
+			else { ++size_; back() = value; }
 		}
 		void push_front( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-			else { front_ = ( front_ + capacity() - 1 ) % capacity(); front() = value; }
+			if ( full() ) { T v( value ); reserve( capacity() + 1 ); push_front( v ); } // value can be an element
+			else { ++size_; front_ = ( front_ + capacity() - 1 ) % capacity(); front() = value; }
 		}
 
 		T& operator[]( index_t idx ) { return buffer_[ ( front_ + idx ) % buffer_.size() ]; }
@@ -31,7 +34,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
@@ -42,7 +45,13 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s > capacity() ) {
+				std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() ); // unwrap
+				front_ = 0;
+				buffer_.resize( s );
+			}
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
@@ -50,10 +59,10 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 807486ef279396f84fe7770aa9f710d72612dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:05 +0000
Subject: [PATCH 24/74] fix: dynarray move assignment does not compile,
 moved-from size and self-assignment

---
 flut/dynarray.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..506b782 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include "system/types.hpp"
+#include "system/assert.hpp"
 
 namespace flut
 {
@@ -16,9 +17,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) { T* e = o.end_; o.end_ = nullptr; data_ = std::move( o.data_ ); end_ = e; return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From ffa6aeb89426a5da2d63f85b5c938a1e43da27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:20 +0000
Subject: [PATCH 25/74] fix: flag_set::clear of a list of flags does not
 compile

---
 flut/flag_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..0223d63 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -24,6 +24,7 @@ namespace flut
 
 		flag_set& set( EnumT index ) { data |= storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& set() { data |= storage_bit( index ); return *this; }
+		flag_set& clear( EnumT index ) { data &= ~storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
-- 
2.43.0


From 087a2fc5c571f0a224cfe0c67dac34bcb070302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 26/74] fix: optional<bool> holding true reports to be empty

---
 flut/math/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/optional.hpp b/flut/math/optional.hpp
index 98b533c..73701d7 100644
--- a/flut/math/optional.hpp
+++ b/flut/math/optional.hpp
@@ -20,7 +20,7 @@ namespace flut
 		bool has_value_;
 	};
 
-	template< typename T > struct optional< T, typename std::enable_if< std::is_integral<T>::value >::type >
+	template< typename T > struct optional< T, typename std::enable_if< std::is_integral<T>::value && !std::is_same<T, bool>::value >::type >
 	{
 		using value_type = T;
 		optional() : value_( constants<T>::sentinel() ) {}
-- 
2.43.0


From 5f0307db054009fa72eb1cb181713824ce4ce26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 27/74] fix: data_header registers labels at the wrong index
 and keeps old ones

---
 flut/buffer/data_header.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..e2a10d4 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		data_header( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
@@ -35,9 +35,9 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			if ( find( labels_[ idx ] ) == idx ) label_indices_.erase( labels_[ idx ] );
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
-			return idx;
+			return label_indices_[ label ] = idx;
 		}
 
 		typename vector< L >::const_iterator begin() const { return labels_.begin(); }
-- 
2.43.0


From c0eb05b73e16f4c63e0e602dd302951bf3d151a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 28/74] fix: storage access by label does not compile,
 duplicate labels leave an extra channel

---
 flut/storage.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..a6e35ee 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -17,10 +17,15 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) {
+			flut_assert( find_channel( label ) == no_index );
+			resize( frame_size(), channel_size() + 1, value );
+			return labels_.set( channel_size() - 1, label );
+		}
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
+			flut_assert( find_channel( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
@@ -78,13 +83,17 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const {
+			auto idx = find_channel( label );
+			flut_error_if( idx == no_index, "Could not find channel" );
+			return (*this)[ idx ];
+		}
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +128,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 55b8257bf4af814daef855367c459b3ce4054606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 29/74] fix: table writes out of bounds when adding rows,
 ignores column defaults

---
 flut/table.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..ad2e2b6 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,8 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			flut_assert( col_labels_.find( label ) == no_index );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +37,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
+			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : value;
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
@@ -57,7 +58,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From 84bac64abb0682a4d352ceb2f5ee616a0b696110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:23 +0000
Subject: [PATCH 30/74] fix: circular_frame_buffer does not compile, checked
 access fails before it is filled

---
 flut/buffer/circular_frame_buffer.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..2f2f9b8 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,11 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) {
+			flut_assert( find_channel( label ) == no_index );
+			resize_buffer( frame_buf_size_, channel_size() + 1 );
+			return labels_.set( channel_size() - 1, label );
+		}
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
@@ -32,15 +36,15 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 + 1 < frame_size() && channel < channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
@@ -52,19 +56,19 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
 		/// resize buffer, resets contents
 		void resize_buffer( size_t nframes, size_t nchannels, const T& value = T() ) {
+			labels_.resize( nchannels );
 			data_.assign( nframes * nchannels, value );
 			frame_buf_size_ = nframes;
-			labels_.resize( nchannels );
 		}
 
 		void resize_buffer( size_t nframes, const T& value = T() ) {
-- 
2.43.0


From 81d924633d1008f574f08c6adf50d3978a3bea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 31/74] fix: memoize keeps references to the arguments of
 earlier calls

---
 flut/memoize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index c6bfd93..c29f475 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -25,7 +25,7 @@ namespace flut
 		}
 		
 	private:
-		std::map< std::tuple< Args... >, R > mem_;
+		std::map< std::tuple< typename std::decay< Args >::type... >, R > mem_; // arguments are stored by value
 		std::function< R( Args... ) > func_;
 	};
 }
-- 
2.43.0


From c6adc50fc55beb4c23cb4389d996426e7216097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 32/74] fix: printf-style log messages are truncated after 1023
 characters

---
 flut/system/log.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..3a40cb8 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -21,9 +21,17 @@ namespace flut
 		{
 			if ( test_log_level( l ) )
 			{
-				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
+				// a va_list can be used only once, so measure with a copy
+				va_list copy;
+				va_copy( copy, list );
+				int len = vsnprintf( nullptr, 0, format, copy );
+				va_end( copy );
+				if ( len >= 0 )
+				{
+					std::vector< char > buf( size_t( len ) + 1 );
+					vsnprintf( buf.data(), buf.size(), format, list );
+					log_string( l, string( buf.data(), size_t( len ) ) ); // TODO: use string_view
+				}
 			}
 		}
 
-- 
2.43.0


From 89ecfc597ba35ce8e378da83dc09ccc74016189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:40 +0000
Subject: [PATCH 33/74] fix: copy_file loses data and hides failures,
 load_string hides read errors

---
 flut/filesystem.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 9c4e72c..7b5f64f 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -61,19 +61,31 @@ namespace flut
 #endif
 	}
 
+	// read everything that is left in a stream, returns false if reading failed
+	bool read_stream( std::istream& str, string& result )
+	{
+		char buf[ 4096 ];
+		while ( str.read( buf, sizeof( buf ) ), str.gcount() > 0 )
+			result.append( buf, size_t( str.gcount() ) );
+		return !str.bad();
+	}
+
 	FLUT_API bool copy_file( const path& from, const path& to, bool overwrite )
 	{
 #ifdef FLUT_COMP_MSVC
 		return CopyFile( from.c_str(), to.c_str(), overwrite ) == TRUE;
 #else
-		if ( overwrite || !file_exists( to ) )
+		if ( overwrite || !exists( to ) )
 		{
+			// read the source first: opening the destination erases it, and it can be the same file
 			std::ifstream src( from.str(), std::ios::binary );
-			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
+			string contents;
+			if ( src.good() && read_stream( src, contents ) )
 			{
-				dst << src.rdbuf();
-				return true;
+				std::ofstream dst( to.str(), std::ios::binary );
+				dst.write( contents.data(), contents.size() );
+				dst.close();
+				return dst.good();
 			}
 		}
 		return false;
@@ -144,7 +156,6 @@ namespace flut
 
 	FLUT_API string load_string( const path& filename, error_code* ec )
 	{
-		// this method uses a stringbuf, which may be slower but is more stable
 		std::ifstream ifstr( filename.str() );
 		if ( !ifstr.good() )
 		{
@@ -152,9 +163,14 @@ namespace flut
 				return "";
 			else flut_error( "Could not open " + filename.str() );
 		}
-		std::stringstream buf;
-		buf << ifstr.rdbuf();
-		return buf.str();
+		string contents;
+		if ( !read_stream( ifstr, contents ) )
+		{
+			if ( try_set_error( ec, "Could not read " + filename.str() ) )
+				return "";
+			else flut_error( "Could not read " + filename.str() );
+		}
+		return contents;
 	}
 
 	FLUT_API void current_path( const path& p )
-- 
2.43.0


From 1b5db4002cbeb60d4a32021c6de4265c499ca5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:59 +0000
Subject: [PATCH 34/74] fix: timer follows changes of the system clock

---
 flut/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/timer.hpp b/flut/timer.hpp
index 6ffd5f4..eade4cf 100644
--- a/flut/timer.hpp
+++ b/flut/timer.hpp
@@ -32,7 +32,7 @@ namespace flut
 #if defined FLUT_USE_WINDOWS_PERFORMANCE_COUNTER
 		typedef windows_performance_counter_clock timer_t;
 #else
-		typedef std::chrono::high_resolution_clock timer_t;
+		typedef std::chrono::steady_clock timer_t;
 #endif
 		timer() : epoch( timer_t::now() ) {}
 		void reset() { epoch = timer_t::now(); }
-- 
2.43.0


From 61b6635bed2a78013b9e76fa01c42e19c1b8cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:52 +0000
Subject: [PATCH 35/74] fix: profiler forgets its own thread during static
 initialization

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..3fd5ff4 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -4,8 +4,8 @@
 
 namespace flut
 {
+	std::thread::id instance_thread_; // must be initialized before instance_, which sets it
 	profiler profiler::instance_;
-	std::thread::id instance_thread_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From 48748722e294ced4f42e77696fdf76f62881b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:23 +0000
Subject: [PATCH 36/74] fix: profiler splits sections whose names are equal but
 stored at different addresses

---
 flut/system/profiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 3fd5ff4..15ee786 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -1,5 +1,6 @@
 ﻿#include "profiler.hpp"
 #include <algorithm>
+#include <cstring>
 #include <thread>
 
 namespace flut
@@ -50,7 +51,7 @@ namespace flut
 
 	flut::profiler::section* profiler::find_section( const char* name, size_t parent_id )
 	{
-		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.name == name && s.parent_id == parent_id; } );
+		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.parent_id == parent_id && strcmp( s.name, name ) == 0; } );
 		return it != sections_.end() ? &( *it ) : nullptr;
 	}
 
-- 
2.43.0


From 1da66b3bf64e5a8b28f31ef0b04ee40fb114e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:37 +0000
Subject: [PATCH 37/74] fix: rotation between opposite directions is wrong,
 axis of a double rotation has float precision

---
 flut/math/quat.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..3275808 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -140,11 +140,14 @@ namespace flut
 			if ( equals( d, T(1) ) ) // check if vectors are the same
 				return quat_<T>::identity();
 
-			auto clen = length( c );
-			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			if ( equals( d, T(-1) ) ) // check if vectors are 180 deg apart
+			{
+				// half turn around any axis perpendicular to source
+				auto axis = normalized( cross_product( s, std::abs( s.x ) < T(0.5) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() ) );
+				return quat_<T>( 0, axis.x, axis.y, axis.z );
+			}
 
-			c /= clen;
+			c /= length( c );
 			auto a = std::acos( d ) * T(0.5);
 			auto sa = std::sin( a );
 
@@ -176,7 +179,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From d0a0eef01ce4c7fcc3823a89ec113f0d29fc6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:34 +0000
Subject: [PATCH 38/74] fix: bounds::soft_clamp does not compile, square wave
 is wrong between -1 and 0

---
 flut/math/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..4d6fab6 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { return v - T(2) * floor( v / T(2) ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From 56a97f905b46fdf0efe5fb64f1aa047a5c30fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:35 +0000
Subject: [PATCH 39/74] fix: delay lines use their initial value for the first
 slot only

---
 flut/math/delayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index 6af8783..247d991 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -7,7 +7,8 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct delayer
 	{
-		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), data_{ init_value }, idx_( 0 ), time_( 0 ) {
+		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), idx_( 0 ), time_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
@@ -37,7 +38,8 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct smooth_delayer
 	{
-		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), data_{ init_value }, idx_( 0 ), time_( 0 ), inter_( 0 ) {
+		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), idx_( 0 ), time_( 0 ), inter_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
-- 
2.43.0


From 9c60627c44c5a0cf803a4c0576f4d2e945ff299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:30 +0000
Subject: [PATCH 40/74] fix: four-component vectors ignore w in subtraction,
 negation, scaling and division

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From cae4c3d74f733d59579a98630f687f4d5efb6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:38 +0000
Subject: [PATCH 41/74] fix: make catmull_rom compile and evaluate the segment
 that contains the argument

---
 flut/math/catmull_rom.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a1b8ced..a42d67c 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -1,5 +1,10 @@
 #pragma once
 
+#include "flut/system/assert.hpp"
+#include <algorithm>
+#include <cmath>
+#include <vector>
+
 namespace flut
 {
 	template< typename P >
@@ -66,21 +71,20 @@ namespace flut
 		times_( times )
 		{
 			flut_assert( points.size() >= 4 && times.size() == ( points.size() - 2 ) );
-			segments_.reserve( points.size() - 4 );
-			for ( size_t i = 0; i <= points.size() - 4 )
+			segments_.reserve( points.size() - 3 );
+			for ( size_t i = 0; i <= points.size() - 4; ++i )
 				segments_.emplace_back( points[ i ], points[ i + 1 ], points[ i + 2 ], points[ i + 3 ] );
 		}
 
-		P operator()( T t ) {
-			auto it = std::lower_bound( times_.begin(), times_.end(), t );
-			if ( it == times_.end() ) it = times_.begin();
-			if ( it == times_.end() - 1 ) it = times_.end() - 2;
+		P operator()( T t ) const {
+			// last segment that starts at or before t; the first and last segment extend beyond the ends
+			auto it = std::upper_bound( times_.begin() + 1, times_.end() - 1, t ) - 1;
 			size_t index = it - times_.begin();
 			return segments_[ index ]( ( t - *it ) / ( *( it + 1 ) - *it ) );
 		}
 
 	private:
-		vector< catmull_rom_segment< P > > segments_;
-		vector< T > times_;
+		std::vector< catmull_rom_segment< P > > segments_;
+		std::vector< T > times_;
 	};
 }
-- 
2.43.0


From 37797bfa3fac61525dc4829a811c564f87068a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:38 +0000
Subject: [PATCH 42/74] fix: diagnostic macros do not capture a following else

---
 flut/system/assert.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flut/system/assert.hpp b/flut/system/assert.hpp
index 8f4c8ef..b809bc3 100644
--- a/flut/system/assert.hpp
+++ b/flut/system/assert.hpp
@@ -16,10 +16,10 @@
 
 #if FLUT_USE_ASSERT
 #define flut_assert( expression_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
 
 	#define flut_assert_msg( expression_, message_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Assertion Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
 #else
 	#define flut_assert( expression_ )
 	#define flut_assert_msg( expression_, message_ )
@@ -31,14 +31,14 @@
 
 /// conditional throw exception
 #define flut_error_if( condition_, message_ ) \
-	if ( condition_ ) flut_error( std::string( message_ ) )
+	if ( !( condition_ ) ) {} else flut_error( std::string( message_ ) )
 
 /// throw exception
 #define flut_validate( expression_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_ )
 
 #define flut_validate_msg( expression_, message_ ) \
-	if (!(expression_)) FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
+	if ( expression_ ) {} else FLUT_EXCEPTION( "Validation Failure in " + std::string( __FUNCTION__ ) + "(): "#expression_" (" + std::string( message_ ) + ")" )
 
 /// not implemented exception
 #define FLUT_NOT_IMPLEMENTED FLUT_EXCEPTION( std::string( __FUNCTION__ ) + "(): Function not implemented" );
-- 
2.43.0


From 8c5cc9072f9eea0836ef3f2942d85e8930e297b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 43/74] fix: axis, angle and rotation vector of rotations close
 to identity are NaN

---
 flut/math/quat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 3275808..54fcc81 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -165,7 +165,7 @@ namespace flut
 			T l = sqrt( q.x * q.x + q.y * q.y + q.z * q.z );
 			if ( l > constants<T>::epsilon() )
 			{
-				T f = T(2) * std::acos( q.w ) / l;
+				T f = T(2) * std::atan2( l, q.w ) / l; // w can exceed 1 by rounding
 				return vec3_<T>( f * q.x, f * q.y, f * q.z );
 			}
 			else return vec3_<T>::zero();
@@ -179,7 +179,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::atan2( l, q.w ) ) }; // w can exceed 1 by rounding
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From c505368f0d93d5f48df767c014fb9d8111d7c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 44/74] fix: sampled functions and series are misread far
 outside their range

---
 flut/buffer/interpolation.hpp                   | 4 ++--
 flut/math/regular_piecewise_linear_function.hpp | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/interpolation.hpp b/flut/buffer/interpolation.hpp
index 50d4b6a..1448ee2 100644
--- a/flut/buffer/interpolation.hpp
+++ b/flut/buffer/interpolation.hpp
@@ -35,12 +35,12 @@ namespace flut
 
 		if ( key < K(0) )
 			return cont.front();
+		else if ( key >= K( cont.size() - 1 ) ) // key can exceed the range of size_t
+			return cont.back();
 		else
 		{
 			auto lb = size_t( key );
 			auto ub = lb + 1;
-			if ( ub >= cont.size() )
-				return cont.back();
 
 			K w = key - lb;
 			return ( K(1) - w ) * cont[ lb ] + w * cont[ ub ];
diff --git a/flut/math/regular_piecewise_linear_function.hpp b/flut/math/regular_piecewise_linear_function.hpp
index a77c487..634780d 100644
--- a/flut/math/regular_piecewise_linear_function.hpp
+++ b/flut/math/regular_piecewise_linear_function.hpp
@@ -26,8 +26,7 @@ namespace flut
 			{
 				// find lower bound index of x
 				T x_idx = ( x - x_base ) / x_step;
-				int xlb = int( floor( x_idx ) );
-				clamp( xlb, 0, points - 2 );
+				int xlb = x_idx > T(0) ? ( x_idx < T( points - 2 ) ? int( x_idx ) : points - 2 ) : 0; // x_idx can exceed the range of int
 				T wub = x_idx - xlb;
 				return ( T(1) - wub ) * data[ xlb ] + wub * data[ xlb + 1 ];
 			}
-- 
2.43.0


From 8cd91667a9781358b3cbcd0010688ee2e0860ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 45/74] fix: storage interpolation reads outside the data at
 negative and very large frames

---
 flut/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index a6e35ee..439de71 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -100,7 +100,7 @@ namespace flut
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-			flut_assert( frame0 + 1 < frame_size() );
+			flut_assert( frame_f >= T(0) && frame_f + T(1) < T( frame_size() ) && channel < channel_size() );
 			index_t ofs = frame0 * this->channel_size() + channel;
 			return ( T(1) - frame_w ) * data_[ ofs ] + frame_w * data_[ ofs + this->channel_size() ];
 		}
-- 
2.43.0


From 9e6c09d3d8180d41daf331e756a6eda3a766d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 46/74] fix: save_xml and save_ini do not report that a file
 could not be written

---
 flut/prop_node_tools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 1604a75..38c9621 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -95,6 +95,8 @@ namespace flut
 		set_rapid_xml_node( doc, &doc, pn );
 		std::ofstream ostr( filename.str() );
 		ostr << doc;
+		ostr.close();
+		flut_error_if( !ostr.good(), "Could not write " + filename.str() );
 	}
 
 	bool is_valid_prop_label( const string& s )
@@ -227,6 +229,8 @@ namespace flut
 					str << e2.first << "=" << e2.second.get_value() << std::endl;
 			}
 		}
+		str.close();
+		flut_error_if( !str.good(), "Could not write " + filename.str() );
 	}
 
 	string prop_quoted( const string& s )
-- 
2.43.0


From f06b6fe3bb3d07e46e7d5c1dd7a1d98f56889415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 47/74] fix: load_xml loses the reason when it reports
 malformed XML as an exception

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 38c9621..7e9cb1e 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -85,7 +85,7 @@ namespace flut
 		{
 			if ( try_set_error( ec, e.what() ) )
 				return prop_node();
-			else throw e;
+			else throw;
 		}
 	}
 
-- 
2.43.0


From a32ae594036cdad2131ebaa10a9361c19156ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 48/74] fix: iterating a range whose step does not divide it,
 or whose end lies before its begin, does not end

---
 flut/math/irange.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 6d4ce68..08d6773 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -25,7 +25,7 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_ ); }
-		iterator end() const { return iterator( end_ ); }
+		iterator end() const { return iterator( end_ < begin_ ? begin_ : end_ ); } // empty if end_ lies before begin_
 
 		T begin_, end_;
 	};
@@ -51,7 +51,12 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		iterator end() const { return iterator( begin_ + size() * step_, step_ ); }
+		T size() const { // number of steps needed to reach or pass end_
+			if ( step_ > T( 0 ) ? end_ <= begin_ : end_ >= begin_ ) return T( 0 );
+			T n = ( end_ - begin_ ) / step_;
+			return begin_ + n * step_ == end_ ? n : n + 1;
+		}
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From 66d36d0efff410f246d5283732b8df9400962242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 49/74] fix: right_str throws when more characters are
 requested than there are

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index ed3ba35..67a05e9 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -22,7 +22,7 @@ namespace flut
 
 	/// get right n characters, if n is negative, get string WITHOUT the right n characters
 	inline string right_str( const string& str, int n )
-	{ if ( n >= 0 ) return str.substr( str.size() - n, string::npos ); else return str.substr( size_t( -n ), string::npos ); }
+	{ if ( n >= 0 ) return str.substr( str.size() - std::min( size_t( n ), str.size() ) ); else return str.substr( std::min( -size_t( n ), str.size() ) ); }
 
 	/// get index of a substring in a string
 	inline index_t in_str( const string& str, const string& substr, index_t p = 0 ) { return str.find( substr, p ); }
-- 
2.43.0


From 2400196795d47fa4885bcc37fae95fac3daaeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 50/74] fix: parsed version loses all but the first word of its
 postfix

---
 flut/system/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 368c519..90dba7f 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -16,7 +16,7 @@ namespace flut
 			char dummy;
 			str >> major >> dummy >> minor >> dummy >> patch;
 			if ( str.peek() == '.' ) str >> dummy >> build;
-			if ( str.good() ) str >> postfix;
+			if ( str.good() ) std::getline( str >> std::ws, postfix );
 		}
 
 		string to_str() const {
-- 
2.43.0


From 7050651a2c1488c4525619635b108f8a19261d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 51/74] fix: top_average of fewer elements than requested
 counts the missing ones as zero

---
 flut/container_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index b998a0e..7368427 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -57,7 +57,7 @@ namespace flut
 	}
 
 	template< typename T > T top_average( const vector< T >& vec, size_t count ) {
-		vector< T > result( count );
+		vector< T > result( std::min( count, vec.size() ) );
 		std::partial_sort_copy( vec.begin(), vec.end(), result.begin(), result.end() );
 		return average( result );
 	}
-- 
2.43.0


From 5f53c4380472a503bf393cec8d63378228db3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 52/74] fix: elements cannot be searched in a constant
 container, nor constant elements

---
 flut/container_tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 7368427..03c9c80 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -9,10 +9,10 @@
 
 namespace flut
 {
-	template< typename C > typename C::iterator find( C& cont, typename C::value_type& e )
+	template< typename C > typename C::iterator find( C& cont, const typename C::value_type& e )
 	{ return std::find( std::begin( cont ), std::end( cont ), e ); }
 
-	template< typename C, typename P > typename C::const_iterator find( const C& cont, typename C::value_type& e )
+	template< typename C > typename C::const_iterator find( const C& cont, const typename C::value_type& e )
 	{ return std::find( std::begin( cont ), std::end( cont ), e ); }
 
 	template< typename C, typename P > typename C::iterator find_if( C& cont, P pred )
-- 
2.43.0


From afcdec895ed75e12585843552ea96e2311b8cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 53/74] fix: writing to a label of a storage without frames
 adds the channel before failing

---
 flut/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 439de71..bbed191 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -86,7 +86,7 @@ namespace flut
 		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
-		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
+		T& operator[]( const L& label ) { flut_assert( frame_size() > 0 ); return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
 		const T& operator()( const L& label ) const {
-- 
2.43.0


From d9f1637fa3a04ce98fe12fd97f7ebcc2ca595b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 54/74] fix: setting the label a channel already has is
 reported as a duplicate

---
 flut/buffer/data_header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index e2a10d4..a471fcd 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -34,7 +34,7 @@ namespace flut
 		const L& operator[]( index_t idx ) const { return labels_[ idx ]; }
 
 		index_t set( index_t idx, const L& label ) {
-			flut_assert( idx < size() && find( label ) == no_index );
+			flut_assert( idx < size() && ( find( label ) == no_index || find( label ) == idx ) );
 			if ( find( labels_[ idx ] ) == idx ) label_indices_.erase( labels_[ idx ] );
 			labels_[ idx ] = label;
 			return label_indices_[ label ] = idx;
-- 
2.43.0


From 2e1e8079b365c4fa17d83f0df70eb87854f48ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 55/74] fix: circular_frame_buffer does not compile with its
 default label type

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 2f2f9b8..5cc27fe 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -5,7 +5,7 @@
 
 namespace flut
 {
-	template< typename T, typename L = void >
+	template< typename T, typename L = string >
 	class circular_frame_buffer
 	{
 	public:
-- 
2.43.0


From 1d09b19a475145250a10ce7badb11a76cf317a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 56/74] fix: file_exists reports folders as files on platforms
 that can open them

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 7b5f64f..7bc1b2e 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -105,7 +105,7 @@ namespace flut
 	FLUT_API bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !folder_exists( file );
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
-- 
2.43.0


From fed35d2938a41e5d82179f76264f1ba487a85943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 57/74] fix: create_directories reports failure for a folder
 with a trailing separator

---
 flut/filesystem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 7bc1b2e..3779052 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -126,6 +126,9 @@ namespace flut
 
 	FLUT_API bool create_directories( const path& folder )
 	{
+		if ( !folder.has_filename() && folder.parent_path() != folder )
+			return create_directories( folder.parent_path() ); // trailing separator
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !folder_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From 89508f03534823b5fdaef47181f0253cbff1a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 58/74] fix: changing the current path to a folder that cannot
 be entered passes silently

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 3779052..7cb95b2 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -178,7 +178,7 @@ namespace flut
 
 	FLUT_API void current_path( const path& p )
 	{
-		chdir( p.c_str() );
+		flut_error_if( chdir( p.c_str() ) != 0, "Could not change current path to " + p.str() );
 	}
 
 	FLUT_API path current_path()
-- 
2.43.0


From a3dde9e1c8df6244a640377307ea495dbf5c6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 59/74] fix: type names of class templates are cut off inside
 their arguments

---
 flut/system_tools.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flut/system_tools.cpp b/flut/system_tools.cpp
index c3d8d1e..05d2469 100644
--- a/flut/system_tools.cpp
+++ b/flut/system_tools.cpp
@@ -73,8 +73,15 @@ namespace flut
 		std::string str = std::string( cleanType );
 		free( cleanType );
 #endif
-		size_t pos = str.find_last_of( ": " );
-		return ( pos != std::string::npos ) ? str.substr( pos + 1 ) : str;
+		size_t pos = str.size();
+		for ( int depth = 0; pos > 0; --pos )
+		{
+			char c = str[ pos - 1 ];
+			if ( c == '>' ) ++depth; // separators inside template arguments do not count
+			else if ( c == '<' ) --depth;
+			else if ( depth == 0 && ( c == ':' || c == ' ' ) ) break;
+		}
+		return str.substr( pos );
 	}
 
 	FLUT_API void set_thread_priority( thread_priority p )
-- 
2.43.0


From abf9df78573fbccd4c2b00b4774bf07f6feae5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 60/74] fix: stringf cuts off text after a null character

---
 flut/string_tools.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index ed1b7c5..b46ecfa 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -77,15 +77,17 @@ namespace flut
 		char buf[256];
 		int len = vsnprintf( buf, sizeof( buf ), format, args );
 		va_end( args );
+		if ( len < 0 )
+			return string(); // invalid format
 		if ( len < int( sizeof( buf ) ) )
-			return string( buf );
+			return string( buf, size_t( len ) );
 
 		// text does not fit in buffer
 		vector< char > long_buf( size_t( len ) + 1 );
 		va_start( args, format );
 		vsnprintf( long_buf.data(), long_buf.size(), format, args );
 		va_end( args );
-		return string( long_buf.data() );
+		return string( long_buf.data(), size_t( len ) );
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 73a8276e5c055ddd8f499f890fb440c96bf6df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:04 +0000
Subject: [PATCH 61/74] fix: copied and moved text streams refer to the text of
 the original

---
 flut/char_stream.cpp | 19 +++++++++++++++++++
 flut/char_stream.hpp |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c8afe59..9f039c6 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -20,6 +20,25 @@ namespace flut
 	char_stream( load_string( filename ), delim )
 	{}
 
+	char_stream::char_stream( const char_stream& other )
+	{
+		*this = other;
+	}
+
+	flut::char_stream& char_stream::operator=( const char_stream& other )
+	{
+		bool owns_text = other.buffer == other.str_buffer.c_str();
+		radix = other.radix;
+		str_buffer = other.str_buffer;
+		buffer = owns_text ? str_buffer.c_str() : other.buffer;
+		cur_pos = buffer + ( other.cur_pos - other.buffer );
+		cur_pos_end = nullptr;
+		buffer_end = buffer + ( other.buffer_end - other.buffer );
+		delimiters_ = other.delimiters_;
+		buffer_flags = other.buffer_flags;
+		return *this;
+	}
+
 	flut::char_stream& char_stream::operator>>( string& s )
 	{
 		for ( cur_pos_end = const_cast<char*>( cur_pos ); *cur_pos_end && !isspace( *cur_pos_end ); ++cur_pos_end );
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index d072b83..89f1585 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -29,6 +29,10 @@ namespace flut
 		/// construct char_stream with contents read from file
 		char_stream( const path& filename, const char* delim = default_delimiters() );
 
+		/// copies keep their own text if the original does
+		char_stream( const char_stream& other );
+		char_stream& operator=( const char_stream& other );
+
 		~char_stream() {}
 
 		char_stream& operator>>( float& v ) { v = strtof( cur_pos, &cur_pos_end ); process_end_pos(); return *this; }
-- 
2.43.0


From 946c7340d9ce2d982ff6559beda39e619e451e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:03 +0000
Subject: [PATCH 62/74] fix: load_xml accepts documents whose closing tags do
 not match

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 7e9cb1e..b97921f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -71,7 +71,7 @@ namespace flut
 		try
 		{
 			rapidxml::xml_document<> doc;
-			doc.parse< 0 >( &file_contents[ 0 ] ); // not officially supported but probably safe
+			doc.parse< rapidxml::parse_validate_closing_tags >( &file_contents[ 0 ] ); // not officially supported but probably safe
 
 			if ( doc.first_node() )
 			{
-- 
2.43.0


From 8578489cddeaf3643b30e05bb08196bf1eea8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 63/74] fix: adding a column with a default taken from the
 table reads freed memory

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index ad2e2b6..ed49a07 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -37,7 +37,7 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols, const T& value = T() ) {
+		void resize( size_t rows, size_t cols, T value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-- 
2.43.0


From b88985a9d407b866ac4bb6f2283cd1d39c50f379 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:46:57 +0000
Subject: [PATCH 64/74] fix: linear regression is wrong for integer arguments

---
 flut/math/linear_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/linear_regression.hpp b/flut/math/linear_regression.hpp
index 2b27d96..50fa830 100644
--- a/flut/math/linear_regression.hpp
+++ b/flut/math/linear_regression.hpp
@@ -13,7 +13,7 @@ namespace flut
 		using T = typename IterY::value_type;
 		auto n = x_end - x_begin;
 		flut_assert_msg( n == y_end - y_begin, "Input ranges must be of equal size for x and y" );
-		T avgx = average( x_begin, x_end );
+		T avgx = std::accumulate( x_begin, x_end, T( 0 ) ) / T( n ); // x can be of another type than T
 		T avgY = average( y_begin, y_end );
 		T num = 0.0;
 		T den = 0.0;
-- 
2.43.0


From 41da16e0bd7310d27f8337d7762493bf0c4931a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:56 +0000
Subject: [PATCH 65/74] fix: merging a part of a tree into the tree itself
 reads freed memory

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index b97921f..9d916ea 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -272,7 +272,8 @@ namespace flut
 
 	void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite )
 	{
-		for ( auto& o : other )
+		const prop_node::container_t nodes( other.begin(), other.end() ); // other can be part of pn
+		for ( auto& o : nodes )
 		{
 			auto it = pn.find( o.first );
 			if ( it == pn.end() )
-- 
2.43.0


From ac79925330c47127118011e99c9d3d226b32ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:56 +0000
Subject: [PATCH 66/74] fix: adding a frame or channel with the data of the
 storage itself writes out of bounds

---
 flut/storage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index bbed191..f121a1a 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -24,7 +24,7 @@ namespace flut
 		}
 
 		/// add a channel with data, resize buffer if needed
-		index_t add_channel( L label, const vector< T >& data ) {
+		index_t add_channel( L label, vector< T > data ) { // data can be that of this storage, which is resized
 			flut_assert( find_channel( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
@@ -52,7 +52,7 @@ namespace flut
 		storage< T, L >& add_frame( T value = T( 0 ) ) { data_.resize( data_.size() + channel_size(), value ); ++frame_size_; return *this; }
 
 		/// add frame to storage
-		void add_frame( const vector< T >& data ) {
+		void add_frame( vector< T > data ) { // data can be that of this storage, which is resized
 			flut_assert( data.size() == channel_size() );
 			data_.resize( data_.size() + channel_size() );
 			++frame_size_;
-- 
2.43.0


From 1ce1b00d941e81119deb67c3845d76254d6f7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:56 +0000
Subject: [PATCH 67/74] fix: addressing table cells by labels of the table
 itself reads freed memory

---
 flut/table.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index ed49a07..f3b80ef 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -59,7 +59,11 @@ namespace flut
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
 		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
-		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
+		T& operator()( const L& row, const L& col ) {
+			const L col_label( col ); // col can be a row label, which moves when a row is added
+			index_t row_idx = get_or_add_row( row );
+			return (*this)( row_idx, get_or_add_column( col_label ) );
+		}
 
 	private:
 
-- 
2.43.0


From d01dc94f4ef702e89667dfee00e8a51087b78545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:56 +0000
Subject: [PATCH 68/74] fix: adding or removing sinks while a message is being
 handled repeats or loses messages

---
 flut/system/log.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3a40cb8..97ee131 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -13,8 +13,10 @@ namespace flut
 
 		void log_string( level l, const string& str )
 		{
-			for ( auto s : global_sinks )
-				s->try_send_log_message( l, str );
+			auto sinks = global_sinks; // sinks can be added or removed while a message is being handled
+			for ( auto s : sinks )
+				if ( std::find( global_sinks.begin(), global_sinks.end(), s ) != global_sinks.end() )
+					s->try_send_log_message( l, str );
 		}
 
 		void log_vstring( level l, const char* format, va_list list )
-- 
2.43.0


From 10b075b555a40e351d68044256a7504cc9b607b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:22 +0000
Subject: [PATCH 69/74] fix: refuse interpolation from a frame number beyond
 every frame in circular_frame_buffer

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 5cc27fe..d88a112 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -36,7 +36,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 + 1 < frame_size() && channel < channel_size() );
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 < frame_size() && frame0 + 1 < frame_size() && channel < channel_size() );
 			index_t ofs0 = ( frame0 % frame_buf_size_ ) * channel_size() + channel;
 			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
-- 
2.43.0


From e4bf5ab46ef8eab341fb87cb3aefd2f1768dde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:51 +0000
Subject: [PATCH 70/74] fix: convert enumeration values that do not fit in an
 int to text and back

---
 flut/system/string_cast.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flut/system/string_cast.hpp b/flut/system/string_cast.hpp
index bb28141..f6ecb2c 100644
--- a/flut/system/string_cast.hpp
+++ b/flut/system/string_cast.hpp
@@ -52,8 +52,9 @@ namespace flut
 	};
 
 	template< typename T > struct string_cast< T, typename std::enable_if< std::is_enum< T >::value >::type > {
-		static T from( const string& s ) { return static_cast< T >( string_cast< int >::from( s ) ); }
-		static string to( const T& v ) { return string_cast< int >::to( static_cast< int >( v ) ); }
+		using int_t = typename std::conditional< ( sizeof( T ) > sizeof( int ) ), long long, int >::type;
+		static T from( const string& s ) { return static_cast< T >( string_cast< int_t >::from( s ) ); }
+		static string to( const T& v ) { return string_cast< int_t >::to( static_cast< int_t >( v ) ); }
 	};
 
 	template< typename T > bool string_is( const string& s ) {
-- 
2.43.0


From 01398307a1a8f7ccf5232a9bae45cf5466cef081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:10 +0000
Subject: [PATCH 71/74] fix: sockets and block devices are not folders

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 7cb95b2..2062ed9 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -117,7 +117,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From 6d0ce75b878853f5c57fdf90971f670d52b5138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:08 +0000
Subject: [PATCH 72/74] fix: report the existence of files that cannot be
 opened

---
 flut/filesystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2062ed9..e215565 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -104,8 +104,7 @@ namespace flut
 
 	FLUT_API bool file_exists( const path& file )
 	{
-		std::ifstream ifs( file.str() );
-		return ifs.good() && !folder_exists( file );
+		return exists( file ) && !folder_exists( file );
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
-- 
2.43.0


From 8c02f7c8ac0026ee42fcc6b2e15bdef12cfa1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 73/74] fix: reading a character beyond the end of a text
 stream leaves the text

---
 flut/char_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 89f1585..d028d33 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -50,7 +50,7 @@ namespace flut
 
 		string get_line();
 		string get_token( const char* operators = "", const char* quotations = "\"", const char* trim_chars = "" );
-		char getc() { char c = *cur_pos++; test_eof(); return c; }
+		char getc() { if ( test_eof() ) { buffer_flags.set< fail_flag >(); return '\0'; } char c = *cur_pos++; test_eof(); return c; }
 		char peekc() { return *cur_pos; }
 
 		bool good() { return !buffer_flags.any(); }
-- 
2.43.0


From 063cd8c647142c3606e60420302b13f8532a494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 74/74] fix: replacing the filename or extension of a path by
 the path itself

---
 flut/system/path.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index cb91ea2..a098405 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -12,10 +12,9 @@ namespace flut
 	path& path::replace_extension( const path& ext )
 	{
 		size_t n = extension_pos();
+		const flut::string new_ext = ext.empty() ? flut::string() : '.' + ext.data_; // ext can be this path
 		if ( n != string::npos ) data_.erase( n ); // remove existing extension
-
-		if ( !ext.empty() )
-			data_ += '.' + ext.data_;
+		data_ += new_ext;
 
 		return *this;
 	}
@@ -27,8 +26,7 @@ namespace flut
 
 	path& path::replace_filename( const path& f )
 	{
-		remove_filename();
-		return *this /= f;
+		return *this = parent_path() / f; // f can be this path
 	}
 
 	flut::path& path::make_preferred()
-- 
2.43.0

