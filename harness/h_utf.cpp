#include "common.hpp"
#include <efsw/Utf.hpp>
#include <efsw/String.hpp>
using namespace efsw;
static Harness h( "C11" );
typedef std::vector<unsigned long> V;
static bool scalar( uint32_t c ) { return c <= 0x10FFFF && !( c >= 0xD800 && c <= 0xDFFF ); }
static std::string e8( uint32_t c ) {
	std::string o;
	if ( c < 0x80 ) o += (char)c;
	else if ( c < 0x800 ) { o += (char)( 0xC0 | c >> 6 ); o += (char)( 0x80 | ( c & 63 ) ); }
	else if ( c < 0x10000 ) { o += (char)( 0xE0 | c >> 12 ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); }
	else { o += (char)( 0xF0 | c >> 18 ); o += (char)( 0x80 | ( c >> 12 & 63 ) ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); }
	return o;
}
static std::vector<Uint16> e16( uint32_t c ) {
	std::vector<Uint16> o;
	if ( c < 0x10000 ) o.push_back( c ); else { c -= 0x10000; o.push_back( 0xD800 + ( c >> 10 ) ); o.push_back( 0xDC00 + ( c & 0x3FF ) ); }
	return o;
}
static std::string cps( const std::vector<Uint32>& v ) { std::string s; char b[16]; for ( size_t i = 0; i < v.size() && i < 40; i++ ) { snprintf( b, 16, "U+%X ", v[i] ); s += b; } return s; }
template <class T> static std::string els( const std::vector<T>& v ) { std::string s; char b[16]; for ( size_t i = 0; i < v.size() && i < 40; i++ ) { snprintf( b, 16, "%X ", (unsigned)( sizeof( T ) == 1 ? (unsigned char)v[i] : v[i] ) ); s += b; } return s; }
static void one( uint32_t c ) {
	if ( ( c & 0xFF ) == 0 ) h.eval( "code " + num( c ) );
	std::string a; Utf8::Encode( c, std::back_inserter( a ) );
	if ( a != ( scalar( c ) ? e8( c ) : "" ) ) h.fail( "UTF-8 encoding is " + show( a ), "code " + num( c ) );
	a.clear(); Utf8::Encode( c, std::back_inserter( a ), '?' );
	if ( a != ( scalar( c ) ? e8( c ) : "?" ) ) h.fail( "UTF-8 encoding with a replacement is " + show( a ), "code " + num( c ) );
	std::vector<Uint16> u; Utf16::Encode( c, std::back_inserter( u ) );
	if ( u != ( scalar( c ) ? e16( c ) : std::vector<Uint16>() ) ) h.fail( "UTF-16 encoding is " + els( u ), "code " + num( c ) );
	u.clear(); Utf16::Encode( c, std::back_inserter( u ), '?' );
	if ( u != ( scalar( c ) ? e16( c ) : std::vector<Uint16>( 1, '?' ) ) ) h.fail( "UTF-16 encoding with a replacement is " + els( u ), "code " + num( c ) );
	if ( !scalar( c ) ) return;
	std::string b = e8( c ) + "x"; Uint32 o = 1;
	const char* e = Utf8::Decode( b.data(), b.data() + b.size(), o );
	if ( o != c || e != b.data() + b.size() - 1 ) h.fail( "UTF-8 decoding gives " + num( o ), "code " + num( c ) );
	e = Utf8::Decode( b.data(), b.data() + b.size() - 1, o );
	if ( o != c || e != b.data() + b.size() - 1 ) h.fail( "UTF-8 decoding at the end gives " + num( o ), "code " + num( c ) );
	std::vector<Uint16> v = e16( c ); v.push_back( 'x' );
	const Uint16* f = Utf16::Decode( v.data(), v.data() + v.size(), o );
	if ( o != c || f != v.data() + v.size() - 1 ) h.fail( "UTF-16 decoding gives " + num( o ), "code " + num( c ) );
}
template <int N, class T> static void seq( const std::vector<T>& in ) {
	typedef Utf<N> U;
	h.eval( num( N ) + ": " + els( in ) );
	std::unique_ptr<T[]> buf( new T[in.size() ? in.size() : 1] );   // exact size: reads past the end are reported
	std::copy( in.begin(), in.end(), buf.get() );
	const T *b = buf.get(), *e = b + in.size(), *p = b;
	std::vector<Uint32> code; size_t n = 0;
	std::string x8; std::vector<Uint16> x16;
	while ( p < e ) {
		Uint32 o = 7; const T* q = U::Decode( p, e, o );
		if ( q <= p || q > e ) h.fail( "a decode step moved from " + num( p - b ) + " to " + num( q - b ), num( N ) + ": " + els( in ) );
		if ( U::Next( p, e ) != q ) h.fail( "skipping differs from decoding at " + num( p - b ), num( N ) + ": " + els( in ) );
		code.push_back( o ); p = q; n++;
		if ( N != 8 ) Utf8::Encode( o, std::back_inserter( x8 ) );
		if ( N != 16 ) Utf16::Encode( o, std::back_inserter( x16 ) );
	}
	if ( U::Count( b, e ) != n ) h.fail( "count is " + num( (long long)U::Count( b, e ) ) + " for " + num( n ) + " steps", num( N ) + ": " + els( in ) );
	std::string g8; std::vector<Uint16> g16; std::vector<Uint32> g32;
	U::toUtf8( b, e, std::back_inserter( g8 ) ); U::ToUtf16( b, e, std::back_inserter( g16 ) ); U::ToUtf32( b, e, std::back_inserter( g32 ) );
	if ( N == 8 ) x8.assign( in.begin(), in.end() );
	if ( N == 16 ) x16.assign( in.begin(), in.end() );
	if ( g8 != x8 ) h.fail( "conversion to UTF-8 is not the steps in order", num( N ) + ": " + els( in ) );
	if ( g16 != x16 ) h.fail( "conversion to UTF-16 is not the steps in order", num( N ) + ": " + els( in ) );
	if ( g32 != code ) h.fail( "conversion to UTF-32 is not the steps in order", num( N ) + ": " + els( in ) );
}
static void text( const std::vector<Uint32>& t ) {
	h.eval( cps( t ) );
	std::string a; std::vector<Uint16> u;
	for ( auto c : t ) { a += e8( c ); for ( auto x : e16( c ) ) u.push_back( x ); }
	std::string a2; std::vector<Uint16> u2; std::vector<Uint32> t2;
	Utf32::toUtf8( t.begin(), t.end(), std::back_inserter( a2 ) ); if ( a2 != a ) h.fail( "UTF-32 to UTF-8", cps( t ) );
	Utf32::ToUtf16( t.begin(), t.end(), std::back_inserter( u2 ) ); if ( u2 != u ) h.fail( "UTF-32 to UTF-16", cps( t ) );
	Utf8::ToUtf32( a.begin(), a.end(), std::back_inserter( t2 ) ); if ( t2 != t ) h.fail( "UTF-8 to UTF-32", cps( t ) );
	t2.clear(); Utf16::ToUtf32( u.begin(), u.end(), std::back_inserter( t2 ) ); if ( t2 != t ) h.fail( "UTF-16 to UTF-32", cps( t ) );
	a2.clear(); Utf16::toUtf8( u.begin(), u.end(), std::back_inserter( a2 ) ); if ( a2 != a ) h.fail( "UTF-16 to UTF-8", cps( t ) );
	u2.clear(); Utf8::ToUtf16( a.begin(), a.end(), std::back_inserter( u2 ) ); if ( u2 != u ) h.fail( "UTF-8 to UTF-16", cps( t ) );
	if ( Utf8::Count( a.begin(), a.end() ) != t.size() || Utf16::Count( u.begin(), u.end() ) != t.size() || Utf32::Count( t.begin(), t.end() ) != t.size() ) h.fail( "count", cps( t ) );
	String s = String::fromUtf8( a );
	if ( s.toUtf8() != a || s.size() != t.size() ) h.fail( "String::fromUtf8 and toUtf8 do not give the text back", cps( t ) );
	if ( std::find( t.begin(), t.end(), 0 ) == t.end() ) { String z( a.c_str() ); if ( z.toUtf8() != a ) h.fail( "String(const char*) and toUtf8 do not give the text back", cps( t ) ); }
	if ( String( a ).toUtf8() != a ) h.fail( "String(std::string) and toUtf8 do not give the text back", cps( t ) );
}
int main() {
	for ( uint32_t c = 0; c < 0x110000 + 300; c++ ) one( c );
	for ( uint32_t c : { 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x200000u, 0xD800u + 0x10000u } ) one( c );
	static const uint32_t edge[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 'a', '/' };
	static const int e8s[] = { 0x41, 0x80, 0xBF, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFF, 0 };
	static const int e16s[] = { 0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0xFFFE, 0 };
	for ( int n = 0; n <= 3; n++ ) {   // every short sequence over the edge elements
		size_t t8 = 1, t16 = 1; for ( int i = 0; i < n; i++ ) { t8 *= 15; t16 *= 9; }
		for ( size_t k = 0; k < t8; k++ ) { std::vector<char> v; size_t q = k; for ( int i = 0; i < n; i++, q /= 15 ) v.push_back( (char)e8s[q % 15] ); seq<8>( v ); }
		for ( size_t k = 0; k < t16; k++ ) { std::vector<Uint16> v; size_t q = k; for ( int i = 0; i < n; i++, q /= 9 ) v.push_back( e16s[q % 9] ); seq<16>( v ); }
	}
	while ( h.time_left() && h.evals < 400000 ) {
		std::vector<Uint32> t; size_t n = h.rnd( 12 );
		for ( size_t i = 0; i < n; i++ ) { uint32_t c; do c = h.rnd( 2 ) ? edge[h.rnd( 15 )] : h.rnd( 0x110000 ); while ( !scalar( c ) ); t.push_back( c ); }
		text( t );
		std::vector<char> v; n = h.rnd( 14 ); for ( size_t i = 0; i < n; i++ ) v.push_back( h.rnd( 2 ) ? (char)e8s[h.rnd( 15 )] : (char)h.rnd( 256 ) ); seq<8>( v );
		std::vector<Uint16> w; n = h.rnd( 10 ); for ( size_t i = 0; i < n; i++ ) w.push_back( h.rnd( 2 ) ? e16s[h.rnd( 9 )] : h.rnd( 65536 ) ); seq<16>( w );
		std::vector<Uint32> z; n = h.rnd( 10 ); for ( size_t i = 0; i < n; i++ ) z.push_back( h.rnd( 3 ) ? h.rnd( 0x110400 ) : (Uint32)h.rng() ); seq<32>( z );
	}
	return h.done();
}
