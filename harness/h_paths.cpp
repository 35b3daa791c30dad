#include "common.hpp"
#include <efsw/FileSystem.hpp>
#include <efsw/String.hpp>
using namespace efsw;
static Harness h( "C12" );
static bool ends( const std::string& s ) { return !s.empty() && s.back() == '/'; }
static std::string strip( std::string s ) { if ( ends( s ) ) s.pop_back(); return s; }
static void one( const std::string& p ) {
	h.eval( show( p ) );
	std::string a = p; FileSystem::dirAddSlashAtEnd( a );
	std::string ea = ( p.empty() || ends( p ) ) ? p : p + "/";
	if ( a != ea ) h.fail( "adding a trailing separator gave " + show( a ), show( p ) );
	std::string r = p; FileSystem::dirRemoveSlashAtEnd( r );
	if ( r != strip( p ) ) h.fail( "removing a trailing separator gave " + show( r ), show( p ) );
	std::string q = p;
	if ( FileSystem::slashAtEnd( q ) != ends( p ) ) h.fail( "trailing separator test is wrong", show( p ) );
	std::string f = FileSystem::fileNameFromPath( p ), d = FileSystem::pathRemoveFileName( p );
	if ( f.find( '/' ) != std::string::npos ) h.fail( "file name has a separator: " + show( f ), show( p ) );
	std::string s = strip( p );
	size_t pos = s.rfind( '/' );
	std::string ef = pos == std::string::npos ? s : s.substr( pos + 1 );
	std::string ed = pos == std::string::npos ? s : s.substr( 0, pos + 1 );
	if ( f != ef ) h.fail( "file name is " + show( f ), show( p ) );
	if ( d != ed ) h.fail( "parent part is " + show( d ), show( p ) );
	if ( FileSystem::precomposeFileName( p ) != p ) h.fail( "name normalisation changed a name", show( p ) );
	for ( int e = 0; e < 2; e++ ) {
		std::vector<std::string> exp; std::string cur;
		for ( char c : p ) { if ( c == '/' ) { if ( e || !cur.empty() ) exp.push_back( cur ); cur.clear(); } else cur += c; }
		if ( !cur.empty() ) exp.push_back( cur );
		if ( String::split( p, '/', e ) != exp ) h.fail( "splitting returned other pieces", show( p ) + ( e ? " with" : " without" ) + " empty pieces" );
		String u( p ); std::vector<String> ue; for ( auto& x : exp ) ue.push_back( String( x ) );
		if ( String::split( u, (Uint32)'/', e ) != ue ) h.fail( "splitting (wide string) returned other pieces", show( p ) );
	}
}
static void two( const std::string& a, const std::string& b ) {
	h.eval( show( a ) + " prefix of " + show( b ) );
	bool pre = !a.empty() && b.compare( 0, a.size(), a ) == 0 && b.size() >= a.size();
	int exp = pre ? (int)a.size() - 1 : -1;
	if ( String::strStartsWith( a, b ) != exp ) h.fail( "prefix test gave " + num( String::strStartsWith( a, b ) ), show( a ) + " " + show( b ) );
	if ( String::strStartsWith( String( a ), String( b ) ) != exp ) h.fail( "prefix test (wide) is wrong", show( a ) + " " + show( b ) );
}
int main() {
	const char al[] = "a/b";
	std::vector<std::string> all( 1, "" );
	for ( size_t i = 0; i < all.size(); i++ ) { one( all[i] ); if ( all[i].size() < 7 ) for ( int k = 0; k < 3; k++ ) all.push_back( all[i] + al[k] ); }
	for ( auto& a : all ) if ( a.size() <= 4 ) for ( auto& b : all ) if ( b.size() <= 4 ) two( a, b );
	while ( h.time_left() && h.evals < 200000 ) {
		std::string s; size_t n = h.rnd( 40 );
		for ( size_t i = 0; i < n; i++ ) s += h.rnd( 3 ) ? (char)( 1 + h.rnd( 127 ) ) : '/';
		one( s ); std::string t = s.substr( 0, h.rnd( s.size() + 1 ) ); if ( h.rnd( 3 ) == 0 && !t.empty() ) t[h.rnd( t.size() )] ^= 1; two( t, s );
	}
	return h.done();
}
