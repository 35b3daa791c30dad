// C13: metadata records, listings and the remote classification on the real file system
#include "fsbox.hpp"
#include <efsw/FileInfo.hpp>
#include <efsw/FileSystem.hpp>
#include <new>
using namespace efsw;
static Harness h( "C13" );
static std::string cs;
static void bad( const std::string& w ) { h.fail( w, cs ); }
struct Rec { uint64_t m, s, o, g, p, i; };
static Rec real( std::string p, bool link ) {
	if ( p.size() > 1 && p.back() == '/' ) p.pop_back();
	struct stat st; Rec r = { 0, 0, 0, 0, 0, 0 };
	if ( ( link ? lstat( p.c_str(), &st ) : stat( p.c_str(), &st ) ) == 0 ) r = { (uint64_t)st.st_mtime, (uint64_t)st.st_size, st.st_uid, st.st_gid, st.st_mode, st.st_ino };
	return r;
}
static void cmp( const FileInfo& f, const Rec& r, const std::string& p, const char* w ) {
	if ( f.Filepath != p ) bad( std::string( w ) + ": the path is kept as " + show( f.Filepath ) + ", given " + show( p ) );
	if ( f.ModificationTime != r.m ) bad( std::string( w ) + ": wrong modification time for " + p );
	if ( f.Size != r.s ) bad( std::string( w ) + ": size " + num( f.Size ) + ", expected " + num( r.s ) + " for " + p );
	if ( f.OwnerId != r.o || f.GroupId != r.g ) bad( std::string( w ) + ": wrong owner or group for " + p );
	if ( f.Permissions != r.p ) bad( std::string( w ) + ": wrong permissions for " + p );
	if ( f.Inode != r.i ) bad( std::string( w ) + ": wrong inode for " + p );
}
template <class F> static void inDirty( F f ) { // construct over memory that is not zero
	static std::aligned_storage<sizeof( FileInfo ), alignof( FileInfo )>::type m;
	memset( &m, 0xA5, sizeof m );
	FileInfo* p = f( &m );
	p->~FileInfo();
}
__attribute__( ( noinline, no_sanitize( "address" ) ) ) static void dirtyStack( uint64_t v ) {
	volatile uint64_t a[4096];
	for ( int i = 0; i < 4096; i++ ) a[i] = v;
}
__attribute__( ( noinline ) ) static bool remote( const std::string& p ) { return FileSystem::isRemoteFS( p ); }
int main() {
	Box b;
	while ( h.time_left() ) {
		std::string d = b.at( "d" + num( h.rnd( 2 ) ) );
		b.mk( d ); d += "/";
		std::vector<std::string> names;
		for ( int i = 0, n = h.rnd( 6 ); i < n; i++ ) {
			static const char* N[] = { "a", "b.txt", "...", ".h", "..x", "c d", ". ", "~" };
			std::string x = d + N[h.rnd( 8 )];
			switch ( h.rnd( 7 ) ) {
				case 0: case 1: b.write( x, std::string( h.rnd( 5000 ), 'q' ) ); break;
				case 2: b.mk( x ); break;
				case 3: b.sym( h.rnd( 2 ) ? "nowhere" : d + "a", x ); break;
				case 4: b.rm( x ); break;
				case 5: if ( b.exists( x ) ) { chmod( x.c_str(), h.rnd( 01000 ) ); if ( lchown( x.c_str(), h.rnd( 70000 ), h.rnd( 70000 ) ) ) {} } break;
				case 6: if ( mkfifo( x.c_str(), 0600 ) ) {} break;
			}
			names.push_back( x );
		}
		names.push_back( d ); names.push_back( d.substr( 0, d.size() - 1 ) ); names.push_back( "/" ); names.push_back( "" ); names.push_back( d + "missing" ); names.push_back( d + "missing/" );
		names.push_back( d + "a/" ); names.push_back( "relative-missing" ); names.push_back( "." );
		for ( auto& p : names ) {
			cs = "record of " + show( p.compare( 0, b.root.size(), b.root ) == 0 ? p.substr( b.root.size() ) : p );
			Rec r = real( p, false ), l = real( p, true );
			cs += " mode " + num( r.p ) + "/" + num( l.p ) + " size " + num( r.s );
			h.eval( cs );
			inDirty( [&]( void* m ) { FileInfo* f = new ( m ) FileInfo( p ); cmp( *f, r, p, "record" ); return f; } );
			inDirty( [&]( void* m ) { FileInfo* f = new ( m ) FileInfo( p, false ); cmp( *f, r, p, "record" ); return f; } );
			inDirty( [&]( void* m ) { FileInfo* f = new ( m ) FileInfo( p, true ); cmp( *f, l, p, "link record" ); return f; } );
			inDirty( [&]( void* m ) { FileInfo* f = new ( m ) FileInfo(); cmp( *f, Rec{ 0, 0, 0, 0, 0, 0 }, "", "empty record" ); return f; } );
			FileInfo f( p ), g( p, true );
			if ( f.exists() != ( r.i != 0 ) || FileInfo::exists( p ) != ( r.i != 0 ) ) bad( "exists() is wrong" );
			if ( f.Filepath != p ) bad( "exists() changes the path" );
			if ( f.isDirectory() != S_ISDIR( r.p ) || f.isRegularFile() != S_ISREG( r.p ) || f.isLink() ) bad( "kind of " + p + " is wrong" );
			if ( g.isLink() != S_ISLNK( l.p ) || FileInfo::isLink( p ) != S_ISLNK( l.p ) || g.isDirectory() != S_ISDIR( l.p ) ) bad( "kind of the link record of " + p + " is wrong" );
			if ( FileSystem::isDirectory( p ) != ( S_ISDIR( r.p ) != 0 ) ) bad( "FileSystem::isDirectory is wrong for " + p );
			FileInfo c( f ), e; e = f;
			Rec fr = { f.ModificationTime, f.Size, f.OwnerId, f.GroupId, f.Permissions, f.Inode };
			cmp( c, fr, f.Filepath, "copy" ); cmp( e, fr, f.Filepath, "assignment" );
			if ( !( c == f ) || c != f || !( e == f ) || e != f || !c.sameInode( f ) ) bad( "a copy compares different" );
			for ( int k = 0; k < 7; k++ ) {
				FileInfo x( f );
				uint64_t bit = k == 2 || k == 3 || k == 4 ? 1ull << h.rnd( 32 ) : 1ull << h.rnd( 64 );
				switch ( k ) { case 0: x.ModificationTime ^= bit; break; case 1: x.Size ^= bit; break; case 2: x.OwnerId ^= bit; break; case 3: x.GroupId ^= bit; break;
					case 4: x.Permissions ^= bit; break; case 5: x.Inode ^= bit; break; case 6: x.Filepath += "x"; break; }
				bool eq = k == 6;
				if ( ( x == f ) != eq || ( f == x ) != eq || ( x != f ) == eq ) bad( "records differing in field " + num( k ) + " bit " + num( bit ) + " compare wrongly" );
				if ( x.sameInode( f ) != ( k != 5 ) ) bad( "sameInode is wrong" );
			}
			struct statfs sf;
			bool can = statfs( p.c_str(), &sf ) == 0;
			static const uint64_t M[] = { 0x6969, 0xFF534D42, 0x517B, 0x65735543, 0 };
			uint64_t mg = M[h.rnd( 5 )];
			dirtyStack( mg );
			bool rem = remote( p );
			if ( !can && rem ) bad( "a path that cannot be examined is classified as remote (stack filled with " + num( mg ) + ")" );
			std::string rl = "x";
			std::string lp = FileSystem::getLinkRealPath( p, rl );
			char* rp = realpath( ( p.size() && p.back() == '/' ? p.substr( 0, p.size() - 1 ) : p ).c_str(), 0 );
			std::string want = p != "/" && S_ISLNK( l.p ) && rp ? std::string( rp ) + ( rp[1] ? "/" : "" ) : "";
			free( rp );
			if ( lp != want ) bad( "link target of " + p + " is given as " + show( lp ) + ", expected " + show( want ) );
		}
		for ( int k = 0; k < 2; k++ ) {
			std::string q = k ? d : d.substr( 0, d.size() - 1 );
			cs = "listing " + q.substr( b.root.size() );
			FileInfoMap L = FileSystem::filesInfoFromPath( q );
			std::set<std::string> S;
			DIR* dp = opendir( d.c_str() );
			while ( dirent* e = readdir( dp ) ) { std::string n = e->d_name; if ( n != "." && n != ".." ) S.insert( n ); }
			closedir( dp );
			for ( auto& n : S ) { cs += " " + n; if ( !L.count( n ) ) bad( "entry " + n + " is missing from the listing" ); cmp( L[n], real( d + n, false ), d + n, "listing" ); }
			for ( auto& n : L ) if ( !S.count( n.first ) ) bad( "the listing has the unknown entry " + n.first );
			h.eval( cs );
		}
		if ( FileSystem::filesInfoFromPath( d + "missing" ).size() ) bad( "a missing directory has entries" );
	}
	return h.done();
}
