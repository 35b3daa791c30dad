// a scratch directory with deterministic modification times
#pragma once
#include "common.hpp"
#include <ftw.h>
struct Box {
	std::string root;
	long clock = 1000000000;
	Box() {
		char t[] = "/tmp/efsw-h-XXXXXX";
		char* p = mkdtemp( t );
		if ( !p ) { perror( "mkdtemp" ); _exit( 3 ); }
		char* r = realpath( p, 0 );
		root = std::string( r ) + "/";
		free( r );
	}
	static int rmone( const char* p, const struct stat*, int, struct FTW* ) { chmod( p, 0700 ); return ::remove( p ); }
	void wipe( const std::string& d ) {
		if ( d.compare( 0, root.size() - 1, root, 0, root.size() - 1 ) != 0 ) return;
		nftw( d.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS );
	}
	~Box() { wipe( root.substr( 0, root.size() - 1 ) ); }
	std::string at( const std::string& n ) { return root + n; }
	void settime( const std::string& p, long t ) {
		struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t; ts[0].tv_nsec = ts[1].tv_nsec = 0;
		utimensat( AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW );
	}
	static std::string parent( std::string p ) { if ( p.size() > 1 && p.back() == '/' ) p.pop_back(); return p.substr( 0, p.rfind( '/' ) + 1 ); }
	void bump( const std::string& p ) { settime( p, ++clock ); }
	// each operation moves the directory's modification time to a new second
	bool write( const std::string& p, const std::string& c ) {
		int fd = open( p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_NOFOLLOW | O_NONBLOCK, 0644 );
		if ( fd < 0 ) return false;
		if ( !c.empty() && ::write( fd, c.data(), c.size() ) ) {}
		close( fd );
		bump( p );
		bump( parent( p ) );
		return true;
	}
	bool mk( const std::string& p ) { bool r = mkdir( p.c_str(), 0755 ) == 0; if ( r ) { bump( p ); bump( parent( p ) ); } return r; }
	bool rm( const std::string& p ) {
		struct stat st;
		if ( lstat( p.c_str(), &st ) ) return false;
		if ( S_ISDIR( st.st_mode ) ) wipe( p ); else unlink( p.c_str() );
		bump( parent( p ) );
		return true;
	}
	bool mv( const std::string& a, const std::string& b ) {
		bool r = rename( a.c_str(), b.c_str() ) == 0;
		if ( r ) { bump( parent( a ) ); bump( parent( b ) ); }
		return r;
	}
	bool ln( const std::string& a, const std::string& b ) { bool r = link( a.c_str(), b.c_str() ) == 0; if ( r ) bump( parent( b ) ); return r; }
	bool sym( const std::string& t, const std::string& b ) { bool r = symlink( t.c_str(), b.c_str() ) == 0; if ( r ) bump( parent( b ) ); return r; }
	bool exists( const std::string& p ) { struct stat st; return lstat( p.c_str(), &st ) == 0; }
};
