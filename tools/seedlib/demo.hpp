// small helpers for the demonstrations: a recording listener and a scratch directory
#pragma once
#include <efsw/efsw.hpp>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <mutex>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <ftw.h>
struct Ev { long id; std::string dir, name, old; int act; };
struct Rec : efsw::FileWatchListener {
	std::mutex m; std::vector<Ev> evs; int missed = 0;
	void handleFileAction( efsw::WatchID id, const std::string& d, const std::string& f, efsw::Action a, const std::string& o ) override {
		std::lock_guard<std::mutex> l( m ); evs.push_back( { (long)id, d, f, o, (int)a } );
	}
	void handleMissedFileActions( efsw::WatchID, const std::string& ) override { std::lock_guard<std::mutex> l( m ); missed++; }
	int count( const std::string& n, int act, const std::string& o = "*", long id = -99 ) {
		std::lock_guard<std::mutex> l( m ); int c = 0;
		for ( auto& e : evs ) if ( ( n == "*" || e.name == n ) && ( act == 0 || e.act == act ) && ( o == "*" || e.old == o ) && ( id == -99 || e.id == id ) ) c++;
		return c;
	}
	void clear() { std::lock_guard<std::mutex> l( m ); evs.clear(); }
};
inline void put( const std::string& p, const char* s = "x" ) { int f = open( p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 ); if ( f >= 0 ) { if ( write( f, s, strlen( s ) ) ) {} close( f ); } }
inline void nap( int ms ) { usleep( ms * 1000 ); }
// polls for up to ten seconds
#define WAIT( c ) do { for ( int i_ = 0; i_ < 500 && !( c ); i_++ ) nap( 20 ); } while ( 0 )
#define NEED( c ) do { if ( !( c ) ) { printf( "broken: %s\n", #c ); exit( 1 ); } } while ( 0 )
