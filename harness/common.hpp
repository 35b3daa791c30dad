#pragma once
#include "pre.hpp"
#include <chrono>
// A harness explores cases and stops at the first one that breaks the property.
struct Harness {
	const char* prop;
	uint64_t seed;
	double budget;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
	uint64_t evals = 0;
	std::set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::mt19937_64 rng;
	Harness( const char* p ) : prop( p ) {
		const char* s = getenv( "VERIF_SEED" );
		seed = s ? strtoull( s, 0, 10 ) : 1;
		const char* b = getenv( "HARNESS_BUDGET" );
		budget = b ? atof( b ) : 10;
		rng.seed( seed );
	}
	uint64_t rounds = 0;
	// HARNESS_CAP bounds the number of scenarios, so that a quick run explores the same ones everywhere
	bool time_left() {
		static const char* cap = getenv( "HARNESS_CAP" );
		if ( cap && rounds >= strtoull( cap, 0, 10 ) ) return false;
		rounds++;
		return std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count() < budget;
	}
	uint64_t rnd( uint64_t n ) { return n ? rng() % n : 0; }
	void eval( const std::string& c, bool nontrivial = true ) {
		evals++;
		if ( nontrivial ) {
			distinct.insert( std::hash<std::string>()( c ) );
			if ( samples.size() < 3 || ( samples.size() < 6 && rnd( 1000 ) == 0 ) )
				samples.push_back( c.substr( 0, 300 ) );
		}
	}
	[[noreturn]] void fail( const std::string& what, const std::string& input ) {
		printf( "FAIL property=%s\nwhat: %s\ninput: %s\n", prop, what.c_str(), input.c_str() );
		fflush( stdout );
		_exit( 1 );
	}
	int done() {
		for ( auto& s : samples ) printf( "SAMPLE %s\n", s.c_str() );
		printf( "ROUNDS %llu\n", (unsigned long long)rounds );
		printf( "EVALS %llu DISTINCT %llu\n", (unsigned long long)evals, (unsigned long long)distinct.size() );
		fflush( stdout );
		_exit( 0 );
	}
};
inline std::string show( const std::string& s ) {
	std::string o = "\"";
	char b[8];
	for ( unsigned char c : s )
		if ( c < 32 || c > 126 || c == '"' || c == '\\' ) { snprintf( b, 8, "\\x%02x", c ); o += b; } else o += (char)c;
	return o + "\"";
}
inline std::string num( long long v ) { return std::to_string( v ); }
