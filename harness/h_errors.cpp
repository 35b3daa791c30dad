#include "common.hpp"
#include <efsw/efsw.hpp>
#include <efsw/efsw.h>
using namespace efsw;
namespace efsw { namespace Errors { class Log; } }
int main() {
	Harness h( "C10" );
	Error codes[] = { Errors::FileNotFound, Errors::FileRepeated, Errors::FileOutOfScope, Errors::FileNotReadable,
					  Errors::FileRemote, Errors::WatcherFailed, Errors::Unspecified };
	auto check_reset = [&]( const std::string& hist ) {
		if ( Errors::Log::getLastErrorCode() != Errors::NoError )
			h.fail( "the last error code after a reset is not NoError", hist );
		if ( !Errors::Log::getLastErrorLog().empty() || efsw_getlasterror()[0] )
			h.fail( "the last error text after a reset is not empty", hist );
	};
	check_reset( "nothing recorded yet" );
	std::string details[] = { "", "x", "/some/dir/", "a b ( c )", "\xc3\xa9t\xc3\xa9", std::string( 5000, 'q' ) };
	std::string hist;
	for ( int i = 0; i < 20000 && h.time_left(); i++ ) {
		int op = i < 60 ? i % 8 : h.rnd( 9 );
		if ( op >= 7 ) {
			if ( op == 7 ) Errors::Log::clearLastError(); else efsw_clearlasterror();
			hist += " reset";
			check_reset( hist );
		} else {
			std::string d = details[i < 60 ? ( i / 8 ) % 6 : h.rnd( 6 )];
			hist += " record(" + num( codes[op] ) + "," + show( d.substr( 0, 12 ) ) + ")";
			Error r = Errors::Log::createLastError( codes[op], d );
			if ( r != codes[op] ) h.fail( "recording an error did not return it", hist );
			if ( Errors::Log::getLastErrorCode() != codes[op] ) h.fail( "the last error code is " + num( Errors::Log::getLastErrorCode() ) + " after recording " + num( codes[op] ), hist );
			std::string t = Errors::Log::getLastErrorLog();
			if ( t.find( d ) == std::string::npos ) h.fail( "the last error text does not contain the details", hist );
			if ( t != efsw_getlasterror() ) h.fail( "the C error text differs from the C++ one", hist );
		}
		h.eval( hist.substr( hist.size() > 60 ? hist.size() - 60 : 0 ) );
		if ( hist.size() > 400 ) hist = hist.substr( hist.size() - 200 );
	}
	return h.done();
}
