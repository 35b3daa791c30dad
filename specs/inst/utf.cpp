// instantiates the conversion templates of Utf.hpp on plain element sequences
#include <efsw/Utf.hpp>
#include <vector>
#include <iterator>
using namespace efsw;
typedef std::vector<char> B;
typedef std::vector<Uint16> H;
typedef std::vector<Uint32> U;
typedef std::back_insert_iterator<B> OB;
typedef std::back_insert_iterator<H> OH;
typedef std::back_insert_iterator<U> OU;
#define IN( N, S ) \
	template S::const_iterator Utf<N>::Decode( S::const_iterator, S::const_iterator, Uint32&, Uint32 ); \
	template S::const_iterator Utf<N>::Next( S::const_iterator, S::const_iterator ); \
	template std::size_t Utf<N>::Count( S::const_iterator, S::const_iterator ); \
	template OB Utf<N>::toUtf8( S::const_iterator, S::const_iterator, OB ); \
	template OH Utf<N>::ToUtf16( S::const_iterator, S::const_iterator, OH ); \
	template OU Utf<N>::ToUtf32( S::const_iterator, S::const_iterator, OU );
namespace efsw {
IN( 8, B )
IN( 16, H )
IN( 32, U )
template OB Utf<8>::Encode( Uint32, OB, Uint8 );
template OH Utf<16>::Encode( Uint32, OH, Uint16 );
template OU Utf<32>::Encode( Uint32, OU, Uint32 );
}
