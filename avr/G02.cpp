// device side of G02: deferred writes, alone and combined
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint8_t m_v[8]; }

#define F( id, type, addr, hi, lo, kind ) using fld_##id = type;
#include "avr/mcu_fields.hpp"
#undef F

template< int... > struct seq {};
template< int N, int... I > struct make : make< N - 1, N - 1, I... > {};
template< int... I > struct make< 0, I... > { using type = seq< I... >; };

template< typename... F > struct types { static constexpr int size = sizeof...( F ); };
template< int I, typename L > struct at;
template< typename F, typename... R > struct at< 0, types<F,R...> > { using type = F; };
template< int I, typename F, typename... R > struct at< I, types<F,R...> > : at< I - 1, types<R...> > {};

inline void mark( uint8_t v ) { *(uint8_t volatile *) 0x4b = v; }            // GPIOR2

template< typename L, int i > inline auto lazy() { return at<i,L>::type::write_lazy( m_v[i] ); }

template< typename L, int op > inline void pair_()
{
    constexpr int N = L::size, i = op / N, j = op % N;
    if constexpr ( i != j ) { lazy<L,i>(), lazy<L,j>(); }
}
template< typename L, int op > inline void triple()
{
    constexpr int N = L::size, i = op / N / N, j = op / N % N, k = op % N;
    if constexpr ( i != j && j != k && i != k ) { lazy<L,i>(), lazy<L,j>(), lazy<L,k>(); }
}
// right-associated
template< typename L, int op > inline void grouped()
{
    constexpr int N = L::size, i = op / N, j = op % N, k = ( j + 1 ) % N;
    if constexpr ( i != j && j != k && i != k ) { lazy<L,i>(), ( lazy<L,j>(), lazy<L,k>() ); }
}
template< typename L, int i > inline void single( uint8_t how )
{
    switch ( how )
    {
    case 0: lazy<L,i>(); break;
    case 1: at<i,L>::type::write( m_v[i] ); break;
    case 2: { auto p = lazy<L,i>(); mark( 1 ); } mark( 2 ); break;
    case 3: { auto p = lazy<L,i>(); mark( 1 ); p.discard(); } mark( 2 ); break;
    case 4: { auto p = ( lazy<L,i>(), lazy<L,( i + 1 ) % L::size>() ); mark( 1 ); } mark( 2 ); break;
    case 5: { auto p = ( lazy<L,i>(), lazy<L,( i + 1 ) % L::size>() ); mark( 1 ); p.discard(); } mark( 2 ); break;
    case 6: at<i,L>::type::write_lazy( 1 ); break;
    case 7: at<i,L>::type::write_lazy( 0 ); break;
    }
}
template< typename L, int... I > inline void all( uint8_t kind, uint8_t op, uint8_t how, seq<I...> )
{
    constexpr int N = L::size;
    if ( kind == 0 ) ( ( op == I ? single<L,I>( how ) : void() ), ... );
    else if ( kind == 4 ) ( lazy<L,I>(), ... );
    else if ( kind == 5 ) ( lazy<L,N - 1 - I>(), ... );
}
template< typename L, int... I > inline void pairs( uint8_t op, seq<I...> ) { ( ( op == I ? pair_<L,I>() : void() ), ... ); }
template< typename L, int... I > inline void groups( uint8_t op, seq<I...> ) { ( ( op == I ? grouped<L,I>() : void() ), ... ); }
template< typename L, int... I > inline void triples( uint8_t op, seq<I...> ) { ( ( op == I ? triple<L,I>() : void() ), ... ); }

template< typename L > inline void run( uint8_t kind, uint8_t op, uint8_t how )
{
    constexpr int N = L::size;
    if ( kind == 1 ) pairs<L>( op, typename make<N * N>::type{} );
    else if ( kind == 2 ) { if constexpr ( N >= 3 && N <= 4 ) triples<L>( op, typename make<N * N * N>::type{} ); }
    else if ( kind == 3 ) { if constexpr ( N >= 3 ) groups<L>( op, typename make<N * N>::type{} ); }
    else all<L>( kind, op, how, typename make<N>::type{} );
}

#define X( n ) fld_##n
#define R( id, ... ) extern "C" __attribute__((noinline,used)) void g_##id( uint8_t kind, uint8_t op, uint8_t how ) { run< types< __VA_ARGS__ > >( kind, op, how ); }
#include "avr/mcu_groups.hpp"
}

int main() { for (;;) ; }
