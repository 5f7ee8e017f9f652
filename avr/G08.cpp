// device side of G08: fields of user-defined registers, every position, width and access policy
#include "mcu/register.hpp"
#include <stdint.h>

using namespace mcu;

extern "C" { volatile uint16_t m_v[4], m_r; }

enum { RD = 1, WR = 2, SET = 4, CLR = 8, TOG = 16, TRG = 32 };

template< typename F, int caps, bool single > inline void field( uint8_t op )
{
    using V = typename F::value_type;
    if constexpr ( caps & RD ) if ( op == 0 ) m_r = F::read();
    if constexpr ( caps & WR ) if ( op == 1 ) F::write( (V) m_v[0] );
    if constexpr ( caps & WR ) if ( op == 2 ) F::write_lazy( (V) m_v[0] );
    if constexpr ( single && ( caps & SET ) ) if ( op == 3 ) F::set();
    if constexpr ( single && ( caps & CLR ) ) if ( op == 4 ) F::clear();
    if constexpr ( single && ( caps & TOG ) ) if ( op == 5 ) F::toggle();
    if constexpr ( single && ( caps & TRG ) ) if ( op == 6 ) F::trigger();
}

template< int... > struct seq {};
template< int N, int... I > struct make : make< N - 1, N - 1, I... > {};
template< int... I > struct make< 0, I... > { using type = seq< I... >; };

// all low bits of a high bit

template< typename T, template <typename> class io, int addr, int caps, int hi, int... lo >
__attribute__((noinline)) void row( uint8_t l, uint8_t op, seq<lo...> )
{
    ( ( l == lo ? field< bitfield_t< T, io, addr, hi, lo >, caps, hi == lo >( op ) : void() ), ... );
}

template< typename T, template <typename> class io, int addr, int caps, int... hi >
inline void all( uint8_t h, uint8_t l, uint8_t op, seq<hi...> )
{
    ( ( h == hi ? row< T, io, addr, caps, hi >( l, op, typename make< hi + 1 >::type{} ) : void() ), ... );
}

template< typename T, template <typename> class io, int addr, int caps, int... hi >
inline void bits_only( uint8_t h, uint8_t op, seq<hi...> )
{
    ( ( h == hi ? field< bitfield_t< T, io, addr, hi >, caps, true >( op ) : void() ), ... );
}

using eight   = make<8>::type;
using sixteen = make<16>::type;

#define FN extern "C" __attribute__((noinline,used)) void
FN set_rw_low ( uint8_t h, uint8_t l, uint8_t op ) { all< uint8_t, rw_t, 0x3e, RD | WR | SET | CLR | TOG >( h, l, op, eight() ); }
FN set_rw     ( uint8_t h, uint8_t l, uint8_t op ) { all< uint8_t, rw_t, 0x4a, RD | WR | SET | CLR | TOG >( h, l, op, eight() ); }
FN set_r      ( uint8_t h, uint8_t l, uint8_t op ) { all< uint8_t, r_t , 0x4b, RD >( h, l, op, eight() ); }
FN set_w      ( uint8_t h, uint8_t l, uint8_t op ) { all< uint8_t, w_t , 0xc6, WR | SET | CLR >( h, l, op, eight() ); }
FN set_rw16   ( uint8_t h, uint8_t l, uint8_t op ) { all< uint16_t, rw_t, 0x88, RD | WR >( h, l, op, sixteen() ); }
FN set_bits16 ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint16_t, rw_t, 0x8a, RD | WR | SET | CLR | TOG >( h, op, sixteen() ); }
FN set_rc_w0  ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint8_t, rc_w0_t, 0x6e, RD | CLR >( h, op, eight() ); }
FN set_rc_r   ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint8_t, rc_r_t , 0x6f, RD       >( h, op, eight() ); }
FN set_rs     ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint8_t, rs_t   , 0x70, RD | SET >( h, op, eight() ); }
FN set_rt_w   ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint8_t, rt_w   , 0x7a, RD | TRG >( h, op, eight() ); }
FN set_rs_low ( uint8_t h, uint8_t  , uint8_t op ) { bits_only< uint8_t, rs_t   , 0x33, RD | SET >( h, op, eight() ); }

// deferred writes to two fields of a 16-bit register

#define PAIR( n, a, b, c, d ) case n: bitfield16_t<rw_t,0x88,a,b>::write_lazy( m_v[0] ), bitfield16_t<rw_t,0x88,c,d>::write_lazy( m_v[1] ); break;
FN pair16( uint8_t n )
{
    switch ( n )
    {
    PAIR( 0, 3, 0, 7, 4 ) PAIR( 1, 15, 12, 3, 0 ) PAIR( 2, 15, 15, 0, 0 ) PAIR( 3, 7, 0, 15, 8 ) PAIR( 4, 11, 4, 15, 12 ) PAIR( 5, 9, 6, 5, 5 )
    }
}
#define TRIPLE( n, a, b, c, d, e, f ) case n: bitfield16_t<rw_t,0x88,a,b>::write_lazy( m_v[0] ), bitfield16_t<rw_t,0x88,c,d>::write_lazy( m_v[1] ), bitfield16_t<rw_t,0x88,e,f>::write_lazy( m_v[2] ); break;
FN triple16( uint8_t n )
{
    switch ( n )
    {
    TRIPLE( 0, 15, 8, 7, 4, 3, 0 ) TRIPLE( 1, 0, 0, 8, 8, 15, 9 ) TRIPLE( 2, 12, 5, 2, 1, 14, 14 )
    }
}

// whole registers by their aliases

FN whole8 ( uint8_t op ) { field< register8_t<rw_t,0x4a>, RD | WR, false >( op ); }
FN whole16( uint8_t op ) { field< register16_t<rw_t,0x8a>, RD | WR, false >( op ); }
FN wholeT ( uint8_t op ) { if ( op < 3 ) field< mcu::register_t<uint16_t,rw_t,0x86>, RD | WR, false >( op ); else field< mcu::register_t<uint8_t,rw_t,0x4b>, RD | WR, false >( op - 3 ); }

int main() { for (;;) ; }
