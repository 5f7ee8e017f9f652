// device side of G01: one access to one register field per call
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint16_t m_v, m_r; volatile uint8_t m_i, m_j, m_k; }

struct K_W {}; struct K_R {}; struct K_E {}; struct K_C {}; struct K_I {}; using K_T = K_W; using K_A = K_R;

template< typename F > inline void access( K_R, uint8_t ) { m_r = F::read(); }
template< typename F > inline void access( K_C, uint8_t ) { m_r = F::read(); }
template< typename F > inline void access( K_I, uint8_t ) { m_r = F::read(); }
template< typename F > inline void access( K_E, uint8_t op ) { if ( op == 0 ) m_r = (uint16_t) F::read(); else F::write( (typename F::value_type) m_v ); }
template< typename F > inline void access( K_W, uint8_t op )
{
    switch ( op )
    {
    case 0: m_r = F::read(); break;
    case 1: F::write( m_v ); break;
    case 2: F::write_lazy( m_v ); break;
    }
}
template< typename F > inline void bit( K_R, uint8_t ) {}
template< typename F > inline void bit( K_C, uint8_t ) {}
template< typename F > inline void bit( K_I, uint8_t ) {}
template< typename F > inline void bit( K_E, uint8_t ) {}
template< typename F > inline void bit( K_W, uint8_t op )
{
    switch ( op )
    {
    case 3: F::set(); break;
    case 4: F::clear(); break;
    case 5: F::toggle(); break;
    }
}
#define F( id, type, addr, hi, lo, kind ) \
    extern "C" __attribute__((noinline,used)) void f_##id( uint8_t op ) { using Field = type; if ( op < 3 ) access<Field>( K_##kind{}, op ); else if constexpr ( hi == lo ) bit<Field>( K_##kind{}, op ); }
#include "avr/mcu_fields.hpp"
#undef F

extern "C" {
#define A( id, name, addr ) (uint16_t) name,
volatile uint16_t m_addr[] = {
#include "avr/mcu_addresses.hpp"
};
#undef A

#define SBIT( X, x ) \
    __attribute__((noinline,used)) uint8_t sreg_##x##_read() { return core::sreg::X::read(); } \
    __attribute__((noinline,used)) void sreg_##x##_write( uint8_t v ) { core::sreg::X::write( v ); } \
    __attribute__((noinline,used)) void sreg_##x##_set() { core::sreg::X::set(); } \
    __attribute__((noinline,used)) void sreg_##x##_clear() { core::sreg::X::clear(); } \
    __attribute__((noinline,used)) void sreg_##x##_toggle() { core::sreg::X::toggle(); }
SBIT( I, 7 ) SBIT( T, 6 ) SBIT( H, 5 ) SBIT( S, 4 ) SBIT( V, 3 ) SBIT( N, 2 ) SBIT( Z, 1 ) SBIT( C, 0 )
__attribute__((noinline,used)) uint8_t sreg_read() { return core::sreg::whole::read(); }
__attribute__((noinline,used)) void sreg_write( uint8_t v ) { core::sreg::whole::write( v ); }
__attribute__((noinline,used)) uint16_t sp_read() { return core::sp::whole::read(); }
__attribute__((noinline,used)) uint8_t spl_read() { return core::sp::lo::read(); }
__attribute__((noinline,used)) uint8_t sph_read() { return core::sp::hi::read(); }

#define GP( n ) \
    __attribute__((noinline,used)) uint8_t r##n##_read() { return core::gpwr::r##n::read(); } \
    __attribute__((noinline,used)) void r##n##_write( uint8_t v ) { core::gpwr::r##n::write( v ); }
GP( 2 ) GP( 3 ) GP( 4 ) GP( 5 ) GP( 6 ) GP( 7 ) GP( 8 ) GP( 9 ) GP( 10 ) GP( 11 ) GP( 12 ) GP( 13 ) GP( 14 ) GP( 15 ) GP( 16 ) GP( 17 )
__attribute__((noinline,used)) uint16_t y_read() { return core::gpwr::y::read(); }
__attribute__((noinline,used)) void y_write( uint16_t v ) { core::gpwr::y::write( v ); }

// masks and shifts
__attribute__((noinline,used)) void masks( uint8_t op )
{
    uint8_t i = m_i, j = m_j, k = m_k;
    switch ( op )
    {
    case 0: m_r = bitmask<uint8_t>( i ); break;
    case 1: m_r = bitmask<uint8_t>( i, j ); break;
    case 2: m_r = bitmask<uint8_t>( i, j, k ); break;
    case 3: m_r = bitmask_n<uint8_t>( i, j ); break;
    case 4: m_r = rngmask<uint8_t>( i, j ); break;
    case 5: m_r = rngmask_n<uint8_t>( i, j ); break;
    case 6: m_r = shl<uint8_t>( m_v, i ); break;
    case 7: m_r = shr<uint8_t>( m_v, i ); break;
    case 8: m_r = bitmask<uint16_t>( i, j ); break;
    case 9: m_r = bitmask_n<uint16_t>( i, j, k ); break;
    case 10: m_r = rngmask<uint16_t>( i, j ); break;
    case 11: m_r = rngmask_n<uint16_t>( i, j ); break;
    case 12: m_r = shl<uint16_t>( m_v, i ); break;
    case 13: m_r = shr<uint16_t>( m_v, i ); break;
    case 14: m_r = bits<uint8_t>() + 256 * bits<uint16_t>(); break;
    }
}
}
}

int main() { for (;;) ; }
