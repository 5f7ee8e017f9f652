// device side of G05: values shared with interrupt handlers
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;

#define FN extern "C" __attribute__((noinline,used)) void

// the value written or read, and the shared variable
#define H( id, T, V ) extern "C" { T V s_##id; T p_##id; } \
    FN r_##id() { p_##id = atomic( s_##id ); } \
    FN w_##id() { atomic( s_##id, p_##id ); }
#include "avr/mcu_shared.hpp"
#undef H

// other type than the destination's
extern "C" { uint8_t p8; uint16_t p16; int16_t pi16; uint32_t p32; }
FN c_u16_u8()   { atomic( s_vu16, p8 ); }
FN c_u32_u16()  { atomic( s_vu32, p16 ); }
FN c_i32_i16()  { atomic( s_vi32, pi16 ); }
FN c_u16_u32()  { atomic( s_vu16, p32 ); }
FN c_f_i16()    { atomic( s_vf, pi16 ); }

// constants
FN k_u16()      { atomic( s_vu16, 0x1234 ); }
FN k_u32()      { atomic( s_vu32, 0x12345678 ); }

// two values that belong together
struct both { uint16_t a; uint8_t b; };
extern "C" { both s_pair, p_pair; volatile uint16_t m_x, m_y; uint16_t m_x1, m_y1; }
FN r_pair()     { p_pair = atomic( s_pair ); }
FN w_pair()     { atomic( s_pair, p_pair ); }
FN section()    { scoped_interrupt_guard _; m_x1 = m_x; m_y1 = m_y; }
FN section_w()  { scoped_interrupt_guard _; m_x = m_x1; m_y = m_y1; }

// a counter that a handler advances
extern "C" { volatile uint32_t m_count; uint32_t m_step, m_out[8]; }
extern "C" __attribute__((signal,used)) void __vector_16()
{
    atmega328::core::scoped_sreg _;
    m_count = m_count + m_step;
}
FN poll()       { for ( uint8_t i = 0; i < 8; ++i ) m_out[i] = atomic( m_count ); }

// status register
extern "C" { volatile uint8_t m_k; }
FN sreg_asm()   { atmega328::core::scoped_sreg _; asm volatile( "add r24, r24\n\tsec\n\tseh\n\tset" ::: "r24" ); }
FN sreg_cli()   { atmega328::core::scoped_sreg _; cli(); }
FN sreg_sei()   { atmega328::core::scoped_sreg _; sei(); }
FN sreg_none()  { atmega328::core::scoped_sreg _; }
FN sreg_count() { atmega328::core::scoped_sreg _; m_x = m_x + m_y; }
FN sreg_write() { atmega328::core::scoped_sreg _; atmega328::core::sreg::whole::write( m_k ); }
FN sreg_bits()  { atmega328::core::scoped_sreg _; atmega328::core::sreg::I::toggle(); atmega328::core::sreg::C::toggle(); }
FN sreg_nested(){ atmega328::core::scoped_sreg a; atmega328::core::sreg::whole::write( m_k ); { atmega328::core::scoped_sreg b; asm volatile( "clr r24\n\tclt\n\tset" ::: "r24" ); } m_k = SREG; }
FN sreg_guard() { atmega328::core::scoped_sreg a; scoped_interrupt_guard b; m_x = m_y; }
}

int main() { for (;;) ; }
