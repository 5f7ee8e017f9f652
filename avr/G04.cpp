// device side of G04: interrupt flags
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint16_t m_r; }

#define FN extern "C" __attribute__((noinline,used)) void
#define G( id, r, c, addr, bit ) FN r_##id() { m_r = (uint16_t) r; } FN x_##id() { c; } \
    FN e_##id() { m_r = 0; if ( r ) { c; m_r = 1; } }
#include "avr/mcu_flags.hpp"

// several flags of one register in sequence
FN x_timer0() { clear( tc0::interrupt::compare::flag::a{} ); clear( tc0::interrupt::overflow::flag{} ); }
FN x_timer1() { clear( tc1::interrupt::compare::flag::b{} ); clear( tc1::interrupt::capture::flag{} ); }
}

int main() { for (;;) ; }
