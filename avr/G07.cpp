// device side of G07: synchronous two-wire write
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint8_t m_a, m_b, m_r, m_rate, m_ps; }

#define FN extern "C" __attribute__((noinline,used)) void
FN write()      { m_r = twi::sync::write( m_a, m_b ) ? 1 : 0; }
FN write_k()    { m_r = twi::sync::write( 0x78, 0xa5 ) ? 1 : 0; }
FN init()       { twi::sync::init( twi::control::rate{ m_rate }, twi::control::prescale::factor( m_ps ) ); }
FN init_rate()  { twi::sync::init( twi::control::rate{ m_rate } ); }
FN init_plain() { twi::sync::init(); }
// a display driver: initialise, then some bytes until one fails
FN burst()
{
    twi::sync::init( twi::control::rate{ m_rate }, twi::control::prescale::factor( m_ps ) );
    m_r = 0;
    for ( uint8_t i = 0; i < 3; ++i ) if ( twi::sync::write( m_a, m_b + i ) ) { m_r = i + 1; return; }
}
}

int main() { for (;;) ; }
