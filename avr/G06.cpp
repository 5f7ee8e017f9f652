// device side of G06: LEDs on all pins, PWM on timer 1
#include "mcu/atmega328.hpp"
#include <stdint.h>

namespace device
{
using namespace mcu;
using namespace mcu::atmega328;

extern "C" { volatile uint16_t m_v; volatile uint8_t m_r; }

#define FN extern "C" __attribute__((noinline,used)) void

template< port P, uint8_t pin > inline void led_op( uint8_t op )
{
    using L = led<P,pin>;
    switch ( op )
    {
    case 0: L::on(); break;
    case 1: L::off(); break;
    case 2: L::toggle(); break;
    case 3: L::enable(); break;
    }
}
template< port P, uint8_t pin > inline void pin_op( uint8_t op )
{
    using G = typename gpio<P>::template p<pin>;
    switch ( op )
    {
    case 0: G::out::set(); break;
    case 1: G::out::clear(); break;
    case 2: G::out::toggle(); break;
    case 3: G::dir::set(); break;
    case 4: G::dir::clear(); break;
    case 5: m_r = G::inp::read(); break;
    case 6: m_r = G::out::read(); break;
    case 7: m_r = G::dir::read(); break;
    case 8: G::out::write( m_v ); break;
    case 9: G::dir::write( m_v ); break;
    }
}
#define P( p, n ) FN led_##p##n( uint8_t op ) { led_op<port::p,n>( op ); } FN pin_##p##n( uint8_t op ) { pin_op<port::p,n>( op ); }
P( B, 0 ) P( B, 1 ) P( B, 2 ) P( B, 3 ) P( B, 4 ) P( B, 5 ) P( B, 6 ) P( B, 7 )
P( C, 0 ) P( C, 1 ) P( C, 2 ) P( C, 3 ) P( C, 4 ) P( C, 5 ) P( C, 6 )
P( D, 0 ) P( D, 1 ) P( D, 2 ) P( D, 3 ) P( D, 4 ) P( D, 5 ) P( D, 6 ) P( D, 7 )

// two LEDs of one port, as in a traffic light
FN both_on()    { led<port::B,5>::on();  led<port::B,3>::off(); }
FN both_off()   { led<port::B,5>::off(); led<port::B,3>::toggle(); }

FN pwm_init()   { tc1_pwm_on_a_pb1::init(); }
FN pwm_write()  { tc1_pwm_on_a_pb1::write( m_v ); }
FN pwm_const()  { tc1_pwm_on_a_pb1::write( tc1_pwm_on_a_pb1::value_max ); }
}

int main() { for (;;) ; }
