// G06: LEDs, pins and the PWM output act on their own pin or timer only.
// plain
// device: G06_O1 avr/G06.cpp -O1
// device: G06_O2 avr/G06.cpp -O2
// device: G06_Os avr/G06.cpp -Os
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( int k )
{
    static std::map<int,Device *> d;
    auto & p = d[k];
    if ( !p ) p = new Device( k == 0 ? "G06_O2" : k == 1 ? "G06_Os" : "G06_O1" );
    return *p;
}

// PIN, DDR, PORT of port B; the other ports follow
int pin_of( int p ) { return 0x23 + 3 * p; }

void history( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 127 ) | 0x80;
    auto plain = d.cpu.on_write;
    // writing one to a PIN register toggles the output
    d.cpu.on_write = [&]( std::uint16_t a, std::uint8_t v, int bit )
    {
        if ( a != 0x23 && a != 0x26 && a != 0x29 ) { plain( a, v, bit ); return; }
        io.trace.push_back( { a, true, v, d.cpu.data[a], bit } );
        d.cpu.data[a + 2] ^= bit >= 0 ? v & 1u << bit : v;
    };
    int n = 0, changes = 0; bool led = false, pwm = false, toggle = false, pin = false, init = false, intr = false, wide = false;
    do
    {
        int kind = g.irange( 0, 9 );
        Snapshot before( d.cpu ); io.trace.clear();
        std::map<int,unsigned> may;                                     // bits that may be touched
        Snapshot want = before; std::string what;
        d.put<std::uint8_t>( "m_r", 0xee ); int expect = -1;
        unsigned v = 0;
        auto put = [&]( int a, unsigned m, unsigned x ) { may[a] |= m; want.v[a] = ( want.v[a] & ~m ) | ( x & m ); };
        int fired = 0;
        if ( kind <= 5 )
        {
            int p = g.irange( 0, 2 ), b = g.irange( 0, p == 1 ? 6 : 7 ); unsigned m = 1u << b; int base = pin_of( p );
            bool l = kind <= 2; int op = g.irange( 0, l ? 3 : 9 );
            static char const * const names[] = { "on", "off", "toggle", "enable as output", "make input", "read pin", "read output", "read direction", "write output", "write direction" };
            v = g.coin(); if ( op >= 8 && g.chance( 1, 6 ) ) v = g.irange( 2, 255 );
            what = std::string( l ? "LED " : "pin " ) + "BCD"[p] + char( '0' + b ) + " " + names[op];
            d.put<std::uint16_t>( "m_v", v );
            PBT_LOG( c, d.name << ": " << what << " " << v << "; " );
            switch ( op )
            {
            case 0: put( base + 2, m, m ); break;
            case 1: put( base + 2, m, 0 ); break;
            case 2: put( base + 2, m, ~before.v[base + 2] ); toggle = true; break;
            case 3: put( base + 1, m, m ); break;
            case 4: put( base + 1, m, 0 ); break;
            case 5: expect = before.v[base] >> b & 1; break;
            case 6: expect = before.v[base + 2] >> b & 1; break;
            case 7: expect = before.v[base + 1] >> b & 1; break;
            case 8: put( base + 2, m, v ? m : 0 ); break;
            case 9: put( base + 1, m, v ? m : 0 ); break;
            }
            d.call( c, std::string( l ? "led_" : "pin_" ) + "BCD"[p] + char( '0' + b ), { { (std::uint64_t) op, 1 } } );
            ( l ? led : pin ) = true;
            if ( expect >= 0 )
            {
                int r = d.get<std::uint8_t>( "m_r" );
                PBT_CHECK( c, ( r != 0 ) == ( expect != 0 ), what << " gives " << r << ", want " << expect );
                for ( auto & t : io.trace ) PBT_CHECK( c, !t.write, what << " writes:" << io.show() );
            }
        }
        else if ( kind == 6 )
        {
            bool on = g.coin(); what = on ? "two LEDs on and off" : "two LEDs off and toggle";
            PBT_LOG( c, d.name << ": " << what << "; " );
            put( 0x25, 0x20, on ? 0x20 : 0 ); put( 0x25, 0x08, on ? 0 : ~before.v[0x25] );
            d.call( c, on ? "both_on" : "both_off" ); led = true;
        }
        else if ( kind == 7 )
        {
            what = "PWM init"; PBT_LOG( c, d.name << ": " << what << "; " );
            put( 0x24, 0x02, 0x02 );            // DDRB1
            put( 0x80, 0xc0, 0x80 );            // COM1A: clear on match
            put( 0x80, 0x03, 0x03 );            // WGM 7: fast PWM, 10 bit
            put( 0x81, 0x18, 0x08 );
            put( 0x81, 0x07, 0x01 );            // clock, no prescaling
            d.call( c, "pwm_init" ); pwm = init = true;
        }
        else
        {
            bool k = kind == 9 && g.chance( 1, 4 );
            v = k ? 1023 : g.coin() ? g.irange( 3, 1023 ) : g.draw( 1023 );
            what = "PWM write " + std::to_string( v );
            d.put<std::uint16_t>( "m_v", v );
            // a handler that uses another 16-bit register of the timer, before an instruction where it can
            int at = g.coin() ? g.irange( 0, 31 ) : g.coin() ? -1 : 1000, seen = 0; unsigned t = g.draw( 255 );
            PBT_LOG( c, d.name << ": " << what << ", interrupt at " << at << "; " );
            if ( at < 1000 ) d.cpu.on_step = [&]( avr::Cpu & p ) { if ( !p.flag( avr::Cpu::I ) || p.delay_irq ) return; if ( at < 0 || seen == at ) { io.temp = t; ++fired; } ++seen; };
            put( 0x88, 0xff, v ); put( 0x89, 0xff, v >> 8 );
            d.call( c, k ? "pwm_const" : "pwm_write" ); d.cpu.on_step = nullptr;
            PBT_CHECK( c, d.cpu.flag( avr::Cpu::I ), "interrupts are off after " << what );
            pwm = true; intr |= fired > 0; wide |= v > 255;
        }
        for ( auto & t : io.trace )
        {
            if ( !t.write ) continue;
            bool toggles = t.addr == 0x23 || t.addr == 0x26 || t.addr == 0x29;
            int a = toggles ? t.addr + 2 : t.addr;
            if ( a == 0x88 || a == 0x89 ) continue;
            unsigned m = may.count( a ) ? may[a] : 0, x = toggles ? ( t.bit >= 0 ? t.value & 1u << t.bit : t.value ) : t.value ^ t.before;
            PBT_CHECK( c, ( x & ~m & 0xff ) == 0, what << " writes " << hex( t.value ) << " to " << hex( t.addr ) << ", affecting bits other than " << hex( m ) << ":" << io.show() );
        }
        int a = want.differs( d.cpu );
        PBT_CHECK( c, !a, what << " leaves " << hex( d.cpu.data[a] ) << " at " << hex( a ) << ", want " << hex( want.v[a] ) << " (was " << hex( before.v[a] ) << "):" << io.show() );
        changes += before.differs( d.cpu ) != 0;
    } while ( g.more( 4, ++n, 20 ) );
    c.nontriv( changes >= 2 );
    c.cls( "LED", led ); c.cls( "pin", pin ); c.cls( "PWM", pwm ); c.cls( "toggle", toggle ); c.cls( "PWM init", init ); c.cls( "interrupt during a PWM write", intr ); c.cls( "PWM value beyond a byte", wide );
}

Suite pbt::suite()
{
    return { "G06",
        "histories of LED and pin operations on all 23 pins and of PWM initialisation and writes, from random registers, with an interrupt handler that uses the shared byte of timer 1 during PWM writes; AVR object code (-O1, -O2, -Os) in the simulator, whose PIN registers toggle outputs; all I/O contents and the bits touched by each write. Non-trivial: at least two operations change the device.",
        { { "history", 1, history } },
        200000, 25000000, { "LED", "pin", "PWM", "toggle", "PWM init", "interrupt during a PWM write", "PWM value beyond a byte" } };
}
