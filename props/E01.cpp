// E01: the example applications do what they describe, whenever their interrupts happen.
// plain
// device: E01_dac_O1 repo:example/avr/avr-adc-dac-isr-atmega.e.cpp -O1
// device: E01_dac_O2 repo:example/avr/avr-adc-dac-isr-atmega.e.cpp -O2
// device: E01_dac_Os repo:example/avr/avr-adc-dac-isr-atmega.e.cpp -Os
// device: E01_adc_O2 repo:example/avr/avr-adc-isr.e.cpp -O2
// device: E01_adc_Os repo:example/avr/avr-adc-isr.e.cpp -Os
// device: E01_bli_O2 repo:example/avr/avr-blink-led-isr.e.cpp -O2
// device: E01_bli_Os repo:example/avr/avr-blink-led-isr.e.cpp -Os
// device: E01_fade_O2 repo:example/avr/avr-fade-led.e.cpp -O2
// device: E01_fade_Os repo:example/avr/avr-fade-led.e.cpp -Os
// device: E01_pol_O2 repo:example/avr/avr-blink-led.e.cpp -O2
// device: E01_pol_Os repo:example/avr/avr-blink-led.e.cpp -Os
// fuzz: quick=800 thorough=20000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( std::string const & n )
{
    static std::map<std::string,Device *> d;
    auto & p = d[n];
    if ( !p ) p = new Device( n );
    return *p;
}

enum { PINB = 0x23, DDRB, PORTB, PIND = 0x29, TCCR0A = 0x44, TCCR0B, OCR0A = 0x47, TIMSK0 = 0x6e, ADCL = 0x78, ADCH, ADCSRA, ADCSRB, ADMUX, TCCR1A = 0x80, TCCR1B, OCR1AL = 0x88, OCR1AH, OCR1BL, OCR1BH };
enum { LED = 0x20 };

// a running program with timer 0 and the ADC
struct Machine
{
    Device & d; Io io; avr::Cpu & cpu;
    std::uint32_t v_tick = 0, v_adc = 0;
    bool in_isr = false, isr_adc = false;
    bool want_tick = false, want_adc = false;
    long main_steps = 0, ticks = 0;
    std::vector<int> values;                    // delivered conversion results
    long served = -1, serving = -1;             // index of a result at least as old as what the handler stored
    struct Ev { long tick; int what; int v; };  // 'L': LED level, 'A', 'B', '0': compare value
    std::vector<Ev> ev;
    std::function<void()> stray;

    explicit Machine( Device & dev ) : d( dev ), io( dev.cpu ), cpu( dev.cpu )
    {
        auto plain = cpu.on_write;
        cpu.on_write = [this,plain]( std::uint16_t a, std::uint8_t v, int bit )
        {
            std::uint8_t led = cpu.data[PORTB] & LED;
            if ( a == 0x23 || a == 0x26 || a == 0x29 ) cpu.data[a + 2] ^= bit >= 0 ? v & 1u << bit : v;
            else plain( a, v, bit );
            if ( ( cpu.data[PORTB] & LED ) != led ) ev.push_back( { ticks, 'L', !led } );
            if ( a == OCR1AL ) ev.push_back( { ticks, 'A', cpu.data[OCR1AL] | cpu.data[OCR1AH] << 8 } );
            if ( a == OCR1BL ) ev.push_back( { ticks, 'B', cpu.data[OCR1BL] | cpu.data[OCR1BH] << 8 } );
            if ( a == OCR0A ) ev.push_back( { ticks, '0', v } );
            if ( io.trace.size() > 64 ) io.trace.clear();
        };
        auto read = cpu.on_read;
        cpu.on_read = [this,read]( std::uint16_t a ) { std::uint8_t v = read( a ); if ( io.trace.size() > 64 ) io.trace.clear(); return v; };
        v_tick = d.image.has( "__vector_14" ) ? d.image.at( "__vector_14" ) : 0;
        v_adc = d.image.has( "__vector_21" ) ? d.image.at( "__vector_21" ) : 0;
        cpu.limit = 100000000;
        cpu.start( d.image.at( "main" ) );
    }
    bool ticking() const { return cpu.data[TIMSK0] & 2 && cpu.data[TCCR0B] & 7; }
    bool converting() const { return ( cpu.data[ADCSRA] & 0xe8 ) == 0xe8; }
    // a result that arrives after low and before high byte are read is lost (datasheet 28.2): no example leaves the result locked
    void deliver( int v ) { want_adc = true; values.push_back( v ); if ( io.adc_lock >= 0 ) return; cpu.data[ADCL] = v & 255; cpu.data[ADCH] = v >> 8; }
    // one instruction, or the start of an interrupt
    void step( bool adc_first )
    {
        if ( !in_isr && cpu.flag( avr::Cpu::I ) && !cpu.delay_irq )
        {
            bool a = want_adc && converting() && v_adc, t = want_tick && ticking() && v_tick;
            if ( a && ( adc_first || !t ) ) { if ( cpu.interrupt( v_adc ) ) { want_adc = false; in_isr = isr_adc = true; serving = (long) values.size() - 1; return; } }
            else if ( t ) { if ( cpu.interrupt( v_tick ) ) { want_tick = false; in_isr = true; isr_adc = false; ++ticks; return; } }
        }
        cpu.step();
        if ( in_isr ) { if ( cpu.flag( avr::Cpu::I ) ) { in_isr = false; if ( isr_adc ) served = serving; } }
        else ++main_steps;
    }
    bool led() const { return cpu.data[PORTB] & LED; }
    // what the stored result can be now
    std::set<int> can( long from ) const { std::set<int> s; if ( from < 0 ) s.insert( 0 ); for ( long i = std::max( from, 0l ); i < (long) values.size(); ++i ) s.insert( values[i] ); return s; }
};

template< typename F > void guarded( Case & c, Machine & m, F f )
{
    try { f(); }
    catch ( avr::Fault const & e ) { c.fail( m.d.name + ": " + e.what() ); }
}

// a source of conversion results
struct Source
{
    Gen & g; int how, a, b, k = 0;
    explicit Source( Gen & g_ ) : g( g_ )
    {
        how = g.irange( 0, 4 );
        static int const pairs[][2] = { { 0x1ff, 0x200 }, { 0x0ff, 0x100 }, { 0x2ff, 0x300 }, { 0x000, 0x3ff }, { 511, 512 }, { 0x1fe, 0x1ff } };
        a = g.irange( 0, 1023 ); b = g.irange( 0, 1023 );
        if ( how == 1 ) { auto & p = pairs[g.irange( 0, 5 )]; a = p[0]; b = p[1]; }
    }
    int next() { ++k; return how == 0 ? a : how <= 2 ? ( k & 1 ? a : b ) : how == 3 ? ( a + k ) & 1023 : ( a * ( k * 7919 + 1 ) + b ) & 1023; }
};

std::string shown( std::set<int> const & s ) { std::string r; int n = 0; for ( int v : s ) { if ( n++ == 6 ) { r += " ..."; break; } r += ( n > 1 ? " " : "" ) + std::to_string( v ); } return r; }

// ADC to DAC: LED blinks at start, shows the upper half each 100 ms, the DAC follows each second
void adc_dac( Gen & g, Case & c )
{
    int opt = g.irange( 0, 2 );
    Device & d = device( opt == 0 ? "E01_dac_O2" : opt == 1 ? "E01_dac_Os" : "E01_dac_O1" );
    d.reset();
    Machine m( d );
    Source src( g );
    int between = g.irange( 1, 30 ), per = g.irange( 1, 60 ); bool first = g.coin(), shots = g.coin();
    long last = 100 * g.irange( 7, 35 );
    std::uint64_t rnd = g.draw( 0xffffffffu ) * 2 + 1;
    PBT_LOG( c, d.name << ": " << last << " ticks, " << between << " instructions apart, a conversion each " << per << " of them, source " << src.how << " " << src.a << " " << src.b << "; " );
    int ons = 0, dacs = 0, mid = 0;
    guarded( c, m, [&]
    {
        // set-up
        while ( !( m.cpu.flag( avr::Cpu::I ) && !m.cpu.delay_irq ) ) { PBT_CHECK( c, m.main_steps < 5000, d.name << ": interrupts are never enabled" ); m.step( first ); }
        auto at = [&]( int a ) { return (unsigned) m.cpu.data[a]; };
        PBT_CHECK( c, at( DDRB ) == 0x22, "DDRB is " << hex( at( DDRB ) ) << ", outputs are the LED and the PWM pin (0x22)" );
        PBT_CHECK( c, at( ADMUX ) == 0x40 && ( at( ADCSRB ) & 0x47 ) == 0 && at( ADCSRA ) == 0xef, "ADC set-up is ADMUX " << hex( at( ADMUX ) ) << " ADCSRB " << hex( at( ADCSRB ) ) << " ADCSRA " << hex( at( ADCSRA ) ) );
        PBT_CHECK( c, at( TCCR1A ) == 0x83 && at( TCCR1B ) == 0x09, "PWM set-up is TCCR1A " << hex( at( TCCR1A ) ) << " TCCR1B " << hex( at( TCCR1B ) ) );
        PBT_CHECK( c, at( TCCR0A ) == 0x02 && at( TCCR0B ) == 0x03 && at( OCR0A ) == 250 && at( TIMSK0 ) == 2, "heartbeat set-up is TCCR0A " << hex( at( TCCR0A ) ) << " TCCR0B " << hex( at( TCCR0B ) ) << " OCR0A " << at( OCR0A ) << " TIMSK0 " << hex( at( TIMSK0 ) ) );
        Snapshot set( m.cpu ); m.ev.clear();
        long since_adc = 0;
        for ( long t = 0; t <= last; ++t )
        {
            // t = 0: before the first tick
            if ( t )
            {
                m.want_tick = true; long n = 0;
                while ( m.ticks < t ) { PBT_CHECK( c, ++n < 5000, d.name << ": the tick interrupt is not taken" ); m.step( first ); }
            }
            long from = m.served; bool before = m.led(); m.ev.clear();
            bool window = t && t % 100 == 0;
            long end = m.main_steps + ( window ? 400 : between );
            rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
            long shot = window && shots ? m.main_steps + (long)( rnd >> 20 ) % 60 : -1;      // one more conversion at any instruction
            while ( m.main_steps < end || m.in_isr )
            {
                if ( !m.in_isr && ( ( !( window && shots ) && m.main_steps >= since_adc + per ) || ( shot >= 0 && m.main_steps >= shot ) ) ) { m.deliver( src.next() ); since_adc = m.main_steps; shot = -1; mid += window; }
                m.step( first );
            }
            auto can = m.can( from );
            int high = 0; for ( int v : can ) high += v > 511;
            int dac = 0; for ( auto & e : m.ev ) dac += e.what == 'A';
            int changes = 0; for ( auto & e : m.ev ) changes += e.what == 'L';
            if ( !window ) { PBT_CHECK( c, m.ev.empty(), d.name << ": " << (char) m.ev[0].what << " becomes " << m.ev[0].v << " after " << t << " ms" ); continue; }
            if ( t <= 600 ) { PBT_CHECK( c, changes == 1 && dac == 0, d.name << ": the LED changes " << changes << " times after " << t << " ms, the DAC " << dac << " times; want 1 and 0" ); continue; }
            bool second = t % 1000 == 0;
            PBT_CHECK( c, dac == second, d.name << ": the DAC is written " << dac << " times after " << t << " ms" );
            for ( auto & e : m.ev ) if ( e.what == 'A' )
            {
                ++dacs; bool ok = false; for ( int v : can ) ok |= std::max( v, 3 ) == e.v;      // 3: least value of the PWM
                PBT_CHECK( c, ok, d.name << ": the DAC gets " << e.v << ", the ADC delivered " << shown( can ) );
            }
            bool on = m.led(); ons += on;
            if ( second ) PBT_CHECK( c, !on || high, d.name << ": the LED is on after " << t << " ms where the ADC delivered " << shown( can ) );
            else if ( high == (int) can.size() ) PBT_CHECK( c, on, d.name << ": the LED is off after " << t << " ms where the ADC delivered " << shown( can ) );
            else if ( !high ) PBT_CHECK( c, on == before, d.name << ": the LED goes " << ( on ? "on" : "off" ) << " after " << t << " ms where the ADC delivered " << shown( can ) );
            else PBT_CHECK( c, on || !before, d.name << ": the LED goes off after " << t << " ms" );
            PBT_CHECK( c, changes <= 1 + second, d.name << ": the LED changes " << changes << " times after " << t << " ms" );
        }
        for ( int a : { PORTB + 0, ADCL + 0, ADCH + 0, OCR1AL + 0, OCR1AH + 0 } ) set.v[a] = a == PORTB ? ( set.v[a] & ~LED ) | ( m.cpu.data[a] & LED ) : m.cpu.data[a];
        int a = set.differs( m.cpu ); PBT_CHECK( c, !a, d.name << ": " << hex( a ) << " changes from " << hex( set.v[a] ) << " to " << hex( m.cpu.data[a] ) << " while the program runs" );
    } );
    c.nontriv( last > 700 ); c.cls( "LED on", ons > 0 ); c.cls( "LED off", ons == 0 ); c.cls( "DAC written", dacs > 0 ); c.cls( "conversion while results are used", mid > 0 && shots );
    c.cls( "ADC to DAC" );
}

// LED shows whether the input is in the upper half
void adc_led( Gen & g, Case & c )
{
    Device & d = device( g.coin() ? "E01_adc_Os" : "E01_adc_O2" );
    d.reset();
    Machine m( d );
    int n = 0, high = 0, low = 0; long convs = 0;
    guarded( c, m, [&]
    {
        while ( !( m.cpu.flag( avr::Cpu::I ) && !m.cpu.delay_irq ) ) { PBT_CHECK( c, m.main_steps < 5000, d.name << ": interrupts are never enabled" ); m.step( true ); }
        PBT_CHECK( c, m.cpu.data[DDRB] == LED && m.cpu.data[ADMUX] == 0x40 && m.cpu.data[ADCSRA] == 0xef && m.cpu.data[ADCSRB] == 0, "set-up: DDRB " << hex( m.cpu.data[DDRB] ) << " ADMUX " << hex( m.cpu.data[ADMUX] ) << " ADCSRA " << hex( m.cpu.data[ADCSRA] ) << " ADCSRB " << hex( m.cpu.data[ADCSRB] ) );
        Snapshot set( m.cpu );
        do
        {
            bool up = g.coin(); int per = g.irange( 1, 40 );
            int a, b;
            if ( g.coin() ) { a = up ? 0x2ff : 0x1ff; b = up ? 0x300 : 0x200; }
            else { a = up ? g.irange( 516, 1023 ) : g.irange( 0, 512 ); b = up ? g.irange( 516, 1023 ) : g.irange( 0, 512 ); }
            PBT_LOG( c, d.name << ": " << a << " and " << b << " each " << per << " instructions; " );
            long start = m.main_steps, last = start, from = -1;
            while ( m.main_steps < start + 600 || m.in_isr )
            {
                if ( !m.in_isr && m.main_steps >= last + per ) { m.deliver( convs++ & 1 ? a : b ); last = m.main_steps; }
                if ( from < 0 && m.main_steps >= start + 200 ) { from = m.main_steps; m.ev.clear(); PBT_CHECK( c, m.led() == up, d.name << ": the LED is " << ( m.led() ? "on" : "off" ) << " for " << a << " and " << b ); }
                m.step( true );
            }
            for ( auto & e : m.ev ) if ( e.what == 'L' ) PBT_CHECK( c, false, d.name << ": the LED goes " << ( e.v ? "on" : "off" ) << " while the input is " << a << " or " << b );
            ( up ? high : low ) += a != b;
        } while ( g.more( 3, ++n, 12 ) );
        for ( int a : { PORTB + 0, ADCL + 0, ADCH + 0 } ) set.v[a] = a == PORTB ? ( set.v[a] & ~LED ) | ( m.cpu.data[a] & LED ) : m.cpu.data[a];
        int a = set.differs( m.cpu ); PBT_CHECK( c, !a, d.name << ": " << hex( a ) << " changes from " << hex( set.v[a] ) << " to " << hex( m.cpu.data[a] ) << " while the program runs" );
    } );
    c.nontriv( high + low > 0 ); c.cls( "input in the upper half", high > 0 ); c.cls( "input in the lower half", low > 0 ); c.cls( "both halves", high && low );
}

// LED toggles once per second
void blink_isr( Gen & g, Case & c )
{
    Device & d = device( g.coin() ? "E01_bli_Os" : "E01_bli_O2" );
    d.reset();
    Machine m( d );
    long last = 500 * g.irange( 1, 9 ) + g.irange( 0, 3 ); int between = g.irange( 1, 12 );
    PBT_LOG( c, d.name << ": " << last << " ticks, " << between << " instructions apart" );
    guarded( c, m, [&]
    {
        while ( !( m.cpu.flag( avr::Cpu::I ) && !m.cpu.delay_irq ) ) { PBT_CHECK( c, m.main_steps < 5000, d.name << ": interrupts are never enabled" ); m.step( true ); }
        PBT_CHECK( c, ( m.cpu.data[DDRB] & LED ) && m.cpu.data[TCCR0A] == 2 && m.cpu.data[TCCR0B] == 3 && m.cpu.data[OCR0A] == 250 && m.cpu.data[TIMSK0] == 2, "set-up is not that of a heartbeat of 1 ms" );
        Snapshot set( m.cpu ); m.ev.clear(); bool led = m.led();
        for ( long t = 1; t <= last; ++t )
        {
            m.want_tick = true;
            for ( long end = m.main_steps + between; m.ticks < t || m.in_isr || m.main_steps < end; ) { PBT_CHECK( c, m.main_steps < end + 5000, d.name << ": the tick interrupt is not taken" ); m.step( true ); }
            if ( t % 1000 == 0 ) led = !led;
            PBT_CHECK( c, m.led() == led && m.ev.size() == (std::size_t)( t / 1000 ), d.name << ": the LED has changed " << m.ev.size() << " times after " << t << " ms" );
        }
        set.v[PORTB] = ( set.v[PORTB] & ~LED ) | ( m.cpu.data[PORTB] & LED );
        int a = set.differs( m.cpu ); PBT_CHECK( c, !a, d.name << ": " << hex( a ) << " changes from " << hex( set.v[a] ) << " to " << hex( m.cpu.data[a] ) << " while the program runs" );
    } );
    c.nontriv( last >= 1000 ); c.cls( "LED toggles each second", last >= 1000 );
}

// LED toggles, evenly spaced
void blink_polled( Gen & g, Case & c )
{
    Device & d = device( g.coin() ? "E01_pol_Os" : "E01_pol_O2" );
    d.reset();
    Machine m( d );
    guarded( c, m, [&]
    {
        long at[3] = {}; bool led = false;
        for ( int k = 0; k < 3; ++k )
        {
            std::size_t n = m.ev.size();
            if ( k == 1 ) led = m.led();
            while ( m.ev.size() == n ) { PBT_CHECK( c, m.main_steps < 40000000, d.name << ": the LED does not blink" ); m.step( true ); }
            at[k] = m.main_steps;
        }
        PBT_LOG( c, d.name << ": LED changes at instruction " << at[0] << " " << at[1] << " " << at[2] );
        long p = at[2] - at[1], q = at[1] - at[0];
        (void) led;
        PBT_CHECK( c, m.cpu.data[DDRB] == LED && ( m.cpu.data[PORTB] | LED ) == 0xff, d.name << ": DDRB is " << hex( m.cpu.data[DDRB] ) << ", PORTB " << hex( m.cpu.data[PORTB] ) );
        PBT_CHECK( c, q > 100000 && p > q / 2 && p < 2 * q, d.name << ": the LED changes after " << q << " and after " << p << " instructions" );
    } );
    c.nontriv(); c.cls( "polled blinking" );
}

// PWM outputs fade, the LED follows the sampled pin
void fade( Gen & g, Case & c )
{
    Device & d = device( g.coin() ? "E01_fade_Os" : "E01_fade_O2" );
    d.reset();
    Machine m( d );
    int steps = g.irange( 1, 40 ), per = g.irange( 5, 3000 );
    if ( g.chance( 1, 40 ) ) steps = 2100;
    PBT_LOG( c, d.name << ": " << steps << " steps, pin changes each " << per << " instructions" );
    bool pin = false; long changed = 0, latest = 0;
    guarded( c, m, [&]
    {
        int i = 0, dir = 1; std::size_t k = 0;
        std::vector<Machine::Ev> w;
        long limit = 0;
        while ( i < steps )
        {
            if ( m.main_steps >= changed + per ) { PBT_CHECK( c, k == 0 || latest < 100 || m.led() == pin, d.name << ": the LED does not follow the pin" ); pin = !pin; changed = m.main_steps; latest = 0; m.cpu.data[PIND] = ( m.cpu.data[PIND] & 0xfe ) | pin; }
            m.step( true ); ++latest;
            PBT_CHECK( c, ++limit < 60000000, d.name << ": the outputs do not change any more" );
            for ( auto & e : m.ev ) if ( e.what != 'L' ) w.push_back( e );
            m.ev.clear();
            if ( w.size() < 3 ) continue;
            // fade up 0..1022, down 1023..1
            int phase = i % 2046, want = phase < 1023 ? phase : 2046 - phase; (void) dir;
            int got[3] = { -1, -1, -1 }; for ( auto & e : w ) got[e.what == '0' ? 0 : e.what == 'A' ? 1 : 2] = e.v;
            PBT_CHECK( c, got[0] == want / 4 && got[1] == want && got[2] == 1023 - want, d.name << ": step " << i << " sets " << got[0] << " " << got[1] << " " << got[2] << ", want " << want / 4 << " " << want << " " << 1023 - want );
            w.clear(); ++i; ++k;
        }
        PBT_CHECK( c, m.cpu.data[DDRB] == 0x26 && m.cpu.data[0x2a] == 0x40, d.name << ": DDRB is " << hex( m.cpu.data[DDRB] ) << " and DDRD " << hex( m.cpu.data[0x2a] ) << ", want 0x26 and 0x40" );
        PBT_CHECK( c, m.cpu.data[TCCR0A] == 0x83 && m.cpu.data[TCCR0B] == 0x03 && m.cpu.data[TCCR1A] == 0xa3 && m.cpu.data[TCCR1B] == 0x09, d.name << ": the timers are not set up for PWM" );
    } );
    c.nontriv( steps > 1 ); c.cls( "fading" ); c.cls( "down again", steps > 1100 );
}

Suite pbt::suite()
{
    return { "E01",
        "the example programs of example/avr, compiled as they are and run from reset in the instruction-set simulator with heartbeat and conversion interrupts at generated instructions (ADC to DAC: up to 3.5 s of ticks, a conversion result arriving while the program uses the former one), every LED change and PWM value compared with the description, set-up and untouched registers. Non-trivial: the program gets past its start-up (ADC to DAC: more than 700 ticks; LED from ADC: two different results; blinking: at least 1000 ticks).",
        { { "ADC to DAC", 8, adc_dac }, { "LED from ADC", 6, adc_led }, { "blink by interrupt", 2, blink_isr }, { "blink by polling", 1, blink_polled }, { "fade", 2, fade } },
        3000, 300000, { "ADC to DAC", "LED on", "LED off", "DAC written", "conversion while results are used", "input in the upper half", "input in the lower half", "both halves", "LED toggles each second", "fading" } };
}
