// G07: a synchronous two-wire write performs the bus protocol.
// plain
// device: G07_O1 avr/G07.cpp -O1
// device: G07_O2 avr/G07.cpp -O2
// device: G07_Os avr/G07.cpp -Os
// fuzz: quick=10000 thorough=300000
#include "fw/mcu_io.hpp"
#include <deque>

using namespace pbt;

Device & device( int k )
{
    static std::map<int,Device *> d;
    auto & p = d[k];
    if ( !p ) p = new Device( k == 0 ? "G07_O2" : k == 1 ? "G07_Os" : "G07_O1" );
    return *p;
}

enum { TWBR = 0xb8, TWSR = 0xb9, TWDR = 0xbb, TWCR = 0xbc, TWINT = 0x80, TWSTA = 0x20, TWSTO = 0x10, TWWC = 0x08, TWEN = 0x04 };

// the interface as master on a bus: what it puts on the bus, and how the bus answers
struct Bus
{
    avr::Cpu & cpu; Io & io;
    std::vector<std::string> events;
    std::deque<int> status;                 // of the steps to come
    std::vector<int> delays;                // in instructions
    int left = -1, step = 0;
    std::string early;

    Bus( avr::Cpu & c, Io & i ) : cpu( c ), io( i )
    {
        auto plain = cpu.on_write;
        cpu.on_write = [this,plain]( std::uint16_t a, std::uint8_t v, int bit )
        {
            if ( a == 0x23 || a == 0x26 || a == 0x29 ) { cpu.data[a + 2] ^= bit >= 0 ? v & 1u << bit : v; io.trace.push_back( { a, true, v, 0, bit } ); return; }
            if ( a < TWBR || a > 0xbd || a == 0xba || a == 0xbd || a == TWBR ) { plain( a, v, bit ); return; }
            io.trace.push_back( { a, true, v, cpu.data[a], bit } );
            if ( a == TWSR ) { cpu.data[a] = ( cpu.data[a] & 0xf8 ) | ( v & 3 ); return; }
            if ( a == TWDR )
            {
                if ( left >= 0 ) { early += " data written while the bus is busy;"; cpu.data[TWCR] |= TWWC; return; }
                cpu.data[a] = v; return;
            }
            // TWCR
            std::uint8_t keep = ( v & TWINT ) ? 0 : cpu.data[a] & TWINT;
            cpu.data[a] = ( v & 0x75 ) | keep;
            if ( !( v & TWINT ) ) return;
            if ( !( v & TWEN ) ) { events.push_back( "command to the disabled interface" ); return; }
            if ( left >= 0 ) early += " command while the bus is busy;";
            cpu.data[TWSR] |= 0xf8;
            if ( v & TWSTO ) { events.push_back( "STOP" ); cpu.data[a] &= ~TWSTO; if ( !( v & TWSTA ) ) { left = -1; return; } }
            if ( v & TWSTA ) events.push_back( "START" );
            else events.push_back( "BYTE " + hex( cpu.data[TWDR] ) );
            left = delays.empty() ? 0 : delays[step++ % delays.size()];
        };
        cpu.on_step = [this]( avr::Cpu & )
        {
            if ( left < 0 || left-- ) return;
            int s = status.empty() ? 0 : status.front(); if ( !status.empty() ) status.pop_front();
            cpu.data[TWSR] = ( cpu.data[TWSR] & 3 ) | s; cpu.data[TWCR] |= TWINT; left = -1;
        };
    }
    std::string show() const { std::string s; for ( auto & e : events ) s += ( s.empty() ? "" : ", " ) + e; return s; }
};

int fault( Gen & g, int good )
{
    static int const likely[] = { 0x20, 0x30, 0x38, 0x00, 0x08, 0x18, 0x28, 0x48 };
    for (;;)
    {
        int s = g.coin() ? likely[g.irange( 0, 7 )] : g.irange( 0, 30 ) * 8;
        if ( s == good || ( good == 0x08 && s == 0x10 ) ) continue;      // a repeated start is a start, too
        return s;
    }
}

void history( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[TWCR] &= 0xf7 & ~( TWSTA | TWSTO ); d.cpu.data[TWSR] = 0xf8 | ( d.cpu.data[TWSR] & 3 );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    Bus bus( d.cpu, io );
    d.cpu.limit = 200000;
    int n = 0, writes = 0, inits = 0; bool bad = false, good = false, slow = false, prescaled = false, again = false, after = false, burst = false, at[3] = {};
    auto initialised = [&]( std::string const & what, Snapshot const & before, unsigned rate, unsigned ps, Snapshot & want )
    {
        want = before;
        want.v[TWBR] = rate; want.v[0x28] |= 0x30; want.v[TWSR] = ( d.cpu.data[TWSR] & 0xfc ) | ps; want.v[TWCR] = d.cpu.data[TWCR]; want.v[TWDR] = d.cpu.data[TWDR];
        PBT_CHECK( c, d.cpu.data[TWCR] & TWEN, what << " leaves the interface disabled" );
        PBT_CHECK( c, ( d.cpu.data[0x28] & 0x30 ) == 0x30, what << " leaves the pull-ups of the two-wire pins at " << hex( d.cpu.data[0x28] & 0x30 ) << ", want 0x30 (before: " << hex( before.v[0x28] & 0x30 ) << ")" );
        PBT_CHECK( c, ( d.cpu.data[TWSR] & 3u ) == ps, what << " sets prescaler " << ( d.cpu.data[TWSR] & 3 ) << ", want " << ps );
        int a = want.differs( d.cpu ); PBT_CHECK( c, !a, what << " leaves " << hex( d.cpu.data[a] ) << " at " << hex( a ) << ", want " << hex( want.v[a] ) );
    };
    do
    {
        int kind = g.irange( 0, 7 );
        Snapshot before( d.cpu ), want = before; io.trace.clear(); bus.events.clear(); bus.early.clear(); bus.status.clear(); bus.delays.clear(); bus.step = 0; bus.left = -1;
        unsigned a = g.draw( 255 ), b = g.draw( 255 ), rate = g.draw( 255 ), ps = g.draw( 3 );
        if ( kind == 0 )
        {
            int how = g.irange( 0, 2 ); std::string what = how == 0 ? "init" : how == 1 ? "init_rate" : "init_plain";
            if ( how == 2 ) rate = 0x0c; if ( how >= 1 ) ps = 0;
            d.put<std::uint8_t>( "m_rate", rate ); d.put<std::uint8_t>( "m_ps", ps );
            PBT_LOG( c, d.name << ": " << what << " rate " << rate << " prescaler " << ps << "; " );
            d.call( c, what );
            initialised( what, before, rate, ps, want );
            PBT_CHECK( c, bus.events.empty(), what << " acts on the bus: " << bus.show() );
            again |= inits > 0; ++inits; prescaled |= ps > 0;
            continue;
        }
        bool k = kind == 1, many = kind == 2; int count = many ? 3 : 1;
        if ( k ) { a = 0x78; b = 0xa5; }
        int fails = g.chance( 2, 5 ) ? g.irange( 0, 3 * count - 1 ) : -1, status = 0;
        static int const ok[] = { 0x08, 0x18, 0x28 };
        std::vector<std::string> expect;
        PBT_LOG( c, d.name << ": " << ( many ? "burst" : "write" ) << " " << hex( a ) << " " << hex( b ) << " status" );
        for ( int i = 0; i < 3 * count; ++i )
        {
            status = i == fails ? fault( g, ok[i % 3] ) : ok[i % 3];
            if ( fails < 0 || i <= fails )
            {
                bus.status.push_back( status ); PBT_LOG( c, " " << hex( status ) );
                expect.push_back( i % 3 == 0 ? "START" : "BYTE " + hex( i % 3 == 1 ? a : ( b + i / 3 ) & 255 ) );
                if ( i % 3 == 2 && i != fails ) expect.push_back( "STOP" );
            }
            int delay = g.coin() ? g.irange( 0, 12 ) : g.irange( 0, 300 ); bus.delays.push_back( delay ); slow |= delay > 100;
        }
        PBT_LOG( c, "; " );
        d.put<std::uint8_t>( "m_a", a ); d.put<std::uint8_t>( "m_b", b ); d.put<std::uint8_t>( "m_rate", rate ); d.put<std::uint8_t>( "m_ps", ps ); d.put<std::uint8_t>( "m_r", 0xee );
        d.call( c, many ? "burst" : k ? "write_k" : "write" );
        unsigned r = d.get<std::uint8_t>( "m_r" );
        std::string shown = bus.show();
        auto events = bus.events;
        // giving the bus up after an error is fine
        if ( fails >= 0 && events.size() == expect.size() + 1 && events.back() == "STOP" ) events.pop_back();
        std::string we; for ( auto & e : expect ) we += ( we.empty() ? "" : ", " ) + e;
        PBT_CHECK( c, events == expect, "the bus sees: " << shown << "; want: " << we << ( fails >= 0 ? " (unexpected status then)" : "" ) );
        PBT_CHECK( c, bus.early.empty(), "the previous step is not awaited:" << bus.early << " the bus sees: " << shown );
        PBT_CHECK( c, ( r != 0 ) == ( fails >= 0 ), "a write that " << ( fails >= 0 ? "fails" : "succeeds" ) << " returns " << r );
        if ( many )
        {
            PBT_CHECK( c, r == ( fails < 0 ? 0u : fails / 3 + 1u ), "byte " << fails / 3 << " of three fails, the program sees " << r );
            initialised( "init before writes", before, rate, ps, want );
            again |= inits > 0; ++inits; burst = true;
        }
        else
        {
            want.v[TWCR] = d.cpu.data[TWCR]; want.v[TWSR] = ( d.cpu.data[TWSR] & 0xfc ) | ( before.v[TWSR] & 3 ); want.v[TWDR] = d.cpu.data[TWDR];
            int x = want.differs( d.cpu ); PBT_CHECK( c, !x, "a write changes " << hex( x ) << " from " << hex( want.v[x] ) << " to " << hex( d.cpu.data[x] ) );
            if ( fails >= 0 ) at[fails] = true;
        }
        after |= bad && fails < 0; ( fails >= 0 ? bad : good ) = true; ++writes;
    } while ( g.more( 3, ++n, 10 ) );
    c.nontriv( writes > 0 );
    c.cls( "written", good ); c.cls( "start fails", at[0] ); c.cls( "address fails", at[1] ); c.cls( "data fails", at[2] ); c.cls( "written after a failure", after );
    c.cls( "slow bus", slow ); c.cls( "prescaled", prescaled ); c.cls( "initialised again", again ); c.cls( "burst", burst );
}

Suite pbt::suite()
{
    return { "G07",
        "histories of initialisations (all bit rates and prescalers) and writes (all addresses and bytes) of the two-wire interface in AVR object code (-O1, -O2, -Os), against a simulated bus that completes each step after 0 to 300 instructions with the expected or any other status; events on the bus, their order, waiting, result, and all other I/O contents. Non-trivial: at least one write.",
        { { "history", 1, history } },
        100000, 6000000, { "written", "start fails", "address fails", "data fails", "written after a failure", "slow bus", "prescaled", "initialised again", "burst" } };
}
