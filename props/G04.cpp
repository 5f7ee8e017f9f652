// G04: reading an interrupt flag does not change it; clearing it clears no other.
// plain
// device: G04_O1 avr/G04.cpp -O1
// device: G04_O2 avr/G04.cpp -O2
// device: G04_Os avr/G04.cpp -Os
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( int k )
{
    static std::map<int,Device *> d;
    auto & p = d[k];
    if ( !p ) p = new Device( k == 0 ? "G04_O2" : k == 1 ? "G04_Os" : "G04_O1" );
    return *p;
}

struct Flag { char const * name; int addr, bit; };
std::vector<Flag> const & flags()
{
    static std::vector<Flag> const f = {
#define G( id, r, c, addr, bit ) { #id, addr, bit },
#include "avr/mcu_flags.hpp"
    };
    return f;
}
// bits of a register that writing one clears
unsigned w1c( int addr )
{
    static std::map<int,unsigned> const m = [] { std::map<int,unsigned> r; for ( auto & f : flags() ) r[f.addr] |= 1u << f.bit; return r; }();
    auto i = m.find( addr ); return i == m.end() ? 0 : i->second;
}

void history( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    // bits that do not exist read as zero
    for ( int a : { 0x35, 0x36, 0x3c, 0x3b } ) d.cpu.data[a] &= w1c( a );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    auto plain = d.cpu.on_write;
    d.cpu.on_write = [&]( std::uint16_t a, std::uint8_t v, int bit )
    {
        unsigned f = w1c( a );
        if ( !f ) { plain( a, v, bit ); return; }
        io.trace.push_back( { a, true, v, d.cpu.data[a], bit } );
        unsigned old = d.cpu.data[a], ones = bit >= 0 ? v & 1u << bit : v;         // SBI and CBI act on one bit
        unsigned rest = bit >= 0 ? ( old & ~( 1u << bit ) ) | ( v & 1u << bit ) : v;
        bool pure = a < 0x40;                                                       // nothing but flags
        d.cpu.data[a] = ( old & f & ~ones ) | ( pure ? 0 : rest & ~f );
    };
    int n = 0, clears = 0; bool others = false, pending = false, none = false, event = false, seq = false, ifset = false;
    do
    {
        int kind = g.irange( 0, 6 );
        if ( kind == 6 )
        {
            // an event happens
            Flag const & f = g.pick( flags() );
            PBT_LOG( c, "event " << f.name << "; " );
            d.cpu.data[f.addr] |= 1u << f.bit; event = true;
            continue;
        }
        Snapshot before( d.cpu ); io.trace.clear();
        Flag const & f = g.pick( flags() );
        if ( kind <= 1 )
        {
            PBT_LOG( c, d.name << ": read " << f.name << " (" << hex( before.v[f.addr] ) << "); " );
            d.put<std::uint16_t>( "m_r", 0xdead );
            d.call( c, std::string( "r_" ) + f.name );
            unsigned r = d.get<std::uint16_t>( "m_r" ); bool is = before.v[f.addr] >> f.bit & 1;
            PBT_CHECK( c, ( r != 0 ) == is, "flag " << f.name << " reads as " << r << " while its register holds " << hex( before.v[f.addr] ) );
            int a = before.differs( d.cpu ); PBT_CHECK( c, !a, "reading flag " << f.name << " changes " << hex( a ) << " from " << hex( before.v[a] ) << " to " << hex( d.cpu.data[a] ) );
            for ( auto & t : io.trace ) PBT_CHECK( c, !t.write, "reading flag " << f.name << " writes:" << io.show() );
            none |= !is;
        }
        else
        {
            // another event may happen before any instruction of the clearing code
            unsigned extra_bit = 0; int extra = 0, at = -1, steps = 0;
            bool two = kind == 5;
            int addr = f.addr; unsigned gone = 1u << f.bit; std::string fn = std::string( kind == 4 ? "e_" : "x_" ) + f.name;
            if ( two ) { bool t0 = g.coin(); addr = t0 ? 0x35 : 0x36; gone = t0 ? 0x03 : 0x24; fn = t0 ? "x_timer0" : "x_timer1"; }
            if ( g.chance( 1, 3 ) )
            {
                Flag const & e = g.pick( flags() );
                if ( e.addr != addr || !( gone >> e.bit & 1 ) ) { extra = e.addr; extra_bit = 1u << e.bit; at = g.irange( 0, 7 ); }
            }
            PBT_LOG( c, d.name << ": " << fn << " (" << hex( before.v[addr] ) << ")"; if ( at >= 0 ) c.log << " with event " << hex( extra ) << "/" << hex( extra_bit ) << " at step " << at; c.log << "; " );
            bool hit = false;
            if ( at >= 0 ) d.cpu.on_step = [&]( avr::Cpu & p ) { if ( steps++ == at ) { p.data[extra] |= extra_bit; hit = true; } };
            d.put<std::uint16_t>( "m_r", 0xdead );
            d.call( c, fn );
            d.cpu.on_step = nullptr;
            if ( kind == 4 )
            {
                unsigned r = d.get<std::uint16_t>( "m_r" ); bool is = before.v[addr] & gone;
                PBT_CHECK( c, r == is, "flag " << f.name << " is " << ( is ? "pending" : "not pending" ) << " but tested otherwise" );
                ifset = true;
            }
            Snapshot after = before; after.v[addr] &= ~gone;
            unsigned now = d.cpu.data[addr], want = after.v[addr] | ( hit && extra == addr ? extra_bit : 0 );
            PBT_CHECK( c, now == want, fn << " (clear " << hex( gone ) << ") turns " << hex( addr ) << " from " << hex( before.v[addr] ) << " into " << hex( now ) << ", want " << hex( want ) << ":" << io.show() );
            after.v[addr] = now; if ( hit && extra != addr ) after.v[extra] |= extra_bit;
            int a = after.differs( d.cpu ); PBT_CHECK( c, !a, fn << " changes " << hex( a ) << " from " << hex( after.v[a] ) << " to " << hex( d.cpu.data[a] ) );
            for ( auto & t : io.trace ) PBT_CHECK( c, t.addr == addr, fn << " touches another register:" << io.show() );
            ++clears; pending |= ( before.v[addr] & gone ) != 0; others |= ( before.v[addr] & w1c( addr ) & ~gone ) != 0; event |= hit; seq |= two;
        }
    } while ( g.more( 4, ++n, 16 ) );
    c.nontriv( clears > 0 && pending );
    c.cls( "other flags of the register pending", others ); c.cls( "flag not pending read", none ); c.cls( "event while clearing", event ); c.cls( "two flags in sequence", seq ); c.cls( "cleared if pending", ifset );
}

Suite pbt::suite()
{
    return { "G04",
        "histories of reading and clearing the 15 interrupt flags (by name and by register field), of events that set flags between and during the operations, from random registers; AVR object code (-O1, -O2, -Os) in the simulator whose flag registers are cleared by writing one (SBI: the addressed bit only); final contents of the whole I/O space against the flags expected. Non-trivial: a pending flag was cleared.",
        { { "history", 1, history } },
        200000, 30000000, { "other flags of the register pending", "flag not pending read", "event while clearing", "two flags in sequence", "cleared if pending" } };
}
