// G03: options set and read by type reach their bits of the device, by value and by name.
// plain
// device: G03_O2 avr/G03.cpp -O2
// device: G03_Os avr/G03.cpp -Os -fno-jump-tables
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( bool small )
{
    static std::map<int,Device *> d;
    auto & p = d[small];
    if ( !p ) p = new Device( small ? "G03_Os" : "G03_O2" );
    return *p;
}

// bits hi..lo of the register at addr hold bits from..from+(hi-lo) of the value
struct Part { int addr, hi, lo, from; };
struct Option { std::string name; std::vector<Part> parts; bool readable = true, settable = true, tag = false; int width() const { int w = 0; for ( auto & p : parts ) w += p.hi - p.lo + 1; return w; } };

std::vector<Option> const & options()
{
    static std::vector<Option> const o = []
    {
        std::vector<Option> r;
        auto add = [&]( char const * id, int addr, int hi, int lo )
        {
            Option q; q.name = id;
            if ( hi == 15 ) q.parts = { { addr, 7, 0, 0 }, { addr + 1, 7, 0, 8 } };
            else q.parts = { { addr, hi, lo, 0 } };
            r.push_back( q );
        };
        auto tag = [&]( char const * id, char const * cur, int addr, int b ) { add( id, addr, b, b ); r.back().tag = true; r.back().readable = std::string( cur ) != "0"; };
#define O( id, ns, T, addr, hi, lo ) add( #id, addr, hi, lo );
#define N( id, ns, T, addr, hi, lo ) add( #id, addr, hi, lo );
#define L( id, s, c, addr, hi, lo ) add( #id, addr, hi, lo );
#define D( id, s, c, addr, hi, lo ) add( #id, addr, hi, lo );
#define T( id, s, c, addr, b, d ) tag( #id, #c, addr, b );
#define S( id, c, addr, hi, lo ) add( #id, addr, hi, lo ); r.back().settable = false;
#include "avr/mcu_options.hpp"
#include "avr/mcu_tags.hpp"
#undef O
#undef N
#undef L
#undef D
#undef T
#undef S
        Option w;
        // the deferred part last
        w.name = "tc0_waveform"; w.parts = { { 0x44, 1, 0, 0 }, { 0x45, 3, 3, 2 } }; r.push_back( w );
        w.name = "tc1_waveform"; w.parts = { { 0x80, 1, 0, 0 }, { 0x81, 4, 3, 2 } }; r.push_back( w );
        return r;
    }();
    return o;
}
Option const & option( std::string const & n ) { for ( auto & o : options() ) if ( o.name == n ) return o; std::abort(); }

struct Group { std::string name; std::vector<Option> o; };
std::vector<Group> const & groups()
{
    static std::vector<Group> const g = []
    {
        std::vector<Group> r;
        struct { char const * name; std::vector<char const *> f; } const raw[] = {
#define X( n ) #n
#define R( id, ... ) { #id, { __VA_ARGS__ } },
#include "avr/mcu_options_groups.hpp"
        };
        for ( auto & x : raw ) { Group q; q.name = x.name; for ( auto n : x.f ) q.o.push_back( option( n ) ); r.push_back( q ); }
        return r;
    }();
    return g;
}
struct Name { std::string option, text; int line; unsigned value; };
std::vector<Name> const & names()
{
    static std::vector<Name> const n = {
#define V( id, e, v ) { #id, #e, __LINE__, v },
#include "avr/mcu_names.hpp"
    };
    return n;
}

// interrupt flags cleared by writing one: what a write back does to them is no matter here
unsigned flags( int addr ) { return addr == 0x7a ? 0x10 : addr == 0x50 ? 0x10 : addr == 0xbc ? 0x80 : 0; }

void options_history( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    int n = 0, sets = 0; bool read_back = false, big = false, combined = false, named = false, two = false, moving = false, full = false;
    std::set<int> written;

    auto verify = [&]( std::string const & what, Snapshot const & before, std::map<int,unsigned> const & want, std::map<int,unsigned> const & mask )
    {
        for ( auto & t : io.trace )
        {
            PBT_CHECK( c, mask.count( t.addr ), what << " touches another register:" << io.show() );
            if ( t.write && !mask.count( t.addr ) ) return;
            if ( t.write ) PBT_CHECK( c, ( ( t.value ^ before.v[t.addr] ) & ~mask.at( t.addr ) & ~flags( t.addr ) & 0xff ) == 0, what << " writes " << hex( t.value ) << " to " << hex( t.addr ) << " that held " << hex( before.v[t.addr] ) << ": bits outside " << hex( mask.at( t.addr ) ) << " change" );
        }
        Snapshot after = before;
        for ( auto & w : want )
        {
            unsigned m = mask.at( w.first );
            PBT_CHECK( c, ( d.cpu.data[w.first] & m ) == w.second, what << " leaves " << hex( d.cpu.data[w.first] ) << " at " << hex( w.first ) << ", want bits " << hex( m ) << " to be " << hex( w.second ) );
            unsigned f = flags( w.first ) & ~m;
            after.v[w.first] = ( before.v[w.first] & ~m & ~f ) | ( d.cpu.data[w.first] & f ) | w.second;
            written.insert( w.first );
        }
        int a = after.differs( d.cpu ); PBT_CHECK( c, !a, what << " changes " << hex( a ) << " from " << hex( after.v[a] ) << " to " << hex( d.cpu.data[a] ) );
        ++sets;
    };
    auto expect = [&]( Option const & o, unsigned v, std::map<int,unsigned> & want, std::map<int,unsigned> & mask )
    {
        for ( auto & p : o.parts )
        {
            unsigned top = ( 1u << ( p.hi - p.lo + 1 ) ) - 1;
            mask[p.addr] |= top << p.lo; want[p.addr] |= ( v >> p.from & top ) << p.lo;
        }
    };
    auto value = [&]( Option const & o ) { return o.tag ? 1u : g.chance( 1, 5 ) ? ( 1u << o.width() ) - 1 : (unsigned) g.draw( ( 1u << o.width() ) - 1 ); };
    auto stored = [&]( Option const & o, std::uint8_t const * m ) { unsigned v = 0; for ( auto & p : o.parts ) v |= ( m[p.addr] >> p.lo & ( ( 1u << ( p.hi - p.lo + 1 ) ) - 1 ) ) << p.from; return v; };

    do
    {
        int kind = g.irange( 0, 4 );
        std::map<int,unsigned> want, mask;
        if ( kind == 0 || kind == 1 )
        {
            Option const & o = g.pick( options() );
            bool rd = kind == 1; if ( !o.readable ) rd = false; if ( !o.settable ) rd = true;
            Snapshot before( d.cpu ); io.trace.clear();
            if ( !rd )
            {
                unsigned v = value( o );
                PBT_LOG( c, d.name << ": set " << o.name << " = " << v << "; " );
                d.put<std::uint16_t>( "m_v", v, 0 );
                d.call( c, "s_" + o.name );
                expect( o, v, want, mask );
                verify( "setting " + o.name + " to " + std::to_string( v ), before, want, mask );
                two |= o.parts.size() > 1; full |= v + 1 == 1u << o.width();
            }
            else
            {
                // counters and results that move on while they are read
                bool moves = o.parts.size() == 2 && ( o.parts[0].addr == 0x84 || o.parts[0].addr == 0x78 ) && g.coin();
                unsigned at = stored( o, d.cpu.data ), step = moves ? g.chance( 1, 2 ) ? 1 : g.draw( 0xffff ) : 0;
                if ( moves && g.coin() ) { at |= 0xff; d.cpu.data[o.parts[0].addr] = 0xff; before = Snapshot( d.cpu ); }
                PBT_LOG( c, d.name << ": read " << o.name << " = " << at; if ( moves ) c.log << " moving by " << step; c.log << "; " );
                std::set<unsigned> seen{ at };
                auto plain = d.cpu.on_read;
                if ( moves ) d.cpu.on_read = [&]( std::uint16_t a )
                {
                    auto v = plain( a );
                    if ( o.parts[0].addr == 0x78 && io.adc_lock >= 0 ) return v;     // result kept until the high byte is read
                    unsigned x = ( stored( o, d.cpu.data ) + step ) & 0xffff;
                    d.cpu.data[o.parts[0].addr] = x; d.cpu.data[o.parts[0].addr + 1] = x >> 8; seen.insert( x );
                    return v;
                };
                d.put<std::uint16_t>( "m_r", 0xdead );
                d.call( c, "c_" + o.name );
                d.cpu.on_read = plain;
                unsigned r = d.get<std::uint16_t>( "m_r" );
                PBT_CHECK( c, seen.count( r ), "reading " << o.name << " gives " << r << " while the device holds " << at << ( moves ? " and moves on" : "" ) );
                for ( auto & t : io.trace )
                {
                    bool own = false; for ( auto & p : o.parts ) own |= p.addr == t.addr;
                    PBT_CHECK( c, own && !t.write, "reading " << o.name << " does more than reading its register:" << io.show() );
                }
                Snapshot after = before; if ( moves ) { after.v[o.parts[0].addr] = d.cpu.data[o.parts[0].addr]; after.v[o.parts[0].addr + 1] = d.cpu.data[o.parts[0].addr + 1]; }
                int a = after.differs( d.cpu ); PBT_CHECK( c, !a, "reading " << o.name << " changes " << hex( a ) );
                io.adc_lock = -1;
                read_back |= written.count( o.parts[0].addr ) > 0; big |= o.width() == 16; moving |= moves;
            }
        }
        else if ( kind == 2 )
        {
            Name const & m = g.pick( names() ); Option const & o = option( m.option );
            PBT_LOG( c, d.name << ": " << m.text << "; " );
            Snapshot before( d.cpu ); io.trace.clear();
            d.put<std::uint16_t>( "m_r", 0xdead );
            d.call( c, "name", { { (std::uint64_t) m.line, 1 } } );
            if ( m.option == "twi_status" ) { unsigned r = d.get<std::uint16_t>( "m_r" ); PBT_CHECK( c, r == m.value, m.text << " is " << r << ", the data sheet has " << m.value ); }
            else { expect( o, m.value, want, mask ); verify( "setting " + m.text, before, want, mask ); }
            named = true; two |= o.parts.size() > 1;
        }
        else
        {
            Group const & G = g.pick( groups() ); int N = G.o.size();
            int how = g.irange( 0, 2 ), i = g.irange( 0, N - 1 ), j = g.irange( 0, N - 2 ); if ( j >= i ) ++j;
            std::vector<int> used; if ( how == 0 ) used = { i, j }; else for ( int k = 0; k < N; ++k ) used.push_back( how == 1 ? k : N - 1 - k );
            PBT_LOG( c, d.name << ": combined" );
            for ( int k : used )
            {
                unsigned v = value( G.o[k] ); d.put<std::uint16_t>( "m_v", v, k ); expect( G.o[k], v, want, mask );
                PBT_LOG( c, " " << G.o[k].name << "=" << v );
                two |= G.o[k].parts.size() > 1;
            }
            PBT_LOG( c, "; " );
            Snapshot before( d.cpu ); io.trace.clear();
            d.call( c, "g_" + G.name, { { (std::uint64_t) how, 1 }, { (std::uint64_t)( i * N + j ), 1 } } );
            verify( "setting options of " + G.name + " combined", before, want, mask );
            int reg = G.o[0].parts.back().addr, w = 0;
            for ( auto & t : io.trace ) w += t.write && t.addr == reg;
            PBT_CHECK( c, w == 1, "options of " << G.name << " set together take " << w << " writes:" << io.show() );
            combined = true;
        }
    } while ( g.more( 4, ++n, 16 ) );
    c.nontriv( sets > 0 && n >= 2 );
    c.cls( "read back after setting", read_back ); c.cls( "16-bit value read", big ); c.cls( "combined options", combined ); c.cls( "named setting", named ); c.cls( "setting spread over two registers", two ); c.cls( "counter or result moving while read", moving ); c.cls( "largest value", full );
}

// each option and each named setting once, in every register state drawn
void sweep( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.call( c, "constants" );
    static unsigned const want[] = { 0, 1023, 3, 1023, 1, 4, 5 };
    for ( int i = 0; i < 7; ++i ) PBT_CHECK( c, d.get<std::uint16_t>( "m_v", i ) == want[i], "constant " << i << " of the interface is " << d.get<std::uint16_t>( "m_v", i ) << ", want " << want[i] );
    for ( auto & m : names() )
    {
        Option const & o = option( m.option );
        d.call( c, "name", { { (std::uint64_t) m.line, 1 } } );
        if ( m.option == "twi_status" ) continue;
        d.call( c, "c_" + o.name );
        unsigned r = d.get<std::uint16_t>( "m_r" );
        PBT_CHECK( c, r == m.value, m.text << " reads back as " << r << ", the data sheet has " << m.value );
    }
    c.nontriv( true ); c.cls( "all named settings" );
}

Suite pbt::suite()
{
    return { "G03",
        "histories of setting, reading and combining the options of the device by type (70 options over 34 registers, among them the waveforms spread over two registers, 16-bit values through the temporary byte, the locked conversion result), by value and by named enumerator (125 names), from random register contents; AVR object code (-O2, -Os) in the simulator; final contents, access trace and readings against the bit positions and codes of the data sheet. Non-trivial: at least two operations, one of which sets.",
        { { "history", 30, options_history }, { "sweep", 1, sweep } },
        100000, 12000000, { "read back after setting", "16-bit value read", "combined options", "named setting", "setting spread over two registers", "counter or result moving while read", "largest value", "all named settings" } };
}
