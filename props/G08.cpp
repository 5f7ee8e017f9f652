// G08: fields of user-defined registers behave by their position, width and access policy.
// plain
// device: G08_O2 avr/G08.cpp -O2
// device: G08_Os avr/G08.cpp -Os -fno-jump-tables
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( bool small )
{
    static std::map<int,Device *> d;
    auto & p = d[small];
    if ( !p ) p = new Device( small ? "G08_Os" : "G08_O2" );
    return *p;
}

// operations: read, write, deferred write, set, clear, toggle, trigger
struct Set { char const * name; int addr, bits; bool single; int ops; };

Set const sets[] =
{
    { "set_rw_low", 0x3e,  8, false, 1 | 2 | 4 | 8 | 16 | 32 },
    { "set_rw"    , 0x4a,  8, false, 1 | 2 | 4 | 8 | 16 | 32 },
    { "set_r"     , 0x4b,  8, false, 1 },
    { "set_w"     , 0xc6,  8, false, 2 | 4 | 8 | 16 },
    { "set_rw16"  , 0x88, 16, false, 1 | 2 | 4 },
    { "set_rw16"  , 0x88, 16, false, 1 | 2 | 4 },
    { "set_bits16", 0x8a, 16, true , 1 | 2 | 4 | 8 | 16 | 32 },
    { "set_rc_w0" , 0x6e,  8, true , 1 | 16 },
    { "set_rc_r"  , 0x6f,  8, true , 1 },
    { "set_rs"    , 0x70,  8, true , 1 | 8 },
    { "set_rt_w"  , 0x7a,  8, true , 1 | 64 },
    { "set_rs_low", 0x33,  8, true , 1 | 8 },
};

unsigned content( avr::Cpu const & c, int addr, int bits ) { return bits == 16 ? c.data[addr] | c.data[addr + 1] << 8 : c.data[addr]; }
unsigned mask( int hi, int lo ) { return ( ( 2u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ); }

// what the access did, given the bits it may change and their wanted value
void verify( Case & c, Device & d, Io & io, Snapshot const & before, int addr, int bits, unsigned m, unsigned old, unsigned want, bool exact, int most, std::string const & what )
{
    int const size = bits / 8;
    int w[2] = { 0, 0 }, r[2] = { 0, 0 };
    for ( auto & t : io.trace )
    {
        PBT_CHECK( c, t.addr >= addr && t.addr < addr + size, what << " touches another register:" << io.show() );
        int const k = t.addr - addr;
        ++( t.write ? w : r )[k];
        if ( t.write ) PBT_CHECK( c, ( ( t.value ^ old >> 8 * k ) & ~( m >> 8 * k ) & 0xff ) == 0, what << " writes " << hex( t.value ) << ", which changes other bits of " << hex( old ) << ":" << io.show() );
    }
    for ( int k = 0; k < size; ++k ) PBT_CHECK( c, w[k] <= most && r[k] <= most, what << " takes " << r[k] << " reads and " << w[k] << " writes:" << io.show() );
    unsigned const now = content( d.cpu, addr, bits );
    PBT_CHECK( c, ( ( now ^ old ) & ~m ) == 0, what << " turns " << hex( old ) << " into " << hex( now ) << ": other bits change" );
    if ( exact ) PBT_CHECK( c, now == want, what << " turns " << hex( old ) << " into " << hex( now ) << " want " << hex( want ) );
    Snapshot after = before; for ( int k = 0; k < size; ++k ) after.v[addr + k] = d.cpu.data[addr + k];
    int const a = after.differs( d.cpu ); PBT_CHECK( c, !a, what << " changes " << hex( a ) );
}

unsigned gen_old( Gen & g, Device & d, int addr, int bits )
{
    if ( g.coin() ) { d.cpu.data[addr] = g.draw( 255 ); if ( bits == 16 ) d.cpu.data[addr + 1] = g.draw( 255 ); }
    return content( d.cpu, addr, bits );
}

unsigned gen_value( Gen & g, int hi, int lo, bool & beyond )
{
    unsigned const top = ( 2u << ( hi - lo ) ) - 1; unsigned v = g.chance( 1, 4 ) ? top : g.draw( top );
    if ( g.chance( 1, 8 ) ) { v = g.draw( 0xffff ); beyond |= v > top; }
    return v;
}

void one( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    int n = 0, wrote = 0, wide = 0; bool over = false;
    do
    {
        Set const & s = sets[g.draw( sizeof( sets ) / sizeof( *sets ) - 1 )];
        int const hi = g.irange( 0, s.bits - 1 ), lo = s.single ? hi : g.irange( 0, hi );
        bool const bit = hi == lo;
        int op; do op = (int) g.draw( 6 ); while ( !( s.ops >> op & 1 ) || ( op >= 3 && !bit ) );
        unsigned const m = mask( hi, lo ), old = gen_old( g, d, s.addr, s.bits );
        bool beyond = false; unsigned v = op == 1 || op == 2 ? gen_value( g, hi, lo, beyond ) : 0;
        if ( s.bits == 8 ) { v &= 0xff; beyond = beyond && v > ( m >> lo ); }
        static char const * const names[] = { "read of ", "write to ", "deferred write to ", "set of ", "clear of ", "toggle of ", "trigger of " };
        std::ostringstream os; os << d.name << ": " << names[op] << s.name + 4 << " " << hi << ".." << lo; if ( op == 1 || op == 2 ) os << " of " << v;
        std::string const what = os.str(); PBT_LOG( c, what << " holding " << hex( old ) << "; " );
        d.put<uint16_t>( "m_v", v, 0 ); d.put<uint16_t>( "m_r", 0xa55a );
        Snapshot const before( d.cpu );
        io.trace.clear();
        d.call( c, s.name, { { (std::uint64_t) hi, 1 }, { (std::uint64_t) lo, 1 }, { (std::uint64_t) op, 1 } } );
        if ( op == 0 )
        {
            PBT_CHECK( c, io.writes() == 0 && io.reads() > 0, what << " takes " << io.reads() << " reads and " << io.writes() << " writes:" << io.show() );
            unsigned const got = d.get<uint16_t>( "m_r" );
            PBT_CHECK( c, got == ( old & m ) >> lo, what << " holding " << hex( old ) << " gives " << hex( got ) << " want " << hex( ( old & m ) >> lo ) );
            verify( c, d, io, before, s.addr, s.bits, 0, old, old, true, 1, what );
        }
        else
        {
            // a single bit is written as true or false
            unsigned const put = op == 1 && bit ? ( v ? m : 0 ) : op <= 2 ? v << lo & m : op == 3 || op == 6 ? m : op == 4 ? 0 : ~old & m;
            bool const exact = !beyond || ( op == 1 && bit );
            // toggling may read twice, once for each access of its expression
            verify( c, d, io, before, s.addr, s.bits, m, old, ( old & ~m ) | put, exact, 2, what );
            if ( op <= 2 && hi - lo + 1 == s.bits ) PBT_CHECK( c, op == 2 || io.reads() == 0, what << ", the whole register, reads it:" << io.show() );
            int w = io.writes(); PBT_CHECK( c, w >= 1 && w <= s.bits / 8, what << " takes " << w << " writes:" << io.show() );
            ++wrote; over |= beyond;
        }
        wide += s.bits == 16;
        c.cls( "field across both bytes", s.bits == 16 && hi > 7 && lo < 8 ); c.cls( "bit of the high byte", s.single && hi > 7 ); c.cls( "write only", s.addr == 0xc6 );
        c.cls( "clear by writing zero", s.addr == 0x6e && op == 4 ); c.cls( "trigger", op == 6 ); c.cls( "set only", s.addr == 0x70 && op == 3 ); c.cls( "whole by field", hi - lo + 1 == s.bits );
    } while ( g.more( 4, ++n, 20 ) );
    c.nontriv( wrote > 0 ); c.cls( "value beyond the field", over ); c.cls( "16-bit", wide );
}

void many( Gen & g, Case & c )
{
    static int const F[][6] = { { 3,0, 7,4 }, { 15,12, 3,0 }, { 15,15, 0,0 }, { 7,0, 15,8 }, { 11,4, 15,12 }, { 9,6, 5,5 }, { 15,8, 7,4, 3,0 }, { 0,0, 8,8, 15,9 }, { 12,5, 2,1, 14,14 } };
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    int const k = g.irange( 0, 8 ), n = k < 6 ? 2 : 3;
    unsigned const old = gen_old( g, d, 0x88, 16 ); unsigned m = 0, put = 0; bool beyond = false;
    std::ostringstream os; os << d.name << ": combined deferred writes";
    for ( int i = 0; i < n; ++i )
    {
        int const hi = F[k][2 * i], lo = F[k][2 * i + 1]; unsigned const v = gen_value( g, hi, lo, beyond );
        d.put<uint16_t>( "m_v", v, i ); m |= mask( hi, lo ); put |= v << lo & mask( hi, lo );
        os << " " << hi << ".." << lo << "=" << v;
    }
    PBT_LOG( c, os.str() << " to " << hex( old ) );
    Snapshot const before( d.cpu ); io.trace.clear();
    d.call( c, n == 2 ? "pair16" : "triple16", { { (std::uint64_t)( n == 2 ? k : k - 6 ), 1 } } );
    // values beyond their field spill into the other fields written at most
    verify( c, d, io, before, 0x88, 16, m, old, ( old & ~m ) | put, !beyond, 1, os.str() );
    PBT_CHECK( c, io.writes() >= 1, os.str() << " write nothing" );
    c.nontriv( !beyond ); c.cls( "combined", true );
}

void whole( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    static struct { char const * fn; int first, addr, bits; } const W[] = { { "whole8", 0, 0x4a, 8 }, { "whole16", 0, 0x8a, 16 }, { "wholeT", 0, 0x86, 16 }, { "wholeT", 3, 0x4b, 8 } };
    auto const & w = W[g.draw( 3 )];
    int const op = g.irange( 0, 2 ); unsigned const top = w.bits == 16 ? 0xffff : 0xff, v = g.draw( top ), old = gen_old( g, d, w.addr, w.bits );
    std::ostringstream os; os << d.name << ": " << ( op == 0 ? "read of " : op == 1 ? "write to " : "deferred write to " ) << w.fn << " at " << hex( w.addr ); if ( op ) os << " of " << v;
    PBT_LOG( c, os.str() << " holding " << hex( old ) );
    d.put<uint16_t>( "m_v", v, 0 ); d.put<uint16_t>( "m_r", 0xa55a );
    Snapshot const before( d.cpu ); io.trace.clear();
    d.call( c, w.fn, { { (std::uint64_t)( w.first + op ), 1 } } );
    verify( c, d, io, before, w.addr, w.bits, op ? top : 0, old, op ? v : old, true, 1, os.str() );
    if ( op == 0 ) { PBT_CHECK( c, io.writes() == 0 && d.get<uint16_t>( "m_r" ) == old, os.str() << " holding " << hex( old ) << " gives " << hex( d.get<uint16_t>( "m_r" ) ) << ":" << io.show() ); }
    else PBT_CHECK( c, op == 2 || io.reads() == 0, os.str() << " reads the register:" << io.show() );
    if ( op ) PBT_CHECK( c, io.writes() == w.bits / 8, os.str() << " takes " << io.writes() << " writes:" << io.show() );
    c.nontriv( op > 0 ); c.cls( "whole register", true );
}

Suite pbt::suite()
{
    return { "G08",
        "fields of every position and width of 8-bit registers (in and beyond the reach of bit instructions) and of a 16-bit register, of every access policy, each read, written, written deferred (alone, in twos and threes), set, cleared, toggled and triggered as its policy allows; AVR object code (-O2, -Os) in the simulator; access trace, final contents, other bits and other registers against the bit masks. Non-trivial: at least one write.",
        { { "one field", 6, one }, { "combined", 2, many }, { "whole", 1, whole } },
        120000, 20000000, { "16-bit", "field across both bytes", "bit of the high byte", "write only", "clear by writing zero", "trigger", "set only", "whole by field", "value beyond the field", "combined", "whole register" } };
}
