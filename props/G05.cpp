// G05: atomic reads and writes are not interrupted between their bytes; scoped guards restore.
// plain
// device: G05_O1 avr/G05.cpp -O1
// device: G05_O2 avr/G05.cpp -O2
// device: G05_Os avr/G05.cpp -Os
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"
#include <cstring>

using namespace pbt;

Device & device( int k )
{
    static std::map<int,Device *> d;
    auto & p = d[k];
    if ( !p ) p = new Device( k == 0 ? "G05_O2" : k == 1 ? "G05_Os" : "G05_O1" );
    return *p;
}

struct SharedVar { char const * name; int size; bool flt; };
std::vector<SharedVar> const & shared()
{
    using float_ = float;
    static std::vector<SharedVar> const s = {
#define H( id, T, V ) { #id, (int) sizeof( T ), std::is_same<T,float>::value },
        H( vu16, std::uint16_t, ) H( vi16, std::int16_t, ) H( vu32, std::uint32_t, ) H( vi32, std::int32_t, ) H( vu64, std::uint64_t, ) H( vf, float, )
        H( u16, std::uint16_t, ) H( u32, std::uint32_t, ) H( f, float, ) H( u64, std::uint64_t, )
        H( vu8, std::uint8_t, ) H( vi8, std::int8_t, ) H( u8, std::uint8_t, ) H( b, bool, )
        { "pair", 3, false },
    };
    return s;
}

std::uint64_t load( Device & d, std::string const & sym, int size ) { std::uint64_t v = 0; std::memcpy( &v, d.cpu.data + d.image.at( sym ), size ); return v; }
void store( Device & d, std::string const & sym, int size, std::uint64_t v ) { std::memcpy( d.cpu.data + d.image.at( sym ), &v, size ); }

std::uint64_t some( Gen & g, SharedVar const & s )
{
    std::uint64_t all = s.size == 8 ? ~0ull : ( 1ull << 8 * s.size ) - 1;
    if ( std::string( s.name ) == "b" ) return g.draw( 1 );
    if ( s.flt ) { float f = (float) g.irange( -100000, 100000 ) / 64; std::uint32_t u; std::memcpy( &u, &f, 4 ); return u; }
    switch ( g.irange( 0, 3 ) )
    {
    case 0: return g.draw( 255 ) * 0x0101010101010101ull & all;     // every byte the same: a torn value shows
    case 1: return all;
    case 2: return g.draw( 0xffffffffu ) & all;
    default: return ( g.draw( 0xffffffffu ) << 32 | g.draw( 0xffffffffu ) ) & all;
    }
}

// interrupts: before each instruction where one can happen, or before a single one
struct Irq
{
    int at; int seen = 0, fired = 0; bool off_start = false;
    explicit Irq( Gen & g ) : at( g.coin() ? -1 : g.irange( 0, 31 ) ) {}
    bool now( avr::Cpu & c ) { if ( !c.flag( avr::Cpu::I ) || c.delay_irq ) return false; bool r = at < 0 || seen == at; ++seen; fired += r; return r; }
};

void enabled( Gen & g, Device & d, bool on ) { d.cpu.data[avr::Cpu::SREG] = ( g.draw( 127 ) & 0x7f ) | ( on ? 0x80 : 0 ); }

void values( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    int n = 0, hits = 0; bool rd = false, wr = false, one = false, every = false, off = false;
    do
    {
        SharedVar const & s = g.pick( shared() );
        bool read = g.coin(), single = s.size == 1;
        bool on = single ? g.coin() : true;
        std::string S = std::string( "s_" ) + s.name, P = std::string( "p_" ) + s.name;
        std::uint64_t old = some( g, s ), arg = some( g, s ), next = some( g, s );
        store( d, S, s.size, old ); store( d, P, s.size, arg );
        enabled( g, d, on );
        Irq irq( g );
        std::set<std::uint64_t> held{ old }; std::vector<std::uint64_t> seen;
        bool changed_i = false, was = on; std::uint64_t k = 0;
        PBT_LOG( c, d.name << ": " << ( read ? "read " : "write " ) << s.name << " old " << old << " new " << arg << ", interrupt at " << irq.at << ", isr value " << next << "; " );
        Snapshot before( d.cpu );
        d.cpu.on_step = [&]( avr::Cpu & p )
        {
            bool i = p.flag( avr::Cpu::I ); changed_i |= i != was; was = i;
            if ( !irq.now( p ) ) return;
            if ( read )
            {
                std::uint64_t v = std::string( s.name ) == "b" ? !load( d, S, 1 ) : s.flt ? next : ( next + 0x0101010101010101ull * k++ ) & ( s.size == 8 ? ~0ull : ( 1ull << 8 * s.size ) - 1 );
                store( d, S, s.size, v ); held.insert( v );
            }
            else seen.push_back( load( d, S, s.size ) );
        };
        d.call( c, ( read ? "r_" : "w_" ) + std::string( s.name ) );
        d.cpu.on_step = nullptr;
        if ( read )
        {
            std::uint64_t v = load( d, P, s.size );
            PBT_CHECK( c, held.count( v ), "an atomic read of " << s.name << " gives " << v << ", which it never was (" << old << ", handler stores " << next << " ...)" );
        }
        else
        {
            for ( auto v : seen ) PBT_CHECK( c, v == old || v == arg, "a handler sees " << v << " while " << s.name << " changes from " << old << " to " << arg );
            std::uint64_t v = load( d, S, s.size );
            PBT_CHECK( c, v == arg, "an atomic write of " << arg << " to " << s.name << " leaves " << v );
            PBT_CHECK( c, load( d, P, s.size ) == arg, "an atomic write changes its argument" );
        }
        PBT_CHECK( c, d.cpu.flag( avr::Cpu::I ) == on, "interrupts are " << ( on ? "off" : "on" ) << " after atomic access to " << s.name );
        if ( single ) PBT_CHECK( c, !changed_i, "access to the single byte " << s.name << " changes the interrupt flag" );
        int a = before.differs( d.cpu ); PBT_CHECK( c, !a, "atomic access to " << s.name << " changes " << hex( a ) );
        hits += irq.fired > 0 && !single; ( read ? rd : wr ) = true; one |= single; every |= irq.at < 0; off |= single && !on;
    } while ( g.more( 3, ++n, 10 ) );
    c.nontriv( hits > 0 ); c.cls( "read", rd ); c.cls( "write", wr ); c.cls( "single byte", one ); c.cls( "interrupt before every instruction", every ); c.cls( "single byte with interrupts off", off );
}

void sections( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    enabled( g, d, true );
    Irq irq( g );
    int kind = g.irange( 0, 8 ); std::string what;
    std::uint16_t x = g.draw( 0xffff );
    if ( kind == 0 )
    {
        what = "section"; d.put<std::uint16_t>( "m_x", x ); d.put<std::uint16_t>( "m_y", ~x );
        d.cpu.on_step = [&]( avr::Cpu & p ) { if ( !irq.now( p ) ) return; std::uint16_t v = d.get<std::uint16_t>( "m_x" ) + 0x0101; d.put<std::uint16_t>( "m_x", v ); d.put<std::uint16_t>( "m_y", ~v ); };
        d.call( c, what ); d.cpu.on_step = nullptr;
        PBT_CHECK( c, d.get<std::uint16_t>( "m_x1" ) == (std::uint16_t) ~d.get<std::uint16_t>( "m_y1" ), "two values read under a guard do not belong together" );
    }
    else if ( kind == 1 )
    {
        what = "section_w"; std::uint16_t o = g.draw( 0xffff ); bool bad = false;
        d.put<std::uint16_t>( "m_x", o ); d.put<std::uint16_t>( "m_y", ~o ); d.put<std::uint16_t>( "m_x1", x ); d.put<std::uint16_t>( "m_y1", ~x );
        d.cpu.on_step = [&]( avr::Cpu & p ) { if ( irq.now( p ) ) bad |= d.get<std::uint16_t>( "m_x" ) != (std::uint16_t) ~d.get<std::uint16_t>( "m_y" ); };
        d.call( c, what ); d.cpu.on_step = nullptr;
        PBT_CHECK( c, !bad, "a handler sees two values written under a guard that do not belong together" );
        PBT_CHECK( c, d.get<std::uint16_t>( "m_x" ) == x && d.get<std::uint16_t>( "m_y" ) == (std::uint16_t) ~x, "values written under a guard do not arrive" );
    }
    else
    {
        struct { char const * f, * in, * out; int isize, osize; } const t[] = { { "c_u16_u8", "p8", "s_vu16", 1, 2 }, { "c_u32_u16", "p16", "s_vu32", 2, 4 }, { "c_i32_i16", "pi16", "s_vi32", 2, 4 }, { "c_u16_u32", "p32", "s_vu16", 4, 2 }, { "c_f_i16", "pi16", "s_vf", 2, 4 }, { "k_u16", nullptr, "s_vu16", 0, 2 }, { "k_u32", nullptr, "s_vu32", 0, 4 } };
        auto const & q = t[kind - 2]; what = q.f;
        std::uint64_t in = g.draw( 0xffffffffu ), old = g.draw( 0xffffffffu ) & ( ( 1ull << 8 * q.osize ) - 1 ), want = in;
        if ( q.in ) { in &= ( 1ull << 8 * q.isize ) - 1; store( d, q.in, q.isize, in ); want = in; } else want = q.osize == 2 ? 0x1234 : 0x12345678;
        if ( what == "c_i32_i16" ) want = (std::uint32_t)(std::int32_t)(std::int16_t) in;
        if ( what == "c_f_i16" ) { float f = (std::int16_t) in; std::uint32_t u; std::memcpy( &u, &f, 4 ); want = u; }
        want &= ( 1ull << 8 * q.osize ) - 1;
        store( d, q.out, q.osize, old ); bool bad = false; std::uint64_t seen = 0;
        d.cpu.on_step = [&]( avr::Cpu & p ) { if ( !irq.now( p ) ) return; std::uint64_t v = load( d, q.out, q.osize ); if ( v != old && v != want ) { bad = true; seen = v; } };
        d.call( c, what ); d.cpu.on_step = nullptr;
        PBT_CHECK( c, !bad, what << ": a handler sees " << seen << " while the value changes from " << old << " to " << want );
        PBT_CHECK( c, load( d, q.out, q.osize ) == want, what << " of " << in << " leaves " << load( d, q.out, q.osize ) << ", want " << want );
    }
    PBT_LOG( c, d.name << ": " << what << " " << x << ", interrupt at " << irq.at );
    PBT_CHECK( c, d.cpu.flag( avr::Cpu::I ), "interrupts are off after " << what );
    c.nontriv( irq.fired > 0 ); c.cls( "critical section", kind < 2 ); c.cls( "conversion", kind >= 2 && kind < 7 ); c.cls( "constant", kind >= 7 );
}

// a real handler, called where the hardware would
void handler( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    enabled( g, d, true );
    std::uint32_t start = g.coin() ? 0x00fffffe : (std::uint32_t) g.draw( 0xffffffffu ), step = g.coin() ? 1 : (std::uint32_t) g.draw( 0x10000 );
    d.put<std::uint32_t>( "m_count", start ); d.put<std::uint32_t>( "m_step", step );
    int every = g.irange( 1, 40 ), k = 0; std::uint32_t fired = 0; std::uint32_t vec = d.image.at( "__vector_16" );
    PBT_LOG( c, d.name << ": poll from " << start << " step " << step << " interrupt every " << every << " instructions" );
    bool inside = false; std::uint16_t back = 0;
    d.cpu.on_step = [&]( avr::Cpu & p )
    {
        if ( inside ) { if ( p.pc == back ) inside = false; else return; }
        if ( fired < 200 && ++k >= every ) { std::uint16_t pc = p.pc; if ( p.interrupt( vec ) ) { k = 0; inside = true; back = pc; ++fired; } }
    };
    d.call( c, "poll" ); d.cpu.on_step = nullptr;
    std::set<std::uint32_t> can; for ( std::uint32_t i = 0; i <= fired; ++i ) can.insert( start + i * step );
    PBT_CHECK( c, d.get<std::uint32_t>( "m_count" ) == start + fired * step, "after " << fired << " interrupts the counter is " << d.get<std::uint32_t>( "m_count" ) );
    std::uint32_t last = 0;
    for ( int i = 0; i < 8; ++i )
    {
        std::uint32_t v = d.get<std::uint32_t>( "m_out", i );
        PBT_CHECK( c, can.count( v ), "an atomic read gives " << v << ", the counter goes from " << start << " in steps of " << step );
        if ( step ) { PBT_CHECK( c, v - start >= last, "the counter seems to go back" ); last = v - start; }
    }
    PBT_CHECK( c, d.cpu.flag( avr::Cpu::I ), "interrupts are off after polling" );
    c.nontriv( fired > 1 ); c.cls( "handler" ); c.cls( "handler often", fired > 20 );
}

void status( Gen & g, Case & c )
{
    Device & d = device( g.irange( 0, 2 ) );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    char const * const f[] = { "sreg_asm", "sreg_cli", "sreg_sei", "sreg_none", "sreg_count", "sreg_write", "sreg_bits", "sreg_nested", "sreg_guard" };
    int k = g.irange( 0, 8 ); unsigned s = g.draw( 255 ), v = g.draw( 255 );
    d.put<std::uint8_t>( "m_k", v ); d.cpu.data[avr::Cpu::SREG] = s;
    PBT_LOG( c, d.name << ": " << f[k] << " with " << hex( s ) << ", " << hex( v ) );
    d.call( c, f[k] );
    unsigned r = d.cpu.data[avr::Cpu::SREG];
    PBT_CHECK( c, r == s, f[k] << ": the status register was " << hex( s ) << " and is " << hex( r ) << " after the scope" );
    if ( k == 7 ) PBT_CHECK( c, d.get<std::uint8_t>( "m_k" ) == v, "the inner scope does not restore " << hex( v ) << " but " << hex( d.get<std::uint8_t>( "m_k" ) ) );
    c.nontriv( k != 3 ); c.cls( "status register", true ); c.cls( "nested status scopes", k == 7 );
}

Suite pbt::suite()
{
    return { "G05",
        "atomic reads and writes of 15 shared variables (1 to 8 bytes, volatile and not), converting writes, guarded sections and status register scopes in AVR object code (-O1, -O2, -Os); an interrupt handler that replaces or inspects the value runs before every instruction where interrupts are enabled, or before a single one; a real device handler advances a counter that is polled. A value read must be one the variable held; a handler must see the old or the new value; the interrupt flag afterwards. Non-trivial: an interrupt happened during the access (status register: the scope changes it).",
        { { "values", 5, values }, { "sections", 2, sections }, { "handler", 1, handler }, { "status", 1, status } },
        200000, 30000000, { "read", "write", "single byte", "interrupt before every instruction", "single byte with interrupts off", "critical section", "conversion", "constant", "handler", "handler often", "status register", "nested status scopes" } };
}
