// G01: register fields name exactly the documented bits and leave others alone.
// plain
// device: G01_O2 avr/G01.cpp -O2
// device: G01_Os avr/G01.cpp -Os
// fuzz: quick=12000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( bool small )
{
    static std::map<int,Device *> d;
    auto & p = d[small];
    if ( !p ) p = new Device( small ? "G01_Os" : "G01_O2" );
    return *p;
}

int reg_value( avr::Cpu const & c, Field const & f ) { return f.hi > 7 ? c.data[f.addr] | c.data[f.addr + 1] << 8 : c.data[f.addr]; }

char const * const opname[] = { "read", "write", "deferred write", "set", "clear", "toggle" };

void history( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    // a clock that keeps running while the device code reads
    int rate = g.irange( 0, 2 ); std::uint32_t noise = g.draw( 0xffff );
    std::set<int> seen_tcnt, seen_icr, seen_adc;
    auto note = [&] { seen_tcnt.insert( d.cpu.data[0x84] | d.cpu.data[0x85] << 8 ); seen_icr.insert( d.cpu.data[0x86] | d.cpu.data[0x87] << 8 ); seen_adc.insert( d.cpu.data[0x78] | d.cpu.data[0x79] << 8 ); };
    int n = 0; bool over = false, wide = false, live = false, wrote = false;
    do
    {
        Field const & f = fields()[g.draw( fields().size() - 1 )];
        bool can_write = f.kind == 'W' || f.kind == 'T' || f.kind == 'E', single = f.hi == f.lo;
        // a lone access of the low byte of a timer register moves the temporary byte, of the high byte not at all
        bool half = f.addr >= 0x84 && f.addr <= 0x8b && f.hi == 7;
        int op = 0;
        if ( can_write && g.chance( 3, 4 ) ) op = f.kind == 'E' ? 1 : single && f.kind == 'W' ? g.irange( 1, 5 ) : g.irange( 1, 2 );
        unsigned m = mask_of( f ), top = ( 1u << width( f ) ) - 1;
        unsigned v = g.chance( 1, 4 ) ? top : g.draw( top );
        bool beyond = false;
        if ( op == 1 && width( f ) > 1 && width( f ) < 8 && g.chance( 1, 5 ) ) { v = g.draw( 255 ); beyond = v > top; }
        PBT_LOG( c, d.name << ": " << f.name << " " << opname[op]; if ( op == 1 || op == 2 ) c.log << " " << v; c.log << "; " );
        d.put<uint16_t>( "m_v", v ); d.put<uint16_t>( "m_r", 0xa55a );
        Snapshot before( d.cpu ); unsigned old = reg_value( d.cpu, f );
        std::uint8_t temp0 = io.temp;
        io.trace.clear(); io.adc_lock = -1;
        seen_tcnt.clear(); seen_icr.clear(); seen_adc.clear(); note();
        bool running = op == 0 && rate && ( f.kind == 'T' || f.kind == 'A' );
        if ( running ) d.cpu.on_step = [&]( avr::Cpu & cpu )
        {
            noise = noise * 1103515245u + 12345u;
            if ( rate == 1 && ( noise >> 16 & 1 ) ) return;
            int t = ( cpu.data[0x84] | cpu.data[0x85] << 8 ) + 1 + ( noise >> 20 & 0x1ff ); cpu.data[0x84] = t; cpu.data[0x85] = t >> 8;
            t = ( cpu.data[0x86] | cpu.data[0x87] << 8 ) + 255; cpu.data[0x86] = t; cpu.data[0x87] = t >> 8;
            if ( io.adc_lock < 0 ) { cpu.data[0x78] = noise >> 8; cpu.data[0x79] = noise >> 17 & 3; }
            note();
        };
        d.call( c, std::string( "f_" ) + f.name, { { (std::uint64_t) op, 1 } } );
        d.cpu.on_step = nullptr;
        unsigned got = d.get<uint16_t>( "m_r" );

        int size = f.hi > 7 ? 2 : 1;
        for ( auto & t : io.trace ) PBT_CHECK( c, t.addr >= f.addr && t.addr < f.addr + size, "accessing " << f.name << " touches another register:" << io.show() );
        if ( op == 0 )
        {
            PBT_CHECK( c, io.writes() == 0, "reading " << f.name << " writes:" << io.show() );
            PBT_CHECK( c, io.reads() > 0, "reading " << f.name << " does not access the register" );
            if ( running )
            {
                auto & s = f.addr == 0x84 ? seen_tcnt : f.addr == 0x86 ? seen_icr : seen_adc;
                if ( f.addr < 0x88 ) PBT_CHECK( c, s.count( got ), "reading " << f.name << " gives " << hex( got ) << ", a value the register never had" );
                else PBT_CHECK( c, got == old, "reading " << f.name << " gives " << hex( got ) << " want " << hex( old ) );
                live = true;
            }
            else if ( half && ( f.addr == 0x85 || f.addr == 0x87 ) ) PBT_CHECK( c, got == temp0, "reading " << f.name << " gives " << hex( got ) << " want " << hex( temp0 ) );
            else PBT_CHECK( c, got == ( old & m ) >> f.lo, "reading " << f.name << " of a register holding " << hex( old ) << " gives " << hex( got ) << " want " << hex( ( old & m ) >> f.lo ) );
            if ( !running ) { int a = before.differs( d.cpu ); PBT_CHECK( c, !a, "reading " << f.name << " changes " << hex( a ) ); }
        }
        else
        {
            wrote = true;
            unsigned bits = op == 3 ? m : op == 4 ? 0 : op == 5 ? ~old & m : single ? ( v ? m : 0 ) : v << f.lo & m;
            unsigned want = ( old & ~m ) | bits;
            if ( size == 1 )
                for ( auto & t : io.trace ) if ( t.write && !half ) PBT_CHECK( c, ( ( t.value ^ old ) & ~m & 0xff ) == 0, "" << opname[op] << " of " << f.name << " writes " << hex( t.value ) << " to a register holding " << hex( old ) << ": other bits change" );
            if ( half )
            {
                bool ok = io.writes() == 1 && io.trace.back().write && io.trace.back().value == v;
                PBT_CHECK( c, ok, "" << opname[op] << " of " << f.name << " writes" << io.show() << ", want " << hex( v ) );
                continue;
            }
            if ( !beyond ) PBT_CHECK( c, (unsigned) reg_value( d.cpu, f ) == want, "" << opname[op] << " " << v << " to " << f.name << " turns " << hex( old ) << " into " << hex( reg_value( d.cpu, f ) ) << " want " << hex( want ) << ":" << io.show() );
            else PBT_CHECK( c, ( (unsigned) reg_value( d.cpu, f ) & ~m & 0xff ) == ( old & ~m & 0xff ), "" << opname[op] << " " << v << " to " << f.name << " changes other bits: " << hex( old ) << " into " << hex( reg_value( d.cpu, f ) ) );
            Snapshot after( d.cpu );
            for ( int k = 0; k < size; ++k ) after.v[f.addr + k] = before.v[f.addr + k];
            for ( int a = 0x20; a < 0x100; ++a ) if ( avr::Cpu::io( a ) ) PBT_CHECK( c, after.v[a] == before.v[a], "" << opname[op] << " of " << f.name << " changes " << hex( a ) );
            over |= beyond;
        }
        wide |= size == 2;
        c.cls( "set, clear or toggle", op >= 3 ); c.cls( "deferred", op == 2 ); c.cls( "low I/O bit", op > 0 && single && f.addr < 0x40 ); c.cls( "pin read", f.kind == 'I' ); c.cls( "flag read", f.kind == 'C' );
    } while ( g.more( 4, ++n, 20 ) );
    c.nontriv( wrote ); c.cls( "value beyond the field", over ); c.cls( "16-bit", wide ); c.cls( "running counter", live );
}

// status register and register file, which live in the data space too
void core( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    avr::Cpu & cpu = d.cpu;
    int s = g.draw( 255 );
    switch ( g.draw( 5 ) )
    {
    case 0: case 1:
        {
            // the interrupt-enable and copy bits, which ordinary instructions leave alone
            char b = g.coin() ? 'I' : 'T'; int m = b == 'I' ? 0x80 : 0x40, v = g.draw( 1 );
            std::string f = std::string( "sreg_" ) + ( b == 'I' ? "7" : "6" );
            int op = g.irange( 0, 4 ); cpu.data[avr::Cpu::SREG] = s;
            PBT_LOG( c, d.name << ": SREG " << b << " op " << op << " value " << v << " with SREG " << hex( s ) );
            char const * const suffix[] = { "_read", "_write", "_set", "_clear", "_toggle" };
            d.call( c, f + suffix[op], op == 1 ? std::vector<avr::Cpu::Arg>{ { (std::uint64_t) v, 1 } } : std::vector<avr::Cpu::Arg>{} );
            int now = cpu.data[avr::Cpu::SREG];
            if ( op == 0 ) PBT_CHECK( c, (int) cpu.result( 1 ) == ( ( s & m ) != 0 ), "SREG " << b << " of " << hex( s ) << " reads " << cpu.result( 1 ) );
            int want = op == 0 ? s & m : op == 1 ? ( v ? m : 0 ) : op == 2 ? m : op == 3 ? 0 : ~s & m;
            PBT_CHECK( c, ( now & m ) == want, "SREG " << b << ": " << hex( s ) << " becomes " << hex( now ) );
            PBT_CHECK( c, ( now & 0xc0 & ~m ) == ( s & 0xc0 & ~m ), "SREG " << b << " operation changes another bit: " << hex( s ) << " becomes " << hex( now ) );
            c.cls( "SREG bit", true );
        }
        break;
    case 2:
        {
            // a bit of the status register that the operation finds and leaves: look at the accesses themselves
            static char const * const names[] = { "_read", "_write", "_set", "_clear", "_toggle" };
            int b = g.irange( 0, 7 ), op = g.irange( 0, 4 ), v = g.draw( 1 ), m = 1 << b; cpu.data[avr::Cpu::SREG] = s;
            int in = -1, out = -1; bool pending = false;
            cpu.on_step = [&]( avr::Cpu & p )
            {
                std::uint16_t w = p.flash[p.pc];
                if ( pending ) { out = p.data[avr::Cpu::SREG]; pending = false; }
                if ( ( w & 0xfe0f ) == 0xb60f ) in = p.data[avr::Cpu::SREG];
                if ( ( w & 0xfe0f ) == 0xbe0f ) pending = true;
            };
            PBT_LOG( c, d.name << ": SREG bit " << b << names[op] << " value " << v << " with SREG " << hex( s ) );
            d.call( c, "sreg_" + std::to_string( b ) + names[op], op == 1 ? std::vector<avr::Cpu::Arg>{ { (std::uint64_t) v, 1 } } : std::vector<avr::Cpu::Arg>{} );
            if ( in < 0 || ( op > 0 && out < 0 ) ) throw Discard();             // done in another way
            if ( op == 0 ) PBT_CHECK( c, (int) cpu.result( 1 ) == ( ( in & m ) != 0 ), "bit " << b << " of SREG " << hex( in ) << " reads " << cpu.result( 1 ) );
            else { int want = op == 1 ? ( v ? in | m : in & ~m ) : op == 2 ? in | m : op == 3 ? in & ~m : in ^ m; PBT_CHECK( c, out == want, "bit " << b << " of SREG " << hex( in ) << names[op] << ": becomes " << hex( out ) ); }
        }
        break;
    case 3:
        {
            bool w = g.coin();
            PBT_LOG( c, d.name << ": whole SREG " << ( w ? "write " : "read " ) << hex( s ) );
            if ( w ) { d.call( c, "sreg_write", { { (std::uint64_t) s, 1 } } ); PBT_CHECK( c, cpu.data[avr::Cpu::SREG] == s, "SREG is " << hex( cpu.data[avr::Cpu::SREG] ) ); }
            else { cpu.data[avr::Cpu::SREG] = s; d.call( c, "sreg_read" ); PBT_CHECK( c, (int)( cpu.result( 1 ) & 0xc0 ) == ( s & 0xc0 ), "SREG reads " << hex( cpu.result( 1 ) ) ); }
        }
        break;
    case 4:
        {
            int which = g.irange( 0, 2 ); std::set<int> sps;
            cpu.on_step = [&]( avr::Cpu & p ) { sps.insert( p.sp() ); };
            int const start = cpu.sp();
            d.call( c, which == 0 ? "sp_read" : which == 1 ? "spl_read" : "sph_read" );
            int r = cpu.result( which ? 1 : 2 ); bool ok = false;
            for ( int x : sps ) ok |= r == ( which == 0 ? x : which == 1 ? x & 255 : x >> 8 );
            PBT_LOG( c, d.name << ": stack pointer " << hex( start ) << " part " << which );
            PBT_CHECK( c, ok, "the stack pointer " << hex( start ) << " reads " << hex( r ) );
            PBT_CHECK( c, cpu.sp() == start, "reading the stack pointer changes it" );
            c.cls( "stack pointer", true );
        }
        break;
    default:
        {
            int r = g.irange( 2, 18 ), op = g.draw( 1 ); unsigned v = g.draw( r == 18 ? 0xffff : 0xff );
            int at = r == 18 ? 28 : r, size = r == 18 ? 2 : 1;
            std::string f = r == 18 ? "y" : "r" + std::to_string( r );
            for ( int i = 2; i < 18; ++i ) cpu.data[i] = g.draw( 255 );
            cpu.data[28] = g.draw( 255 ); cpu.data[29] = g.draw( 255 );
            std::uint8_t old[32]; std::memcpy( old, cpu.data, 32 );
            PBT_LOG( c, d.name << ": " << f << ( op ? " write " : " read " ) << v );
            if ( op ) d.call( c, f + "_write", { { v, size } } ); else d.call( c, f + "_read" );
            if ( op ) { for ( int k = 0; k < size; ++k ) old[at + k] = v >> 8 * k; }
            else PBT_CHECK( c, cpu.result( size ) == ( size == 2 ? old[28] | old[29] << 8u : old[at] ), f << " reads " << hex( cpu.result( size ) ) );
            for ( int i = 2; i < 30; i = i == 17 ? 28 : i + 1 ) PBT_CHECK( c, cpu.data[i] == old[i], f << ( op ? " write " : " read " ) << "leaves r" << i << " as " << hex( cpu.data[i] ) << " want " << hex( old[i] ) );
            c.cls( "register file", true );
        }
        break;
    }
    PBT_CHECK( c, io.trace.empty(), "I/O register accessed:" << io.show() );
    c.nontriv( true );
}

void masks( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    int op = g.irange( 0, 14 ); bool wide = op >= 8; int top = wide ? 15 : 7; unsigned all = wide ? 0xffff : 0xff;
    int i = g.irange( 0, top ), j = g.irange( 0, top ), k = g.irange( 0, top ); unsigned v = g.draw( all );
    if ( op == 4 || op == 5 || op == 10 || op == 11 ) if ( j > i ) std::swap( i, j );
    PBT_LOG( c, d.name << ": mask operation " << op << " bits " << i << "," << j << "," << k << " value " << v );
    d.put<uint8_t>( "m_i", i ); d.put<uint8_t>( "m_j", j ); d.put<uint8_t>( "m_k", k ); d.put<uint16_t>( "m_v", v );
    d.call( c, "masks", { { (std::uint64_t) op, 1 } } );
    unsigned one = 1u << i, two = one | 1u << j, three = two | 1u << k, rng = 0, want = 0;
    for ( int b = j; b <= i; ++b ) rng |= 1u << b;
    switch ( op )
    {
    case 0: want = one; break;
    case 1: case 8: want = two; break;
    case 2: want = three; break;
    case 3: want = ~two; break;
    case 9: want = ~three; break;
    case 4: case 10: want = rng; break;
    case 5: case 11: want = ~rng; break;
    case 6: case 12: want = v << i; break;
    case 7: case 13: want = v >> i; break;
    case 14: want = 8 + 256 * 16; all = 0xffff; break;
    }
    PBT_CHECK( c, d.get<uint16_t>( "m_r" ) == ( want & all ), "mask operation " << op << " with " << i << "," << j << "," << k << " value " << v << " gives " << hex( d.get<uint16_t>( "m_r" ) ) << " want " << hex( want & all ) );
    c.nontriv( true );
}

void addresses( Gen & g, Case & c )
{
    struct E { char const * name; int addr; };
    static std::vector<E> const e = {
#define A( id, name, addr ) { #name, addr },
#include "avr/mcu_addresses.hpp"
#undef A
    };
    Device & d = device( g.coin() ); d.reset();
    int i = g.draw( e.size() - 1 );
    PBT_LOG( c, d.name << ": " << e[i].name );
    PBT_CHECK( c, d.get<uint16_t>( "m_addr", i ) == e[i].addr, e[i].name << " is " << hex( d.get<uint16_t>( "m_addr", i ) ) << " want " << hex( e[i].addr ) );
}

Suite pbt::suite()
{
    return { "G01",
        "histories of reads, writes, deferred writes, sets, clears and toggles over all named fields (some 240) with random register contents, executed by AVR object code (-O2, -Os) in the simulator, against a hand-written table of the data sheet; counters and the ADC keep running during 16-bit reads. Also status register, stack pointer, register file, mask functions and address constants. Non-trivial: at least one write.",
        { { "fields", 12, history }, { "core", 4, core }, { "masks", 2, masks }, { "addresses", 1, addresses } },
        120000, 2500000, { "set, clear or toggle", "deferred", "low I/O bit", "pin read", "flag read", "value beyond the field", "16-bit", "running counter", "SREG bit", "stack pointer", "register file" } };
}
