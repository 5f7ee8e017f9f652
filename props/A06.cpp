// A06: computations on the microcontroller are not disturbed by computations in interrupt handlers.
// plain
// device: a06_O2 avr/A06.cpp -O2
// device: a06_Os avr/A06.cpp -Os
// device: a06_O0 avr/A06.cpp -O0 -DSMALL
// fuzz: quick=4000 thorough=100000
#include "fw/device.hpp"

using namespace pbt;

Device & device( int k )
{
    static Device * d[3]; static char const * const name[] = { "a06_O2", "a06_Os", "a06_O0" };
    if ( !d[k] ) d[k] = new Device( name[k] );
    return *d[k];
}

struct Slot { std::uint8_t kind, op, n, pad; std::int32_t in[26], out[16]; };
static_assert( sizeof( Slot ) == 172, "" );
char const * const what[] = { "complex", "complex in place", "2x2 float", "matrices float", "2x2 fixed", "matrices fixed", "fixed point", "conversion", "filter float", "filter fixed", "response and roots", "estimator float", "estimator fixed" };

Slot make( Gen & g, bool small )
{
    Slot s; std::memset( &s, 0, sizeof s );
    s.kind = (std::uint8_t) g.draw( small ? 10 : 12 ); s.op = (std::uint8_t) g.draw( 7 ); s.n = (std::uint8_t) g.irange( 1, 11 );
    bool const fixed = s.kind == 4 || s.kind == 5 || s.kind == 6 || s.kind == 9 || s.kind == 12;
    int const shape = (int) g.draw( 2 );
    for ( auto & v : s.in )
    {
        double const d = shape == 0 ? (double) g.irange( -3, 3 ) : shape == 1 ? g.uniform( -2, 2 ) : g.uniform( -20, 20 );
        if ( fixed ) v = (std::int32_t) std::lround( d * 65536 ); else { float f = (float) d; std::memcpy( &v, &f, 4 ); }
    }
    for ( auto & v : s.out ) v = 0x5a5a5a5a;
    return s;
}

std::string str( Slot const & s ) { std::ostringstream os; os << what[s.kind] << "/" << (int) s.op << " n=" << (int) s.n << " on"; for ( int i = 0; i < 26; ++i ) os << " " << s.in[i]; return os.str(); }

void interrupted( Gen & g, Case & c )
{
    int const build = (int) g.draw( 2 );
    Device & d = device( build );
    Slot s[3]; for ( auto & e : s ) e = make( g, build == 2 );
    if ( g.coin() ) { s[1].kind = s[0].kind; if ( g.coin() ) s[1].op = s[0].op; }            // the same computation on other operands
    if ( g.chance( 1, 3 ) ) { s[2].kind = s[1].kind; s[2].op = s[1].op; }
    // there is memory for one estimator at a time
    int big = -1; for ( int i = 0; i < 3; ++i ) if ( s[i].kind >= 11 ) { if ( big >= 0 ) s[i].kind -= 11; else big = i; }
    std::uint32_t const at = d.image.at( "m_slot" ), a_handler = d.image.at( "__vector_14" ), b_handler = d.image.at( "__vector_15" ), end = d.image.at( "_end" );
    Slot alone[3]; std::uint64_t took[3];
    PBT_LOG( c, d.name << "\n  main " << str( s[0] ) << "\n  handler " << str( s[1] ) << "\n  inner handler " << str( s[2] ) );
    for ( int i = 0; i < 3; ++i )
    {
        d.reset();
        std::memcpy( d.cpu.data + at, s, sizeof s );
        d.call( c, "run", { { (std::uint64_t) i, 1 } } );
        took[i] = d.cpu.steps;
        std::memcpy( &alone[i], d.cpu.data + at + i * sizeof( Slot ), sizeof( Slot ) );
    }
    // pending from these instructions on
    std::vector<std::uint64_t> ta, tb;
    int const na = g.irange( 1, 3 ), nb = g.irange( 0, 2 );
    for ( int i = 0; i < na; ++i ) ta.push_back( g.draw( took[0] - 1 ) );
    for ( int i = 0; i < nb; ++i ) tb.push_back( ta[0] + g.draw( g.coin() ? took[1] + 20 : took[0] + took[1] ) );
    std::sort( ta.begin(), ta.end() ); std::sort( tb.begin(), tb.end() );
    std::string sched = "handler due at"; for ( auto t : ta ) sched += " " + std::to_string( t ); sched += ", inner handler at"; for ( auto t : tb ) sched += " " + std::to_string( t );
    PBT_LOG( c, "\n  " << sched );
    d.reset();
    std::memcpy( d.cpu.data + at, s, sizeof s );
    std::size_t ia = 0, ib = 0; int inside = 0, nested = 0; std::uint16_t low = 0x8ff;
    std::vector<std::uint16_t> depth;                   // the stack pointers to which running handlers return
    d.cpu.data[avr::Cpu::SREG] |= 0x80;
    d.cpu.on_step = [&]( avr::Cpu & cpu )
    {
        low = std::min( low, cpu.sp() );
        while ( !depth.empty() && cpu.sp() >= depth.back() ) depth.pop_back();
        std::uint16_t const sp = cpu.sp();
        if ( ib < tb.size() && cpu.steps > tb[ib] && cpu.interrupt( b_handler ) ) { ++ib; nested += !depth.empty(); depth.push_back( sp ); }
        else if ( ia < ta.size() && cpu.steps > ta[ia] && depth.empty() && cpu.interrupt( a_handler ) ) { ++ia; ++inside; depth.push_back( sp ); }
    };
    std::string fault;
    try { d.cpu.call( d.image.at( "run" ), { { 0, 1 } } ); } catch ( avr::Fault const & e ) { fault = e.what(); }
    d.cpu.on_step = nullptr;
    if ( low >= end + 8 ) PBT_CHECK( c, fault.empty(), d.name << ": " << fault << "; " << sched );
    if ( low < end + 8 ) { c.cls( "stack too deep for the memory: not judged" ); return; }
    static char const * const who[] = { "the interrupted computation", "the computation in the handler", "the computation in the inner handler" };
    for ( int i = 0; i < 3; ++i )
    {
        if ( ( i == 1 && !ia ) || ( i == 2 && !ib ) ) continue;
        Slot got; std::memcpy( &got, d.cpu.data + at + i * sizeof( Slot ), sizeof( Slot ) );
        for ( int k = 0; k < 16; ++k )
            PBT_CHECK( c, got.out[k] == alone[i].out[k], d.name << ": result " << k << " of " << who[i] << " (" << what[s[i].kind] << "/" << (int) s[i].op << ") is " << got.out[k] << " (bits) but alone " << alone[i].out[k] << "; main program " << what[s[0].kind] << "/" << (int) s[0].op << ", handler " << what[s[1].kind] << "/" << (int) s[1].op << ", inner " << what[s[2].kind] << "/" << (int) s[2].op << "; " << sched );
        PBT_CHECK( c, std::memcmp( got.in, s[i].in, sizeof got.in ) == 0, d.name << ": " << who[i] << " changes operands of its own or others" );
    }
    bool any = false; for ( int k = 0; k < 16; ++k ) any = any || ( alone[0].out[k] != 0x5a5a5a5a && alone[0].out[k] != 0 );
    c.nontriv( inside > 0 && any );
    c.cls( "interrupted handler", nested > 0 ); c.cls( "the same computation", s[0].kind == s[1].kind && s[0].op == s[1].op ); c.cls( what[s[0].kind], inside > 0 ); c.cls( "not optimised", build == 2 );
    c.cls( "interrupted more than once", ia > 1 );
}

Suite pbt::suite()
{
    return { "A06",
        "computations of 13 kinds (complex numbers, matrices, fixed point, conversions, filters, responses and roots, estimators) compiled by avr-g++ at -O2, -Os and (without estimators) -O0 and run in the simulator, interrupted before generated instructions by up to three runs of a handler that computes with other operands and that may be interrupted itself; every result is compared bit by bit with the same computation alone. Non-trivial: interrupted inside, and a result that is not zero.",
        { { "interrupted", 1, interrupted } },
        30000, 1000000,
        { "interrupted handler", "the same computation", "not optimised", "interrupted more than once", "complex", "complex in place", "2x2 float", "matrices float", "2x2 fixed", "matrices fixed", "fixed point", "conversion", "filter float", "filter fixed", "response and roots", "estimator float", "estimator fixed" } };
}
