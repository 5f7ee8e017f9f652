// G02: combined deferred writes act as one write of all fields.
// plain
// device: G02_O2 avr/G02.cpp -O2
// device: G02_Os avr/G02.cpp -Os -fno-jump-tables
// fuzz: quick=15000 thorough=400000
#include "fw/mcu_io.hpp"

using namespace pbt;

Device & device( bool small )
{
    static std::map<int,Device *> d;
    auto & p = d[small];
    if ( !p ) p = new Device( small ? "G02_Os" : "G02_O2" );
    return *p;
}

struct Group { std::string name; std::vector<Field> f; };

std::vector<Group> const & groups()
{
    static std::vector<Group> const g = []
    {
        std::vector<Group> r;
        struct { char const * name; std::vector<char const *> f; } const raw[] = {
#define X( n ) #n
#define R( id, ... ) { #id, { __VA_ARGS__ } },
#include "avr/mcu_groups.hpp"
        };
        for ( auto & x : raw )
        {
            Group q; q.name = x.name;
            for ( auto n : x.f ) for ( auto & f : fields() ) if ( std::string( f.name ) == n ) q.f.push_back( f );
            if ( q.f.size() != x.f.size() ) std::abort();
            r.push_back( q );
        }
        return r;
    }();
    return g;
}

void combine( Gen & g, Case & c )
{
    Device & d = device( g.coin() );
    d.reset();
    Io io( d.cpu ); io.randomize( g );
    d.cpu.data[avr::Cpu::SREG] = g.draw( 255 );
    int n = 0; int most = 0; bool beyond = false, marked = false, full = false;
    do
    {
        Group const & G = groups()[g.draw( groups().size() - 1 )];
        int N = G.f.size(), addr = G.f[0].addr;
        int kind = g.irange( 0, 5 ), op = 0, how = 0; std::vector<int> used;
        if ( ( kind == 2 && ( N < 3 || N > 4 ) ) || ( kind == 3 && N < 3 ) ) kind = 1;
        auto other = [&] { for (;;) { int k = g.irange( 0, N - 1 ); bool dup = false; for ( int u : used ) dup |= u == k; if ( !dup ) return k; if ( N <= (int) used.size() ) return -1; } };
        auto pick = [&] { int k = g.irange( 0, N - 1 - (int) used.size() ); for ( int u = 0; u < N; ++u ) { bool dup = false; for ( int x : used ) dup |= x == u; if ( !dup && k-- == 0 ) { used.push_back( u ); return; } } };
        (void) other;
        if ( kind == 0 )
        {
            how = g.irange( 0, 7 ); op = g.irange( 0, N - 1 ); used = { op };
            if ( how == 4 || how == 5 ) used.push_back( ( op + 1 ) % N );
        }
        else if ( kind == 1 ) { pick(); pick(); op = used[0] * N + used[1]; }
        else if ( kind == 2 ) { pick(); pick(); pick(); op = ( used[0] * N + used[1] ) * N + used[2]; }
        else if ( kind == 3 )
        {
            int i = g.irange( 0, N - 1 ), j = g.irange( 0, N - 1 );
            while ( i == j || i == ( j + 1 ) % N ) i = ( i + 1 ) % N;
            used = { i, j, ( j + 1 ) % N }; op = i * N + j;
        }
        else for ( int k = 0; k < N; ++k ) used.push_back( k );
        unsigned M = 0, bits = 0; bool over = false;
        std::vector<unsigned> val( N );
        for ( int k : used )
        {
            Field const & f = G.f[k]; unsigned top = ( 1u << width( f ) ) - 1, v = g.chance( 1, 4 ) ? top : g.draw( top );
            if ( !( kind == 0 && how >= 6 ) && g.chance( 1, 12 ) ) { v = g.draw( 255 ); over |= v > top; }
            if ( kind == 0 && how >= 6 ) v = how == 6;
            val[k] = v; d.put<uint8_t>( "m_v", v, k );
            M |= mask_of( f ); bits |= v << f.lo & mask_of( f );
        }
        static char const * const kinds[] = { "one", "pair", "triple", "pair in parentheses", "all", "all in reverse" };
        PBT_LOG( c, d.name << ": " << kinds[kind] << " (" << how << ")"; for ( int k : used ) c.log << " " << G.f[k].name << "=" << val[k]; c.log << "; " );
        unsigned old = d.cpu.data[addr]; Snapshot before( d.cpu );
        io.trace.clear();
        d.call( c, "g_" + G.name, { { (std::uint64_t) kind, 1 }, { (std::uint64_t) op, 1 }, { (std::uint64_t) how, 1 } } );
        bool marks = kind == 0 && how >= 2 && how <= 5, discarded = marks && ( how == 3 || how == 5 ), plain = kind == 0 && how == 1;
        int phase = 0, r = 0, w = 0;
        for ( auto & t : io.trace )
        {
            if ( marks && t.addr == 0x4b && t.write && ( t.value == 1 || t.value == 2 ) && t.bit < 0 && phase < t.value ) { phase = t.value; continue; }
            PBT_CHECK( c, t.addr == addr, "deferred writes to " << G.name << " touch another register:" << io.show() );
            if ( t.write ) { ++w; PBT_CHECK( c, ( ( t.value ^ old ) & ~M & 0xff ) == 0, "deferred writes to fields " << hex( M ) << " of " << G.name << " holding " << hex( old ) << " write " << hex( t.value ) << ": other bits change" ); } else ++r;
            if ( marks ) PBT_CHECK( c, t.write ? phase == 1 : phase <= 1, "a deferred write in a scope is done at another time than at the end of the scope:" << io.show() );
        }
        if ( discarded ) PBT_CHECK( c, w == 0, "a discarded write to " << G.name << " is carried out:" << io.show() );
        else
        {
            if ( !plain ) PBT_CHECK( c, w == 1 && r <= 1, "deferred writes to " << used.size() << " fields of " << G.name << " make " << r << " reads and " << w << " writes:" << io.show() );
            unsigned now = d.cpu.data[addr], want = ( old & ~M ) | bits;
            if ( plain && used.size() == 1 && width( G.f[used[0]] ) == 1 ) want = ( old & ~M ) | ( val[used[0]] ? M : 0 );
            if ( !over || plain ) PBT_CHECK( c, now == want || ( over && ( ( now ^ old ) & ~M & 0xff ) == 0 ), "deferred writes to fields " << hex( M ) << " of " << G.name << " turn " << hex( old ) << " into " << hex( now ) << " want " << hex( want ) );
            else PBT_CHECK( c, ( ( now ^ old ) & ~M & 0xff ) == 0, "deferred writes to fields " << hex( M ) << " of " << G.name << " turn " << hex( old ) << " into " << hex( now ) );
        }
        Snapshot after = before; after.v[addr] = d.cpu.data[addr]; if ( marks ) after.v[0x4b] = d.cpu.data[0x4b];
        int a = after.differs( d.cpu ); PBT_CHECK( c, !a, "deferred writes to " << G.name << " change " << hex( a ) );
        most = std::max( most, (int) used.size() ); beyond |= over; marked |= marks; full |= kind >= 4;
        c.cls( "discarded", discarded ); c.cls( "combination kept in a variable", marks && how >= 4 ); c.cls( "plain write", plain ); c.cls( "constant value", kind == 0 && how >= 6 ); c.cls( "parenthesised", kind == 3 );
    } while ( g.more( 3, ++n, 12 ) );
    c.nontriv( most >= 2 ); c.cls( "three or more", most >= 3 ); c.cls( "value beyond the field", beyond ); c.cls( "scope end", marked ); c.cls( "all fields", full );
}

Suite pbt::suite()
{
    return { "G02",
        "histories of deferred field writes over 22 registers: single, in a variable with later scope end or discard, ordered pairs, ordered triples, parenthesised groups, all fields in both orders, with random values and register contents; AVR object code (-O2, -Os) in the simulator; access trace, final contents and other bits against the bit masks of the data sheet. Non-trivial: at least one combination.",
        { { "combine", 1, combine } },
        120000, 20000000, { "three or more", "value beyond the field", "scope end", "all fields", "discarded", "combination kept in a variable", "plain write", "constant value", "parenthesised" } };
}
