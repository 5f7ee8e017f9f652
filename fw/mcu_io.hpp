// The I/O space of the ATmega328P seen by device code: random contents, access trace,
// the shared temporary byte of timer 1 and the locked ADC result.
#ifndef MCU_IO_HPP
#define MCU_IO_HPP
#include "fw/device.hpp"

struct Field { char const * name; int addr, hi, lo; char kind; };

inline std::vector<Field> const & fields()
{
    static std::vector<Field> const f = {
#define F( id, type, addr, hi, lo, kind ) { #id, addr, hi, lo, *#kind },
#include "avr/mcu_fields.hpp"
#undef F
    };
    return f;
}
inline int width( Field const & f ) { return f.hi - f.lo + 1; }
inline unsigned mask_of( Field const & f ) { return ( ( 2u << f.hi ) - 1 ) & ~( ( 1u << f.lo ) - 1 ); }
inline std::string hex( unsigned v ) { char b[16]; std::snprintf( b, sizeof b, "0x%02x", v ); return b; }

struct Io
{
    struct Access { int addr; bool write; std::uint8_t value, before; int bit; };
    avr::Cpu & cpu;
    std::vector<Access> trace;
    std::uint8_t temp = 0;                  // timer 1 temporary byte
    int adc_lock = -1;                      // high byte while locked

    explicit Io( avr::Cpu & c ) : cpu( c )
    {
        cpu.on_read = [this]( std::uint16_t a )
        {
            std::uint8_t v = cpu.data[a];
            if ( a == 0x84 || a == 0x86 ) temp = cpu.data[a + 1];
            else if ( a == 0x85 || a == 0x87 ) v = temp;
            else if ( a == 0x78 ) adc_lock = cpu.data[0x79];
            else if ( a == 0x79 ) { if ( adc_lock >= 0 ) v = adc_lock; adc_lock = -1; }
            trace.push_back( { a, false, v, cpu.data[a], -1 } );
            return v;
        };
        cpu.on_write = [this]( std::uint16_t a, std::uint8_t v, int bit )
        {
            trace.push_back( { a, true, v, cpu.data[a], bit } );
            if ( a == 0x85 || a == 0x87 || a == 0x89 || a == 0x8b ) { temp = v; return; }
            if ( a == 0x84 || a == 0x86 || a == 0x88 || a == 0x8a ) cpu.data[a + 1] = temp;
            cpu.data[a] = v;
        };
    }
    ~Io() { cpu.on_read = nullptr; cpu.on_write = nullptr; cpu.on_step = nullptr; }

    void randomize( pbt::Gen & g )
    {
        // few patterns, so that choices shrink well
        int how = g.irange( 0, 3 );
        std::uint64_t s = g.draw( 0xffffffffu ) * 2654435761u + 88172645463325252ull;
        for ( int a = 0x20; a < 0x100; ++a )
        {
            if ( !avr::Cpu::io( a ) ) continue;
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            cpu.data[a] = how == 0 ? 0 : how == 1 ? 0xff : s >> 32;
        }
        temp = s >> 8;
    }
    int reads() const { int n = 0; for ( auto & t : trace ) n += !t.write; return n; }
    int writes() const { int n = 0; for ( auto & t : trace ) n += t.write; return n; }
    std::string show() const
    {
        std::string s;
        for ( auto & t : trace ) s += ( t.write ? " write " : " read " ) + hex( t.addr ) + ( t.write ? "=" : ":" ) + hex( t.value );
        return s;
    }
};

// all I/O contents (without stack pointer and status register)
struct Snapshot
{
    std::uint8_t v[0x100];
    explicit Snapshot( avr::Cpu const & c ) { std::memcpy( v, c.data, sizeof v ); }
    // first I/O address that differs, or 0
    int differs( avr::Cpu const & c ) const { for ( int a = 0x20; a < 0x100; ++a ) if ( avr::Cpu::io( a ) && v[a] != c.data[a] ) return a; return 0; }
};

#endif
