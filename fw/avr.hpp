// Instruction-set simulator of the AVR5 core (ATmega328P data space), for running the device code of /repo.
// Peripherals are supplied by the user as read and write handlers of the I/O space 0x20..0xFF.
#ifndef AVR_HPP
#define AVR_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#ifdef PBT_FUZZ
__attribute__(( section( "__libfuzzer_extra_counters" ), used )) static unsigned char avr_edges[1 << 13];    // coverage of the device code
#endif

namespace avr {

struct Fault : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- program image

struct Image
{
    std::vector<std::uint16_t> flash = std::vector<std::uint16_t>( 65536, 0xffff );
    std::map<std::string,std::uint32_t> symbol;         // byte address; data addresses without the 0x800000 offset
    std::map<std::string,std::uint32_t> size;

    static Image load( std::string const & path )
    {
        Image im;
        FILE * f = std::fopen( path.c_str(), "rb" );
        if ( !f ) throw std::runtime_error( "cannot open " + path );
        std::vector<unsigned char> b; unsigned char buf[65536]; std::size_t n;
        while ( ( n = std::fread( buf, 1, sizeof buf, f ) ) > 0 ) b.insert( b.end(), buf, buf + n );
        std::fclose( f );
        auto u16 = [&]( std::size_t o ) { return (std::uint32_t) b.at( o ) | b.at( o + 1 ) << 8; };
        auto u32 = [&]( std::size_t o ) { return u16( o ) | u16( o + 2 ) << 16; };
        if ( b.size() < 52 || std::memcmp( b.data(), "\177ELF", 4 ) || u16( 18 ) != 83 ) throw std::runtime_error( path + " is not an AVR ELF file" );
        std::uint32_t phoff = u32( 28 ), shoff = u32( 32 ), phnum = u16( 44 ), shnum = u16( 48 );
        for ( std::uint32_t i = 0; i < phnum; ++i )
        {
            std::size_t h = phoff + i * 32;
            if ( u32( h ) != 1 ) continue;
            std::uint32_t off = u32( h + 4 ), paddr = u32( h + 12 ), sz = u32( h + 16 );
            if ( paddr >= 0x800000 ) continue;
            for ( std::uint32_t k = 0; k < sz; ++k )
            {
                std::uint32_t a = paddr + k; auto & w = im.flash.at( a / 2 );
                w = a & 1 ? ( w & 0x00ff ) | b.at( off + k ) << 8 : ( w & 0xff00 ) | b.at( off + k );
            }
        }
        for ( std::uint32_t i = 0; i < shnum; ++i )
        {
            std::size_t h = shoff + i * 40;
            if ( u32( h + 4 ) != 2 ) continue;
            std::uint32_t off = u32( h + 16 ), sz = u32( h + 20 ), link = u32( h + 24 ), str = u32( shoff + link * 40 + 16 );
            for ( std::uint32_t s = 0; s < sz / 16; ++s )
            {
                std::string name = (char const *) &b.at( str + u32( off + s * 16 ) );
                if ( name.empty() ) continue;
                im.symbol[name] = u32( off + s * 16 + 4 ) & 0x7fffff; im.size[name] = u32( off + s * 16 + 8 );
            }
        }
        return im;
    }
    std::uint32_t at( std::string const & s ) const
    {
        auto i = symbol.find( s );
        if ( i == symbol.end() ) throw std::runtime_error( "no symbol " + s );
        return i->second;
    }
    bool has( std::string const & s ) const { return symbol.count( s ) != 0; }
};

// ---- the core

struct Cpu
{
    Image const * image;
    std::uint16_t const * flash;
    std::uint8_t data[0x900];
    std::uint16_t pc = 0;
    std::uint64_t steps = 0, limit = 20000000;
    int delay_irq = 0;                                  // no interrupt before the next instruction (after SEI and RETI)

    // handlers for I/O addresses (data space 0x20..0xFF, but not SP and SREG); bit: 0-7 for SBI and CBI, -1 else
    std::function<std::uint8_t( std::uint16_t )> on_read;
    std::function<void( std::uint16_t, std::uint8_t, int )> on_write;
    std::function<void( Cpu & )> on_step;               // before each instruction
    std::function<void( std::uint16_t, bool )> on_data; // SRAM byte access (address, write)

    enum { SREG = 0x5f, SPL = 0x5d, SPH = 0x5e, TOP = 0x8ff, STOP = 0xffff };
    enum { C, Z, N, V, S, H, T, I };

    explicit Cpu( Image const & im ) : image( &im ), flash( im.flash.data() ) { std::memset( data, 0, sizeof data ); sp( TOP ); }

    std::uint16_t sp() const { return data[SPL] | data[SPH] << 8; }
    void sp( std::uint16_t v ) { data[SPL] = v & 255; data[SPH] = v >> 8; }
    bool flag( int f ) const { return data[SREG] >> f & 1; }
    void flag( int f, bool v ) { if ( v ) data[SREG] |= 1 << f; else data[SREG] &= ~( 1 << f ); }

    [[noreturn]] void fault( std::string const & m ) const { char b[64]; std::snprintf( b, sizeof b, " (pc 0x%04x, %llu steps)", pc * 2, (unsigned long long) steps ); throw Fault( m + b ); }

    static bool io( std::uint16_t a ) { return a >= 0x20 && a < 0x100 && a != SREG && a != SPL && a != SPH; }
    std::uint8_t rd( std::uint16_t a )
    {
        if ( a >= 0x900 ) fault( "read outside the data space" );
        if ( io( a ) ) { if ( on_read ) return on_read( a ); }
        else if ( a >= 0x100 && on_data ) on_data( a, false );
        return data[a];
    }
    void wr( std::uint16_t a, std::uint8_t v, int bit = -1 )
    {
        if ( a >= 0x900 ) fault( "write outside the data space" );
        if ( io( a ) ) { if ( on_write ) { on_write( a, v, bit ); return; } }
        else if ( a >= 0x100 && on_data ) on_data( a, true );
        if ( a == SREG && !( data[SREG] & 0x80 ) && ( v & 0x80 ) ) delay_irq = 1;
        data[a] = v;
    }
    void push( std::uint8_t v ) { std::uint16_t s = sp(); if ( s >= 0x900 || s < 0x100 ) fault( "stack outside SRAM" ); data[s] = v; sp( s - 1 ); }
    std::uint8_t pop() { std::uint16_t s = sp() + 1; if ( s >= 0x900 ) fault( "stack underflow" ); sp( s ); return data[s]; }
    void push_pc( std::uint16_t p ) { push( p & 255 ); push( p >> 8 ); }
    std::uint16_t pop_pc() { std::uint8_t h = pop(); return h << 8 | pop(); }

    std::uint16_t pair( int r ) const { return data[r] | data[r + 1] << 8; }
    void pair( int r, std::uint16_t v ) { data[r] = v & 255; data[r + 1] = v >> 8; }

    void nzs( std::uint8_t r, bool v ) { flag( V, v ); flag( N, r & 0x80 ); flag( Z, r == 0 ); flag( S, flag( N ) != v ); }
    std::uint8_t add( std::uint8_t a, std::uint8_t b, int cin )
    {
        unsigned r = a + b + cin;
        flag( H, ( a & 15 ) + ( b & 15 ) + cin > 15 ); flag( C, r > 255 );
        nzs( (std::uint8_t) r, ( ~( a ^ b ) & ( a ^ r ) & 0x80 ) != 0 );
        return (std::uint8_t) r;
    }
    std::uint8_t sub( std::uint8_t a, std::uint8_t b, int cin, bool keepz )
    {
        std::uint8_t r = a - b - cin; bool z = flag( Z );
        flag( H, ( a & 15 ) < ( b & 15 ) + cin ); flag( C, a < b + cin );
        nzs( r, ( ( a ^ b ) & ( a ^ r ) & 0x80 ) != 0 );
        if ( keepz ) flag( Z, r == 0 && z );
        return r;
    }
    void logic( std::uint8_t r ) { nzs( r, false ); }
    void shifted( std::uint8_t r, bool c ) { flag( C, c ); flag( N, r & 0x80 ); flag( Z, r == 0 ); flag( V, flag( N ) != c ); flag( S, flag( N ) != flag( V ) ); }

    static bool two_words( std::uint16_t w ) { return ( w & 0xfe0f ) == 0x9000 || ( w & 0xfe0f ) == 0x9200 || ( w & 0xfe0c ) == 0x940c; }
    void skip() { pc += two_words( flash[pc] ) ? 2 : 1; }

    // an interrupt: as the hardware does it
    bool interrupt( std::uint32_t handler )
    {
        if ( !flag( I ) || delay_irq ) return false;
        push_pc( pc ); flag( I, false ); pc = handler / 2;
        return true;
    }

    void step()
    {
        if ( ++steps > limit ) fault( "the device code does not come to an end" );
        if ( on_step ) on_step( *this );
        if ( delay_irq ) --delay_irq;
        #ifdef PBT_FUZZ
        { unsigned char & e = avr_edges[( pc ^ last_pc << 5 ) & ( sizeof avr_edges - 1 )]; if ( e < 255 ) ++e; last_pc = pc; }
        #endif
        std::uint16_t w = flash[pc++];
        std::uint8_t * R = data;
        int d5 = w >> 4 & 31, r5 = ( w & 15 ) | ( w >> 5 & 16 ), d4 = 16 + ( w >> 4 & 15 ), K = ( w & 15 ) | ( w >> 4 & 0xf0 );
        switch ( w >> 12 )
        {
        case 0:
            switch ( w >> 10 & 3 )
            {
            case 0:
                if ( w == 0 ) return;
                switch ( w >> 8 & 3 )
                {
                case 1: pair( ( w >> 4 & 15 ) * 2, pair( ( w & 15 ) * 2 ) ); return;
                case 2: { std::uint16_t p = (std::int8_t) R[16 + ( w >> 4 & 15 )] * (std::int8_t) R[16 + ( w & 15 )]; pair( 0, p ); flag( C, p & 0x8000 ); flag( Z, p == 0 ); return; }
                case 3:
                    {
                        std::uint8_t a = R[16 + ( w >> 4 & 7 )], b = R[16 + ( w & 7 )]; int k = ( w >> 6 & 2 ) | ( w >> 3 & 1 );   // 0 mulsu 1 fmul 2 fmuls 3 fmulsu
                        std::uint16_t p = k == 1 ? a * b : k == 2 ? (std::int8_t) a * (std::int8_t) b : (std::int8_t) a * b;
                        flag( C, p & 0x8000 ); if ( k ) p <<= 1;
                        pair( 0, p ); flag( Z, p == 0 ); return;
                    }
                default: break;
                }
                break;
            case 1: sub( R[d5], R[r5], flag( C ), true ); return;
            case 2: R[d5] = sub( R[d5], R[r5], flag( C ), true ); return;
            case 3: R[d5] = add( R[d5], R[r5], 0 ); return;
            }
            break;
        case 1:
            switch ( w >> 10 & 3 )
            {
            case 0: if ( R[d5] == R[r5] ) skip(); return;
            case 1: sub( R[d5], R[r5], 0, false ); return;
            case 2: R[d5] = sub( R[d5], R[r5], 0, false ); return;
            case 3: R[d5] = add( R[d5], R[r5], flag( C ) ); return;
            }
            break;
        case 2:
            switch ( w >> 10 & 3 )
            {
            case 0: logic( R[d5] &= R[r5] ); return;
            case 1: logic( R[d5] ^= R[r5] ); return;
            case 2: logic( R[d5] |= R[r5] ); return;
            case 3: R[d5] = R[r5]; return;
            }
            break;
        case 3: sub( R[d4], K, 0, false ); return;
        case 4: R[d4] = sub( R[d4], K, flag( C ), true ); return;
        case 5: R[d4] = sub( R[d4], K, 0, false ); return;
        case 6: logic( R[d4] |= K ); return;
        case 7: logic( R[d4] &= K ); return;
        case 8: case 10:
            {
                int q = ( w & 7 ) | ( w >> 7 & 0x18 ) | ( w >> 8 & 0x20 ); std::uint16_t a = pair( w & 8 ? 28 : 30 ) + q;
                if ( w & 0x200 ) wr( a, R[d5] ); else R[d5] = rd( a );
                return;
            }
        case 9: op9( w, R, d5, r5 ); return;
        case 11:
            {
                int A = ( w & 15 ) | ( w >> 5 & 0x30 );
                if ( w & 0x800 ) wr( A + 32, R[d5] ); else R[d5] = rd( A + 32 );
                return;
            }
        case 12: pc += (std::int16_t)( w << 4 ) >> 4; return;
        case 13: push_pc( pc ); pc += (std::int16_t)( w << 4 ) >> 4; return;
        case 14: R[d4] = K; return;
        case 15:
            if ( !( w & 0x800 ) ) { if ( flag( w & 7 ) == !( w & 0x400 ) ) pc += (std::int8_t)( w >> 2 & 0xfe ) >> 1; return; }
            if ( w & 8 ) break;
            switch ( w >> 9 & 3 )
            {
            case 0: R[d5] = ( R[d5] & ~( 1 << ( w & 7 ) ) ) | flag( T ) << ( w & 7 ); return;
            case 1: flag( T, R[d5] >> ( w & 7 ) & 1 ); return;
            case 2: if ( !( R[d5] >> ( w & 7 ) & 1 ) ) skip(); return;
            case 3: if ( R[d5] >> ( w & 7 ) & 1 ) skip(); return;
            }
        }
        --pc; illegal( w );
    }

    // call a function with arguments of the given sizes (in bytes), result in r25:r24... as the ABI has it
    struct Arg { std::uint64_t v; int size; };
    void call( std::uint32_t f, std::vector<Arg> const & args = {} )
    {
        int r = 26;
        for ( auto & a : args )
        {
            r -= ( a.size + 1 ) & ~1;
            if ( r < 8 ) fault( "too many arguments" );
            for ( int i = 0; i < a.size; ++i ) data[r + i] = a.v >> 8 * i;
        }
        data[1] = 0;
        start( f );
        run();
    }
    void start( std::uint32_t f ) { push_pc( STOP ); pc = f / 2; steps = 0; delay_irq = 0; }
    void run() { while ( pc != STOP ) step(); }
    std::uint64_t result( int size ) const { std::uint64_t v = 0; int r = 26 - ( ( size + 1 ) & ~1 ); for ( int i = 0; i < size; ++i ) v |= (std::uint64_t) data[r + i] << 8 * i; return v; }

    // the C runtime's start-up, up to main
    void boot() { pc = 0; steps = 0; std::uint16_t m = image->at( "main" ) / 2; while ( pc != m ) step(); sp( TOP ); delay_irq = 0; steps = 0; }

    std::uint64_t mem( std::uint16_t a, int size ) const { std::uint64_t v = 0; for ( int i = 0; i < size; ++i ) v |= (std::uint64_t) data[a + i] << 8 * i; return v; }
    void mem( std::uint16_t a, int size, std::uint64_t v ) { for ( int i = 0; i < size; ++i ) data[a + i] = v >> 8 * i; }

private:
    std::uint16_t last_pc = 0;

    [[noreturn]] void illegal( std::uint16_t w ) { char b[40]; std::snprintf( b, sizeof b, "illegal instruction 0x%04x", w ); fault( b ); }

    std::uint8_t lpm( std::uint16_t a ) const { std::uint16_t w = flash[a / 2]; return a & 1 ? w >> 8 : w & 255; }

    void ldst( int reg, bool store, int pre, int post, int d )
    {
        std::uint16_t a = pair( reg ); if ( pre ) pair( reg, --a );
        if ( store ) wr( a, data[d] ); else { std::uint8_t v = rd( a ); if ( post ) pair( reg, a + 1 ); data[d] = v; return; }
        if ( post ) pair( reg, a + 1 );
    }

    void op9( std::uint16_t w, std::uint8_t * R, int d5, int r5 )
    {
        switch ( w >> 8 & 15 )
        {
        case 0: case 1: case 2: case 3:
            {
                bool st = w & 0x200;
                switch ( w & 15 )
                {
                case 0: { std::uint16_t a = flash[pc++]; if ( st ) wr( a, R[d5] ); else R[d5] = rd( a ); return; }
                case 1: ldst( 30, st, 0, 1, d5 ); return;
                case 2: ldst( 30, st, 1, 0, d5 ); return;
                case 4: if ( st ) break; R[d5] = lpm( pair( 30 ) ); return;
                case 5: { if ( st ) break; std::uint16_t a = pair( 30 ); R[d5] = lpm( a ); pair( 30, a + 1 ); return; }
                case 9: ldst( 28, st, 0, 1, d5 ); return;
                case 10: ldst( 28, st, 1, 0, d5 ); return;
                case 12: ldst( 26, st, 0, 0, d5 ); return;
                case 13: ldst( 26, st, 0, 1, d5 ); return;
                case 14: ldst( 26, st, 1, 0, d5 ); return;
                case 15: if ( st ) push( R[d5] ); else R[d5] = pop(); return;
                }
                break;
            }
        case 4: case 5:
            switch ( w & 15 )
            {
            case 0: R[d5] = ~R[d5]; logic( R[d5] ); flag( C, true ); return;
            case 1: R[d5] = sub( 0, R[d5], 0, false ); return;
            case 2: R[d5] = R[d5] << 4 | R[d5] >> 4; return;
            case 3: ++R[d5]; nzs( R[d5], R[d5] == 0x80 ); return;
            case 5: { bool c = R[d5] & 1; R[d5] = ( R[d5] >> 1 ) | ( R[d5] & 0x80 ); shifted( R[d5], c ); return; }
            case 6: { bool c = R[d5] & 1; R[d5] >>= 1; shifted( R[d5], c ); return; }
            case 7: { bool c = R[d5] & 1; R[d5] = R[d5] >> 1 | flag( C ) << 7; shifted( R[d5], c ); return; }
            case 8:
                if ( !( w & 0x100 ) ) { bool set = !( w & 0x80 ); int f = w >> 4 & 7; if ( f == I && set && !flag( I ) ) delay_irq = 1; flag( f, set ); return; }
                switch ( w >> 4 & 15 )
                {
                case 0: pc = pop_pc(); return;
                case 1: pc = pop_pc(); flag( I, true ); delay_irq = 1; return;
                case 8: case 9: case 10: return;         // sleep, break, wdr
                case 12: R[0] = lpm( pair( 30 ) ); return;
                }
                break;
            case 9:
                if ( w == 0x9409 ) { pc = pair( 30 ); return; }
                if ( w == 0x9509 ) { push_pc( pc ); pc = pair( 30 ); return; }
                break;
            case 10: --R[d5]; nzs( R[d5], R[d5] == 0x7f ); return;
            case 12: case 13: pc = flash[pc]; return;
            case 14: case 15: { std::uint16_t k = flash[pc++]; push_pc( pc ); pc = k; return; }
            }
            break;
        case 6: case 7:
            {
                int r = 24 + ( w >> 3 & 6 ), K = ( w & 15 ) | ( w >> 2 & 0x30 ); std::uint16_t a = pair( r ), v = w & 0x100 ? a - K : a + K;
                pair( r, v );
                if ( w & 0x100 ) { flag( V, a & ~v & 0x8000 ); flag( C, v & ~a & 0x8000 ); }
                else { flag( V, ~a & v & 0x8000 ); flag( C, ~v & a & 0x8000 ); }
                flag( N, v & 0x8000 ); flag( Z, v == 0 ); flag( S, flag( N ) != flag( V ) );
                return;
            }
        case 8: case 10:
            {
                std::uint16_t a = ( w >> 3 & 31 ) + 32; int b = w & 7; std::uint8_t v = data[a];
                wr( a, w & 0x200 ? v | 1 << b : v & ~( 1 << b ), b ); return;
            }
        case 9: case 11:
            {
                std::uint8_t v = rd( ( w >> 3 & 31 ) + 32 ); if ( ( v >> ( w & 7 ) & 1 ) == !!( w & 0x200 ) ) skip(); return;
            }
        default: { std::uint16_t p = R[d5] * R[r5]; pair( 0, p ); flag( C, p & 0x8000 ); flag( Z, p == 0 ); return; }
        }
        --pc; illegal( w );
    }
};

} // namespace avr
#endif
