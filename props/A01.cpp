// A01: fixed-point arithmetic is bit-identical on microcontroller and desktop.
// plain
// device: rep8_O2 avr/A01.cpp -O2 -DREP=8
// device: rep16_O2 avr/A01.cpp -O2 -DREP=16
// device: rep32_O2 avr/A01.cpp -O2 -DREP=32
// device: rep8_Os avr/A01.cpp -Os -DREP=8
// device: rep16_Os avr/A01.cpp -Os -DREP=16
// device: rep32_Os avr/A01.cpp -Os -DREP=32
// fuzz: quick=12000 thorough=400000
#include "fw/device.hpp"
#include "fw/fixed_gen.hpp"

using namespace pbt;
using fx::W; using fx::fits;
using L = long double;

Device & device( int width, bool small )
{
    static std::map<int,Device *> d;
    auto & p = d[width * 2 + small];
    if ( !p ) p = new Device( "rep" + std::to_string( width ) + ( small ? "_Os" : "_O2" ) );
    return *p;
}

inline W floor_div( W a, W b ) { W q = a / b; if ( a % b != 0 && ( a < 0 ) != ( b < 0 ) ) --q; return q; }

// nearest integer to v * 2^F, ties away from zero
W nearest( L v, int F ) { L s = std::ldexp( v, F ), t = std::trunc( s ), r = s - t; W n = (W) t; if ( r >= 0.5L ) ++n; else if ( r <= -0.5L ) --n; return n; }

struct Call
{
    Device & d; Case & c; int width, F; std::string name, fn;
    int64_t lo, hi;
    Call( Device & d_, Case & c_, int width_, int I ) : d( d_ ), c( c_ ), width( width_ ), F( width - 1 - I ), name( d_.name + " format " + std::to_string( I ) + "." + std::to_string( width - 1 - I ) ), fn( "format_" + std::to_string( I ) )
    { lo = -( int64_t( 1 ) << ( width - 1 ) ); hi = -( lo + 1 ); }
    void run( int op, int64_t a, int64_t b, float f = 0 )
    {
        d.reset(); d.put<int64_t>( "m_a", a ); d.put<int64_t>( "m_b", b ); d.put<float>( "m_f", f ); d.put<int64_t>( "m_r", 0x5aa5 ); d.put<int64_t>( "m_r2", 0x5aa5 );
        d.call( c, fn, { { (std::uint64_t) op, 1 } } );
    }
    int64_t r() { return d.get<int64_t>( "m_r" ); }
    int64_t r2() { return d.get<int64_t>( "m_r2" ); }
    float f() { return d.get<float>( "m_f" ); }
    int bits() { return d.get<uint8_t>( "m_bits" ); }
    void want( W got, W w, std::string const & what, bool cond = true )
    {
        (void) cond; PBT_CHECK( c, got == w, name << ": " << what << " on the device is " << (long long) got << ", want " << (long long) w );
    }
};

template< typename R, int I > int64_t rep( Gen & g ) { return fx::gen_rep< num::fixed_point<R,I> >( g ); }

int64_t gen_rep( Gen & g, int width, int I )
{
    int64_t lo = -( int64_t( 1 ) << ( width - 1 ) ), hi = -( lo + 1 ), v; int F = width - 1 - I;
    switch ( g.draw( 5 ) )
    {
    case 0: v = g.range( -3, 3 ); break;
    case 1: v = g.coin() ? hi - g.range( 0, 3 ) : lo + g.range( 0, 3 ); break;
    case 2: { int b = g.irange( 0, width - 2 ); v = ( int64_t( 1 ) << b ) + g.range( -1, 1 ); if ( g.coin() ) v = -v; } break;
    case 3: v = ( g.range( -9, 9 ) * ( int64_t( 1 ) << F ) ) / ( g.coin() ? 2 : 1 ) + g.range( -1, 1 ); break;
    default: v = g.range( lo, hi ); break;
    }
    return std::min( hi, std::max( lo, v ) );
}

std::pair<int,int> gen_format( Gen & g )
{
    static std::vector<std::pair<int,int>> const f = { { 8, 0 }, { 8, 1 }, { 8, 3 }, { 8, 4 }, { 8, 7 }, { 16, 0 }, { 16, 3 }, { 16, 7 }, { 16, 8 }, { 16, 12 }, { 16, 15 }, { 32, 0 }, { 32, 8 }, { 32, 15 }, { 32, 15 }, { 32, 16 }, { 32, 28 }, { 32, 31 } };
    return f[g.draw( f.size() - 1 )];
}

int compare_bits( W a, W b ) { return ( a == b ) | ( a != b ) << 1 | ( a < b ) << 2 | ( a <= b ) << 3 | ( a > b ) << 4 | ( a >= b ) << 5; }

void arithmetic( Gen & g, Case & c )
{
    auto [width, I] = gen_format( g );
    Call k( device( width, g.coin() ), c, width, I );
    int64_t a = gen_rep( g, width, I ), b = g.chance( 1, 8 ) ? std::min( k.hi, std::max( k.lo, a + g.range( -1, 1 ) ) ) : gen_rep( g, width, I );
    if ( g.chance( 1, 3 ) && b != 0 )
    {
        double lim = (double) k.hi * std::ldexp( 1.0, k.F ) / std::fabs( (double) b );
        if ( std::fabs( (double) a ) > lim ) a = (int64_t)( ( a < 0 ? -lim : lim ) * g.unit() );
    }
    W one = W( 1 ) << k.F;
    int op = (int) g.draw( 10 );
    std::string on = " of representations " + std::to_string( a ) + " and " + std::to_string( b );
    PBT_LOG( c, k.name << " op " << op << on );
    auto binary = [&]( W w, char const * what ) { if ( !fits( w, k.lo, k.hi ) ) throw Discard(); k.run( op, a, b ); k.want( k.r(), w, what + on ); if ( op >= 6 ) k.want( k.r2(), w, std::string( "result of " ) + what + on ); };
    switch ( op )
    {
    case 0: case 6: binary( (W) a + b, "sum" ); c.cls( "sum" ); break;
    case 1: case 7: binary( (W) a - b, "difference" ); c.cls( "difference" ); break;
    case 2: case 8: binary( floor_div( (W) a * b, one ), "product" ); c.cls( "product" ); c.cls( "product rounds down below zero", (W) a * b < 0 && (W) a * b % one != 0 ); break;
    case 3: case 9: if ( b == 0 ) throw Discard(); binary( (W) a * one / b, "quotient" ); c.cls( "quotient" ); c.cls( "negative inexact quotient", ( a < 0 ) != ( b < 0 ) && (W) a * one % b != 0 ); break;
    case 4: if ( a == k.lo ) throw Discard(); k.run( op, a, b ); k.want( k.r(), -(W) a, "negation" + on ); break;
    case 5: k.run( op, a, b ); k.want( k.r(), a, "unary plus" + on ); break;
    case 10: k.run( op, a, b ); k.want( k.bits(), compare_bits( a, b ), "comparison (==, !=, <, <=, >, >= from bit 0)" + on ); c.cls( "comparison" ); c.cls( "comparison of neighbours", a - b == 1 || b - a == 1 ); break;
    }
    c.nontriv( a != 0 && b != 0 ); c.cls( "8-bit", width == 8 ); c.cls( "16-bit", width == 16 ); c.cls( "32-bit", width == 32 );
}

void conversion( Gen & g, Case & c )
{
    auto [width, I] = gen_format( g );
    Call k( device( width, g.coin() ), c, width, I );
    int op = (int) g.range( 11, 34 );
    W one = W( 1 ) << k.F;
    int64_t a = gen_rep( g, width, I );
    auto log = [&]( std::string const & s ) { PBT_LOG( c, k.name << " op " << op << " " << s ); };
    auto want = [&]( W got, W w, std::string const & what ) { k.want( got, w, what + " of " + std::to_string( a ) ); };
    if ( op <= 12 )
    {
        double frac = g.pick( std::vector<double>{ 0.0, 0.5, 0.25, 0.75, 0.4999, 0.5001, 1.0 / 3 } );
        float v = (float) std::ldexp( (L) a + ( g.coin() ? frac : -frac ), -k.F );
        if ( g.chance( 1, 4 ) ) v = std::nextafter( v, g.coin() ? 1e30f : -1e30f );
        W w = nearest( v, k.F ); if ( !fits( w, k.lo, k.hi ) ) throw Discard();
        std::ostringstream os; os.precision( 10 ); os << ( op == 11 ? "conversion from float " : "assignment from double " ) << v; log( os.str() );
        k.run( op, 0, 0, v ); k.want( k.r(), w, os.str() );
        c.cls( "from floating-point" ); c.cls( "tie", std::fabs( std::ldexp( (L) v, k.F ) - std::trunc( std::ldexp( (L) v, k.F ) ) ) == 0.5L ); c.nontriv( w != 0 );
        return;
    }
    if ( op <= 19 )
    {
        static int const size[] = { 1, 2, 4, 8, 1, 2, 4 }; int z = size[op - 13]; bool uns = op >= 17;
        int64_t n = g.coin() ? g.range( -5, 5 ) : (int64_t)( a / one );
        if ( uns ? n < 0 || ( n >> ( 8 * z - 1 ) >> 1 ) != 0 : z < 8 && !fits( n, -( int64_t( 1 ) << ( 8 * z - 1 ) ), ( int64_t( 1 ) << ( 8 * z - 1 ) ) - 1 ) ) throw Discard();
        W w = (W) n * one; if ( !fits( w, k.lo, k.hi ) ) throw Discard();
        log( "from integer " + std::to_string( n ) );
        k.run( op, n, 0 ); k.want( k.r(), w, "conversion from " + std::to_string( 8 * z ) + "-bit integer " + std::to_string( n ) );
        c.cls( "from integer" ); c.nontriv( n != 0 );
        return;
    }
    log( "of " + std::to_string( a ) );
    c.nontriv( a != 0 );
    if ( op <= 26 )
    {
        static int const size[] = { 1, 2, 4, 8, 1, 2, 4 }; int z = size[op - 20]; bool uns = op >= 24;
        W w = (W) a / one;
        if ( uns ? a < 0 || w >> 8 * z != 0 : !fits( w, z == 8 ? INT64_MIN : -( int64_t( 1 ) << ( 8 * z - 1 ) ), z == 8 ? INT64_MAX : ( int64_t( 1 ) << ( 8 * z - 1 ) ) - 1 ) ) throw Discard();
        k.run( op, a, 0 ); want( k.r(), w, std::string( "conversion to " ) + ( uns ? "unsigned " : "" ) + std::to_string( 8 * z ) + "-bit integer" );
        c.cls( "to integer" );
        return;
    }
    if ( op <= 29 )
    {
        float w = (float) std::ldexp( (L) a, -k.F );
        k.run( op, a, 0 );
        PBT_CHECK( c, std::memcmp( &w, &(float const &) k.f(), 4 ) == 0 || w == k.f(), k.name << ": conversion " << op << " to floating-point of " << a << " on the device is " << k.f() << ", want " << w );
        c.cls( "to floating-point" );
        return;
    }
    int64_t b = gen_rep( g, width, I );
    k.run( op, a, b );
    switch ( op )
    {
    case 30: want( k.r(), k.lo, "min" ); want( k.r2(), k.hi, "max" ); break;
    case 31: want( k.r(), a, "from_rep(to_rep)" ); want( k.r2(), a, "from_value" ); break;
    case 32: want( k.r(), a, "copy" ); want( k.r2(), a, "move" ); break;
    case 33: want( k.r(), b, "swap" ); want( k.r2(), a, "swap" ); break;
    case 34: want( k.r(), 0, "default construction" ); want( k.r2(), 0, "default construction" ); break;
    }
}

void mixed( Gen & g, Case & c )
{
    auto [width, I] = gen_format( g );
    Call k( device( width, g.coin() ), c, width, I );
    W one = W( 1 ) << k.F;
    int64_t a = gen_rep( g, width, I ), m = gen_rep( g, width, I ), n = (int64_t)( m / one );
    int op = (int) g.range( 35, 39 );
    std::string on = " of representation " + std::to_string( a ) + " and number " + std::to_string( n );
    PBT_LOG( c, k.name << " op " << op << on );
    if ( !fits( n, -32768, 32767 ) ) throw Discard();
    auto in = [&]( W w ) { if ( !fits( w, k.lo, k.hi ) ) throw Discard(); return w; };
    switch ( op )
    {
    case 35: { W w = in( (W) a + n * one ); k.run( op, a, n ); k.want( k.r(), w, "sum" + on ); } break;
    case 36: { W w = in( n * one - (W) a ); k.run( op, a, n ); k.want( k.r(), w, "difference" + on ); } break;
    case 37: { float f = (float) std::ldexp( (L) m, -k.F ); W w = in( (W) a - in( nearest( f, k.F ) ) ); k.run( op, a, 0, f ); k.want( k.r(), w, "difference with a float" + on ); } break;
    case 38: k.run( op, a, n ); k.want( k.bits(), compare_bits( a, n * one ), "comparison" + on ); break;
    case 39: k.run( op, a, n ); k.want( k.r(), k.F, "number of fractional digits" ); k.want( k.r2(), I, "number of integer digits" ); k.want( k.bits(), width - 1, "number of digits" ); break;
    }
    c.nontriv( a != 0 && m != 0 ); c.cls( "mixed" );
}

// plain device arithmetic, independent of the library: the simulator and compiler support do what they should
void control( Gen & g, Case & c )
{
    Device & d = device( g.pick( std::vector<int>{ 8, 16, 32 } ), g.coin() );
    int op = (int) g.draw( 9 );
    int64_t a = (int64_t) g.draw( ~0ULL ) >> g.draw( 63 ), b = (int64_t) g.draw( ~0ULL ) >> g.draw( 63 ); if ( b == 0 || b == -1 ) b = 3;
    if ( op == 8 ) b = g.range( 0, 63 );
    if ( op == 2 && ( (int32_t) b == 0 || (int32_t) b == -1 ) ) b = 7;
    if ( op == 6 && (int32_t) b == 0 ) b = 5;
    if ( op == 9 ) a >>= 2;
    d.reset(); d.put<int64_t>( "m_a", a ); d.put<int64_t>( "m_b", b ); d.call( c, "control", { { (std::uint64_t) op, 1 } } );
    int64_t r = d.get<int64_t>( "m_r" ); float f = d.get<float>( "m_f" ); bool ok = true;
    switch ( op )
    {
    case 0: ok = r == (int64_t)( (uint64_t) a * (uint64_t) b ); break;
    case 1: ok = r == a / b; break;
    case 2: ok = r == (int32_t) a % (int32_t) b; break;
    case 3: ok = r == (int16_t) a * (int32_t)(int16_t) b; break;
    case 4: ok = f == (float) a; break;
    case 5: ok = f == (float)(int32_t) a * (float)(int32_t) b; break;
    case 6: ok = f == (float)(int32_t) a / (float)(int32_t) b; break;
    case 7: ok = f == (float)(int32_t) a - (float)(int32_t) b; break;
    case 8: ok = r == a >> b; break;
    case 9: ok = r == (int64_t)( (float) a ); break;
    }
    if ( !ok ) { std::fprintf( stderr, "the simulator is wrong about control operation %d of %lld and %lld: %lld %g\n", op, (long long) a, (long long) b, (long long) r, f ); std::fflush( stderr ); std::abort(); }
    PBT_LOG( c, "control " << op << " " << a << " " << b );
    c.cls( "control" );
}

Suite pbt::suite()
{
    return { "A01",
        "17 formats over 8, 16 and 32-bit representations compiled with avr-g++ at -O2 and -Os and executed in the simulator, 40 operations (arithmetic, compound assignment, comparison, conversions from and to all integer widths and floating-point, limits, copies, mixed operands) on operands biased to boundaries; compared with exact integer arithmetic. Control operations without the library compare the simulator with the desktop. Non-trivial: operands not zero and result representable.",
        { { "arithmetic", 6, arithmetic }, { "conversion", 5, conversion }, { "mixed", 2, mixed }, { "control", 1, control } },
        3000000, 100000000, { "sum", "difference", "product", "product rounds down below zero", "quotient", "negative inexact quotient", "comparison", "comparison of neighbours", "8-bit", "16-bit", "32-bit", "from floating-point", "tie", "from integer", "to integer", "to floating-point", "mixed", "control" } };
}
