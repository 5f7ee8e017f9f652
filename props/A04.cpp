// A04: complex numbers on the microcontroller behave like the standard ones.
// plain
// device: a04_O2 avr/A04.cpp -O2
// device: a04_Os avr/A04.cpp -Os
// fuzz: quick=8000 thorough=200000
#include "fw/device.hpp"
#include <complex>

using namespace pbt;
using L = long double; using Z = std::complex<L>;

Device & device( bool small )
{
    static Device * d[2];
    if ( !d[small] ) d[small] = new Device( small ? "a04_Os" : "a04_O2" );
    return *d[small];
}

float number( Gen & g )
{
    switch ( g.draw( 5 ) ) { case 0: return 0; case 1: return (float) g.range( -3, 3 ); case 2: return (float) std::ldexp( g.uniform( -1, 1 ), g.irange( -12, 12 ) ); case 3: return (float) g.range( -100000, 100000 ); default: return (float) g.uniform( -10, 10 ); }
}

// magnitudes whose square is not representable
float far( Gen & g ) { return (float)( std::pow( 10.0, g.coin() ? g.uniform( 19, 37 ) : g.uniform( -36, -19 ) ) * ( g.coin() ? 1 : -1 ) ); }

void operation( Gen & g, Case & c )
{
    int which = (int) g.draw( 43 );
    Device & d = device( g.coin() );
    float a[2] = { number( g ), number( g ) }, b[2] = { number( g ), number( g ) };
    bool extreme = false;
    if ( ( which == 38 || which == 39 ) && g.chance( 1, 3 ) ) { a[0] = far( g ); a[1] = g.chance( 1, 4 ) ? 0 : (float)( a[0] * g.uniform( -5, 5 ) ); extreme = std::isfinite( a[1] ); if ( !extreme ) a[1] = 0; if ( g.coin() ) std::swap( a[0], a[1] ); }
    if ( g.chance( 1, 8 ) ) { b[0] = a[0]; b[1] = g.coin() ? a[1] : -a[1]; }
    std::int32_t i[4]; for ( auto & v : i ) v = (std::int32_t) g.range( -20000, 20000 );
    Z A( a[0], a[1] ), B( b[0], b[1] ), I( i[0], i[1] ), J( i[2], i[3] ); L s = b[0];
    { std::ostringstream os; os.precision( 9 ); os << d.name << " operation " << which << " on " << a[0] << "," << a[1] << " and " << b[0] << "," << b[1] << " and " << i[0] << "," << i[1] << " " << i[2] << "," << i[3]; PBT_LOG( c, os.str() ); }
    d.reset();
    for ( int k = 0; k < 2; ++k ) { d.put<float>( "m_a", a[k], k ); d.put<float>( "m_b", b[k], k ); }
    for ( int k = 0; k < 4; ++k ) d.put<std::int32_t>( "m_i", i[k], k );
    Z z, r; bool second = false, exact = false; L tol = 0, eps = std::ldexp( 1.0L, -23 );
    auto away = [&]( L den ) { if ( std::fabs( den ) < 1e-5L ) throw Discard(); };
    switch ( which )
    {
    case 0: z = 0; exact = true; break;
    case 1: z = s; exact = true; break;
    case 2: case 3: case 11: case 12: z = A; exact = true; break;
    case 4: z = r = Z( s ); second = exact = true; break;
    case 5: case 10: z = r = A; second = exact = true; break;
    case 6: z = r = I; second = exact = true; break;
    case 7: z = I; exact = true; break;
    case 8: z = Z( s, A.imag() ); exact = true; break;
    case 9: z = Z( A.real(), s ); exact = true; break;
    case 13: z = -A; exact = true; break;
    case 14: case 26: z = A + B; tol = 2 * ( std::abs( A ) + std::abs( B ) ); break;
    case 15: case 27: z = A - B; tol = 2 * ( std::abs( A ) + std::abs( B ) ); break;
    case 16: case 28: z = A * B; tol = 4 * std::abs( A ) * std::abs( B ); break;
    case 17: case 29: away( std::abs( B ) ); z = A / B; tol = 8 * std::abs( A ) / std::abs( B ); break;
    case 18: case 30: case 22: z = A + s; tol = 2 * ( std::abs( A ) + std::fabs( s ) ); break;
    case 19: case 31: z = A - s; tol = 2 * ( std::abs( A ) + std::fabs( s ) ); break;
    case 20: case 32: case 24: z = A * s; tol = 4 * std::abs( A ) * std::fabs( s ); break;
    case 21: case 33: away( s ); z = A / s; tol = 4 * std::abs( A ) / std::fabs( s ); break;
    case 23: z = s - A; tol = 2 * ( std::abs( A ) + std::fabs( s ) ); break;
    case 25: away( std::abs( A ) ); z = s / A; tol = 8 * std::fabs( s ) / std::abs( A ); break;
    case 34: z = A * A; tol = 4 * std::norm( A ); break;
    case 35: z = A + A; exact = true; break;
    case 36: away( std::abs( A ) ); z = 1; tol = 8; break;
    case 37: z = A + I; tol = 2 * ( std::abs( A ) + std::abs( I ) ); break;
    case 38: z = std::abs( A ); tol = 8 * std::abs( A ); break;
    // the argument of sine and cosine is reduced in single precision
    case 42: if ( std::fabs( s ) > 1000 ) throw Discard(); z = std::polar( 1.0L, s ) * (L) a[0]; tol = ( 8 + 4 * std::fabs( s ) ) * std::fabs( (L) a[0] ); break;
    case 43: z = (L) a[0]; exact = true; break;
    case 39: z = std::sqrt( A ); tol = 16 * std::abs( z ); break;
    }
    d.call( c, "op", { { (std::uint64_t) which, 1 } } );
    if ( which == 40 || which == 41 )
    {
        std::int64_t w[4] = { i[0] + i[2], i[1] + i[3], i[0] - i[2], i[1] - i[3] };
        if ( which == 41 ) { w[0] = (std::int64_t) i[0] * i[2] - (std::int64_t) i[1] * i[3]; w[1] = (std::int64_t) i[0] * i[3] + (std::int64_t) i[1] * i[2]; w[2] = -i[0]; w[3] = -i[1]; }
        for ( int k = 0; k < 4; ++k ) PBT_CHECK( c, d.get<std::int32_t>( "m_o", k ) == w[k], d.name << ": integer result " << k << " of operation " << which << " is " << d.get<std::int32_t>( "m_o", k ) << ", want " << w[k] );
        c.nontriv( i[0] && i[1] ); c.cls( "integer", true );
        return;
    }
    Z got( d.get<float>( "m_r", 0 ), d.get<float>( "m_r", 1 ) ), got2( d.get<float>( "m_r", 2 ), d.get<float>( "m_r", 3 ) );
    tol = exact ? 0 : tol * eps + 1e-37L;
    PBT_CHECK( c, std::abs( got - z ) <= tol, d.name << ": operation " << which << " gives " << (double) got.real() << "," << (double) got.imag() << ", want " << (double) z.real() << "," << (double) z.imag() );
    if ( second ) PBT_CHECK( c, got2 == r, d.name << ": the result of assignment " << which << " is " << (double) got2.real() << "," << (double) got2.imag() << ", want " << (double) r.real() << "," << (double) r.imag() );
    PBT_CHECK( c, d.get<std::uint8_t>( "m_same" ) == 1, d.name << ": operation " << which << " does not return its object" );
    if ( which == 39 ) PBT_CHECK( c, got.real() >= 0, d.name << ": square root " << (double) got.real() << "," << (double) got.imag() << " is not the principal one" );
    c.cls( "square not representable", extreme );
    c.nontriv( std::abs( A ) != 0 && std::abs( B ) != 0 );
    c.cls( "construction and assignment", exact ); c.cls( "division", which == 17 || which == 29 || which == 25 ); c.cls( "square root", which == 39 ); c.cls( "square root, negative real part", which == 39 && a[0] < 0 ); c.cls( "polar", which == 42 && a[0] != 0 && b[0] != 0 ); c.cls( "scalar operand", which >= 18 && which <= 25 );
}

Suite pbt::suite()
{
    return { "A04",
        "the 44 operations on complex numbers that the header provides on the microcontroller, compiled by avr-g++ and run in the simulator on random operands, compared with long-double complex arithmetic: exactly for construction, conversion and assignment, within a rounding bound for arithmetic, absolute value and square root. Non-trivial: both operands not zero.",
        { { "operation", 1, operation } },
        400000, 10000000,
        { "construction and assignment", "division", "square root", "square root, negative real part", "scalar operand", "integer", "polar", "square not representable" } };
}
