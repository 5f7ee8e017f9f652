// device side of A06: three computations on separate operands, one in the main program and two in interrupt handlers
#include "avr/A02_ops.hpp"
#include "avr/A05_ops.hpp"
#include "std/complex.hpp"
#include <avr/interrupt.h>

using X = num::fixed_point<int32_t,15>;
inline void * operator new( decltype( sizeof 0 ), void * p ) { return p; }

// one job: operands and results, as bits
struct Slot { uint8_t kind, op, n, pad; int32_t in[26]; int32_t out[16]; };
extern "C" { Slot m_slot[3]; }

#define PART template< typename T > __attribute__((noinline)) void
static_assert( sizeof( X ) == 4 && sizeof( float ) == 4, "" );

using C = std20::complex<float>;
static void put( float * & o, C const & z ) { *o++ = z.real(); *o++ = z.imag(); }

__attribute__((noinline)) static void complex_a( uint8_t op, float const * i, float * o )
{
    C const a( i[0], i[1] ), b( i[2], i[3] );
    switch ( op )
    {
    case 0: put( o, a + b ); break;
    case 1: put( o, a - b ); break;
    case 2: put( o, a * b ); break;
    case 3: put( o, a / b ); break;
    case 4: put( o, a + i[2] ); put( o, i[2] + a ); break;
    case 5: put( o, a - i[2] ); put( o, i[2] - a ); break;
    case 6: put( o, a * i[2] ); put( o, i[2] * a ); break;
    case 7: put( o, a / i[2] ); put( o, i[2] / a ); break;
    }
}
__attribute__((noinline)) static void complex_b( uint8_t op, float const * i, float * o )
{
    C a( i[0], i[1] ), b( i[2], i[3] );
    switch ( op )
    {
    case 0: a += b; put( o, a ); break;
    case 1: a -= b; put( o, a ); break;
    case 2: a *= b; put( o, a ); break;
    case 3: a /= b; put( o, a ); break;
    case 4: put( o, -a ); put( o, +b ); *o++ = abs( a ); break;
    case 5: put( o, sqrt( a ) ); break;
    case 6: put( o, std20::polar( i[0], i[1] ) ); break;
    case 7: { std20::complex<int32_t> n( (int32_t) i[0], (int32_t) i[1] ); C q( n ); b = n; put( o, q ); put( o, b ); b = i[2]; a = b; a.real( i[3] ); put( o, a ); } break;
    }
}

PART part_a( uint8_t op, T const * in, T * o )
{
    auto a = take<T,2,2>( in ), b = take<T,2,2>( in );
    switch ( op )
    {
    case 0: give( o, a * b ); break;
    case 1: give( o, a + b ); give( o, a - b ); break;
    case 2: give( o, num::inverted( a ) ); break;
    case 3: give( o, transposed( a ) ); break;
    case 4: give( o, a * *in ); give( o, *in * b ); break;
    case 5: std20::swap( a, b ); give( o, a ); give( o, b ); break;
    case 6: give( o, a + *in ); give( o, b - *in ); break;
    case 7: { auto e = std20::copy( a.begin(), a.end() - 1, b.begin() ); give( o, b ); give( o, (T)(int)( e - b.begin() ) ); give( o, (T)( std20::equal( a.begin(), a.end(), b.begin() ) ? 1 : 0 ) ); std20::fill( a.begin() + 1, a.end(), *in ); give( o, a ); } break;
    }
}
PART part_b( uint8_t op, T const * in, T * o )
{
    switch ( op )
    {
    case 0: { auto a = take<T,3,3>( in ); give( o, a * take<T,3,3>( in ) ); } break;
    case 1: { auto a = take<T,2,3>( in ); give( o, a * take<T,3,2>( in ) ); } break;
    case 2: { auto a = take<T,1,3>( in ); give( o, a * take<T,3,1>( in ) ); } break;
    case 3: { auto a = take<T,3,1>( in ); give( o, a * take<T,1,3>( in ) ); } break;
    case 4: { auto a = take<T,3,3>( in ); give( o, a * take<T,3,1>( in ) ); } break;
    case 5: { auto a = take<T,1,2>( in ); give( o, a * take<T,2,2>( in ) ); give( o, transposed( a ) ); } break;
    case 6: give( o, num::eye<T,3>() ); break;
    case 7: { num::matrix<T,2,3> a = { in[0], in[1], in[2], in[3], in[4] }; give( o, a ); num::matrix<T,2,2> b( in[5] ); give( o, b ); } break;
    }
}
// arithmetic of single numbers
PART part_c( uint8_t op, T const * in, T * o )
{
    T a = in[0], b = in[1];
    switch ( op )
    {
    case 0: give( o, a + b ); give( o, a - b ); break;
    case 1: give( o, a * b ); break;
    case 2: give( o, a / b ); break;
    case 3: a += b; give( o, a ); a -= in[2]; give( o, a ); break;
    case 4: a *= b; give( o, a ); break;
    case 5: a /= b; give( o, a ); break;
    case 6: std20::swap( a, b ); give( o, a ); give( o, b ); give( o, std20::move( a ) ); break;
    case 7: give( o, (T)( a < b ? 1 : 0 ) ); give( o, (T)( a == b ? 1 : 0 ) ); give( o, -a ); break;
    }
}
__attribute__((noinline)) static void convert( uint8_t op, float const * f, int32_t * o )
{
    X x( f[0] ), y( (int) f[1] );
    float r = op & 1 ? y.as<float>() : x.as<float>();
    o[0] = x.underlying_value(); o[1] = y.underlying_value(); o[2] = x.as<int>(); o[3] = ( x + f[2] ).underlying_value(); o[4] = ( x * 2 ).underlying_value(); o[5] = (int32_t)( r * 100 );
}
PART filters( uint8_t op, uint8_t n, T const * in, T * o )
{
    T st[2 * a05_max];
    switch ( op & 3 )
    {
    case 0: run_section<T>( in, op >> 2 & 1 ? 1 : 2, -1, n, in + 15, o, st ); break;
    case 1: run_cascade<T>( in, 3, op >> 2 & 1 ? 0 : 2, n / 2, n, in + 15, o, st ); break;
    case 2: run_onepole<T>( in, -1, n, in + 15, o, st ); break;
    case 3: { auto p = section_of<T>( in ), q = section_of<T>( in + 5 ); o[0] = p.step( in[15] ); p.swap( q ); auto r = p; o[1] = p.step( in[16] ); o[2] = q.step( in[17] ); r.reset(); o[3] = r.step( in[18] ); } break;
    }
}
__attribute__((noinline)) static void observe( uint8_t op, float const * in, float * o )
{
    auto q = section_of<float>( in );
    switch ( op & 3 )
    {
    case 0: put( o, response( q, in[15] ) ); break;
    case 1: { auto p = q.poles(); put( o, p.s0 ); put( o, p.s1 ); *o++ = q.is_stable(); } break;
    case 2: { auto z = q.zeros(); put( o, z.s0 ); put( o, z.s1 ); } break;
    case 3: { using Q = dsp::biquad::BiQuadT<float>; Q r( Q::Solution{ C( in[0], in[1] ), C( in[0], -in[1] ) }, Q::Solution{ C( in[2] ), C( in[3] ) }, in[4] ); auto b = r.coeff_b(); auto a = r.coeff_a(); *o++ = b.b0; *o++ = b.b1; *o++ = b.b2; *o++ = a.a1; *o++ = a.a2; } break;
    }
}
#ifndef SMALL
PART estimate( uint8_t op, uint8_t n, T const * in, T * o )
{
    using E = Estimator<T,1,1>;
    typename E::K k( E::make( in ) );
    for ( int i = 0; i < 1 + n % 3; ++i ) E::update( k, in + 22 );
    E::observe( k, o, true );
    if ( op & 1 ) { typename E::K const j( k ); E::update( k, in + 23 ); T * p = o + 9; give( p, k.system_state() ); give( p, j.system_state() ); }
}
#endif

static void job( Slot & s )
{
    float const * f = (float const *) s.in; float * fo = (float *) s.out;
    X const * x = (X const *) s.in; X * xo = (X *) s.out;
    switch ( s.kind )
    {
    case 0: complex_a( s.op, f, fo ); break;
    case 1: complex_b( s.op, f, fo ); break;
    case 2: part_a<float>( s.op, f, fo ); break;
    case 3: part_b<float>( s.op, f, fo ); break;
    case 4: part_a<X>( s.op, x, xo ); break;
    case 5: part_b<X>( s.op, x, xo ); break;
    case 6: part_c<X>( s.op, x, xo ); break;
    case 7: convert( s.op, f, s.out ); break;
    case 8: filters<float>( s.op, s.n, f, fo ); break;
    case 9: filters<X>( s.op, s.n, x, xo ); break;
    case 10: observe( s.op, f, fo ); break;
#ifndef SMALL
    case 11: estimate<float>( s.op, s.n, f, fo ); break;
    case 12: estimate<X>( s.op, s.n, x, xo ); break;
#endif
    }
}

extern "C" __attribute__((used)) void run( uint8_t slot ) { job( m_slot[slot] ); }
// the first handler may itself be interrupted
ISR( TIMER0_COMPA_vect, ISR_NOBLOCK ) { job( m_slot[1] ); }
ISR( TIMER0_COMPB_vect ) { job( m_slot[2] ); }

int main() { for (;;) {} }
