// device side of A05: filter sections, cascades and one-pole sections
#include "A05_ops.hpp"
#include <stdint.h>

using X = num::fixed_point<int32_t,15>;

extern "C" {
         float    f_k[5 * a05_max], f_x[a05_len], f_y[a05_len], f_s[2 * a05_max], f_f, f_q[16];
         int32_t  x_k[5 * a05_max], x_x[a05_len], x_y[a05_len], x_s[2 * a05_max];
         uint8_t  m_n, m_sections, m_how, m_stable;
         int8_t   m_at;
}

extern "C" __attribute__((used)) void run( uint8_t kind )
{
    switch ( kind )
    {
    case 0: run_section<float>( f_k, m_how, m_at, m_n, f_x, f_y, f_s ); break;
    case 1: run_cascade<float>( f_k, m_sections, m_how, m_at, m_n, f_x, f_y, f_s ); break;
    case 2: run_onepole<float>( f_k, m_at, m_n, f_x, f_y, f_s ); break;
    case 3: { int16_t k[5]; for ( int i = 0; i < 5; ++i ) k[i] = x_k[i]; run_section<float,int16_t>( k, m_how, m_at, m_n, f_x, f_y, f_s ); } break;
    }
}

extern "C" __attribute__((used)) void run_fixed( uint8_t kind )
{
    X k[5 * a05_max], x[a05_len], y[a05_len], s[2 * a05_max];
    for ( int i = 0; i < 5 * m_sections; ++i ) k[i] = X( X::construct, x_k[i] );
    for ( int i = 0; i < m_n; ++i ) x[i] = X( X::construct, x_x[i] );
    switch ( kind )
    {
    case 0: run_section<X>( k, m_how, m_at, m_n, x, y, s ); break;
    case 1: run_cascade<X>( k, m_sections, m_how, m_at, m_n, x, y, s ); break;
    case 2: run_onepole<X>( k, m_at, m_n, x, y, s ); break;
    }
    for ( int i = 0; i < m_n; ++i ) x_y[i] = y[i].underlying_value();
    for ( int i = 0; i < 2 * a05_max; ++i ) x_s[i] = s[i].underlying_value();
}

static void put( int at, std20::complex<float> z ) { f_q[at] = z.real(); f_q[at + 1] = z.imag(); }

extern "C" __attribute__((used)) void query( uint8_t kind )
{
    switch ( kind )
    {
    case 0: { auto q = section_of<float>( f_k ); put( 0, response( q, f_f ) ); auto p = q.poles(); put( 2, p.s0 ); put( 4, p.s1 ); m_stable = q.is_stable(); if ( f_k[0] != 0 ) { auto z = q.zeros(); put( 6, z.s0 ); put( 8, z.s1 ); } } break;
    case 1: { dsp::BiQuadCascadeT<float,a05_max> q; for ( int i = 0; i < m_sections; ++i ) q.append( section_of<float>( f_k + 5 * i ) ); put( 0, response( q, f_f ) ); m_stable = is_stable( q ); } break;
    case 2: { using Q = dsp::onepole::OnePoleT<float>; Q q( Q::B{ f_k[0] }, Q::A{ f_k[3] } ); put( 0, response( q, f_f ) ); put( 2, q.poles().s0 ); m_stable = q.is_stable(); } break;
    // zeros f_q[0..3], poles f_q[4..7] and gain f_f: the coefficients
    case 3: { using Q = dsp::biquad::BiQuadT<float>; using Z = std20::complex<float>; Q q( Q::Solution{ Z( f_q[0], f_q[1] ), Z( f_q[2], f_q[3] ) }, Q::Solution{ Z( f_q[4], f_q[5] ), Z( f_q[6], f_q[7] ) }, f_f );
              auto b = q.coeff_b(); auto a = q.coeff_a(); f_q[8] = b.b0; f_q[9] = b.b1; f_q[10] = b.b2; f_q[11] = a.a1; f_q[12] = a.a2; } break;
    }
}

int main() { for (;;) {} }
