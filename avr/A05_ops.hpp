// shared between the device and the desktop side of A05
#ifndef A05_OPS_HPP
#define A05_OPS_HPP
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include "num/fixed-point.hpp"

constexpr int a05_max = 3, a05_len = 24;

// coefficients are b0 b1 b2 a1 a2 per section
template< typename T, typename S = T >
typename dsp::biquad::BiQuadT<T,S> section_of( S const * k )
{
    using Q = dsp::biquad::BiQuadT<T,S>;
    return Q( typename Q::B{ k[0], k[1], k[2] }, typename Q::A{ k[3], k[4] } );
}

template< typename Q, typename T >
T step_of( Q & q, unsigned char how, T x )
{
    return how == 0 ? q.step( x ) : how == 1 ? q.step_df2( x ) : q.step_df2_transposed( x );
}

// y[] and the state after the run; a reset of the filter before sample at
template< typename T, typename S = T >
void run_section( S const * k, unsigned char how, int at, int n, T const * x, T * y, T * st )
{
    auto q = section_of<T,S>( k );
    for ( int i = 0; i < n; ++i ) { if ( i == at ) q.reset(); y[i] = step_of( q, how, x[i] ); }
    st[0] = q.state().v1; st[1] = q.state().v2;
}

template< typename T >
void run_cascade( T const * k, int sections, unsigned char how, int at, int n, T const * x, T * y, T * st )
{
    dsp::BiQuadCascadeT<T,a05_max> q;
    for ( int i = 0; i < sections; ++i ) q.append( section_of<T>( k + 5 * i ) );
    for ( int i = 0; i < n; ++i )
    {
        if ( i == at ) reset( q );
        y[i] = how == 0 ? step( q, x[i] ) : how == 1 ? step_df2( q, x[i] ) : step_df2_transposed( q, x[i] );
    }
    for ( int i = 0; i < sections; ++i ) { st[2 * i] = q.state( i ).v1; st[2 * i + 1] = q.state( i ).v2; }
}

template< typename T >
void run_onepole( T const * k, int at, int n, T const * x, T * y, T * st )
{
    using Q = dsp::onepole::OnePoleT<T>;
    Q q( typename Q::B{ k[0] }, typename Q::A{ k[3] } );
    for ( int i = 0; i < n; ++i ) { if ( i == at ) q.reset(); y[i] = q.step( x[i] ); }
    st[0] = q.state().v1;
}

#endif
