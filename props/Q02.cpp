// Q02: misuse that shows only at run time is stopped.
// plain
#include "fw/biquad_gen.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/chebyshev-design.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace bq;

// runs f in a process of its own: true if it came back, false if it was stopped by abort()
template< typename F >
bool comes_back( Case & c, F f )
{
    ::pid_t p = ::fork();
    PBT_CHECK( c, p >= 0, "no process" );
    if ( p == 0 )
    {
        int n = ::open( "/dev/null", O_WRONLY ); ::dup2( n, 1 ); ::dup2( n, 2 );
        std::signal( SIGABRT, SIG_DFL );
        f();
        ::_exit( 0 );
    }
    int s = 0;
    while ( ::waitpid( p, &s, 0 ) < 0 ) {}
    if ( WIFSIGNALED( s ) && WTERMSIG( s ) == SIGABRT ) return false;
    PBT_CHECK( c, WIFEXITED( s ) && WEXITSTATUS( s ) == 0, "neither came back nor was stopped: status " << s );
    return true;
}

template< typename T, int N >
void cascade( Gen & g, Case & c )
{
    dsp::BiQuadCascadeT<T,N> cas;
    using B = dsp::BiQuadT<T>;
    auto section = [&] { return gen_stable<T>( g, 0.95 ).make(); };
    // a history that is in order
    for ( int k = 0; g.more( 4, k, 12 ); )
    {
        if ( cas.size() < N && ( cas.size() == 0 || g.chance( 2, 3 ) ) ) cas.append( section() );
        else if ( cas.size() > 1 && g.coin() ) cas.remove( g.irange( 0, cas.size() - 1 ) );
        else if ( cas.size() ) (void) cas.replace( g.irange( 0, cas.size() - 1 ), section() );
    }
    if ( g.chance( 1, 4 ) ) while ( cas.size() < N ) cas.append( section() );
    int const n = cas.size();
    int const what = (int) g.draw( 6 );
    int i = g.irange( -3, N + 3 );
    if ( g.chance( 1, 3 ) ) i = n; else if ( g.chance( 1, 5 ) ) i = -1; else if ( g.chance( 1, 12 ) ) i = (int) g.pick( std::vector<long long>{ INT32_MAX, INT32_MIN, 256, 65536 } );
    bool const there = 0 <= i && i < n;
    bool ok = there;
    if ( what == 5 ) { if ( i == n ) i = n + 1; ok = 0 <= i && i < n && n < N; }       // at the end: not decided here
    if ( what == 6 ) ok = n < N;
    B const b = section();
    static char const * const names[] = { "coeff_a", "coeff_b", "state", "remove", "replace", "insert", "append" };
    PBT_LOG( c, names[what] << "( " << i << " ) in a cascade of " << n << " of at most " << N << " sections" );
    bool back = comes_back( c, [&]
    {
        switch ( what )
        {
        case 0: (void) cas.coeff_a( i ); break;
        case 1: (void) cas.coeff_b( i ); break;
        case 2: (void) cas.state( i ); break;
        case 3: cas.remove( i ); break;
        case 4: (void) cas.replace( i, b ); break;
        case 5: cas.insert( i, b ); break;
        case 6: cas.append( b ); break;
        }
    } );
    PBT_CHECK( c, back == ok, names[what] << "( " << i << " ) in a cascade of " << n << " of at most " << N << " sections " << ( back ? "is carried out" : "is stopped" ) );
    c.nontriv( !ok );
    c.cls( "no such section", !ok && what < 5 ); c.cls( "full", !ok && what >= 5 && n == N ); c.cls( "insert before no section", !ok && what == 5 && n < N ); c.cls( "in order", ok );
    c.cls( "just past the last section", !ok && what < 5 && i == n ); c.cls( "section -1", !ok && what < 5 && i == -1 );
}

template< typename T >
void design( Gen & g, Case & c )
{
    T const fs = (T) g.uniform( 10, 1e5 );
    T f[2];
    bool const low = g.coin();
    f[0] = (T)( fs * g.uniform( 0.01, 0.24 ) ); f[1] = (T)( fs * g.uniform( 0.26, 0.49 ) );
    if ( !low ) std::swap( f[0], f[1] );
    auto kind = low ? dsp::FilterResponse::low_pass : dsp::FilterResponse::high_pass;
    bool ok = true;
    int const wrong = (int) g.draw( 3 );
    if ( wrong < 2 )
    {
        // an edge at or beyond half the sampling frequency
        int const how = (int) g.draw( wrong == ( low ? 1 : 0 ) ? 4 : 3 );      // (a pass edge beyond the stop edge is no specification)
        f[wrong] = how == 0 ? fs / 2 : how == 1 ? std::nextafter( fs / 2, fs ) : how == 2 ? (T)( fs * g.uniform( 0.5, 3 ) ) : how == 3 ? std::numeric_limits<T>::quiet_NaN() : (T)( fs * 0.4999 );
        ok = f[wrong] < fs / 2;
        c.cls( "edge at half the sampling frequency", how == 0 ); c.cls( "edge just below", how == 4 ); c.cls( "edge not a number", how == 3 );
    }
    else if ( wrong == 2 ) { kind = g.pick( std::vector<dsp::FilterResponse>{ dsp::FilterResponse::all_pass, dsp::FilterResponse::band_pass, dsp::FilterResponse::band_stop, dsp::FilterResponse::low_shelf } ); ok = false; c.cls( "kind of response the design has not" ); }
    bool const two = g.coin();
    T const ap = (T) g.uniform( 0.1, 3 ), as = (T) g.uniform( 10, 60 );
    PBT_LOG( c, "Chebyshev type " << 1 + two << " kind " << (int) kind << " fs " << fs << " pass " << f[0] << " stop " << f[1] << " ripple " << ap << " attenuation " << as );
    bool back = comes_back( c, [&] { if ( two ) (void) dsp::chebyshev2_lp_hp( kind, fs, f[0], f[1], ap, as ); else (void) dsp::chebyshev1_lp_hp( kind, fs, f[0], f[1], ap, as ); } );
    PBT_CHECK( c, back == ok, "the design is " << ( back ? "carried out" : "stopped" ) );
    c.nontriv( !ok );
    c.cls( "design in order", ok );
}

// more sections than the cascade they are to be put into
void too_many( Gen & g, Case & c )
{
    dsp::DigitalCoeffT<double> d;
    int const n = g.irange( 0, 6 );
    for ( int i = 0; i < n; ++i ) { auto s = gen_stable<double>( g, 0.9 ); d.b.push_back( { s.b0, s.b1, s.b2 } ); d.a.push_back( { s.a1, s.a2 } ); }
    PBT_LOG( c, n << " sections into a cascade of 3" );
    bool back = comes_back( c, [&] { (void) dsp::make_biquad_cascade<3>( d ); } );
    PBT_CHECK( c, back == ( n <= 3 ), n << " sections into a cascade of 3: " << ( back ? "carried out" : "stopped" ) );
    c.nontriv( n > 3 );
    c.cls( "too many sections", n > 3 );
}

Suite pbt::suite()
{
    return { "Q02",
        "histories of valid operations on cascades of capacity 1 to 5, then one operation, in order or not (a section that is not there, a full cascade); Chebyshev designs with an edge below, at or above half the sampling frequency or of a kind the design has not; designs put into a cascade that is too small. The operation runs in a process of its own: misuse must end in abort(), proper use must come back. Non-trivial: misuse.",
        { { "cascade of 1", 1, cascade<double,1> }, { "cascade of 3", 2, cascade<double,3> }, { "cascade of 5, float", 2, cascade<float,5> }, { "design double", 1, design<double> }, { "design float", 1, design<float> }, { "too small a cascade", 1, too_many } },
        24000, 500000, { "no such section", "full", "insert before no section", "in order", "just past the last section", "section -1", "edge at half the sampling frequency", "edge just below", "edge not a number", "kind of response the design has not", "design in order", "too many sections" } };
}
