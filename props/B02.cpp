// B02: the reported frequency response is the response of the filter.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"

using namespace pbt;
using namespace bq;

double gen_freq( Gen & g )
{
    double f;
    switch ( g.draw( 5 ) )
    {
    case 0: f = g.pick( { 0.0, 0.5, 0.25, 0.125, 1.0 } ); break;
    case 1: f = g.loguni( 1e-6, 0.5 ); break;
    case 2: f = g.uniform( 0.5, 4 ); break;
    default: f = g.uniform( 0, 0.5 ); break;
    }
    return g.chance( 1, 4 ) ? -f : f;
}

template< typename T >
void formula( Gen & g, Case & c )
{
    auto s = gen_any<T>( g );
    auto const b = s.make();
    T f = (T) gen_freq( g );
    PBT_LOG( c, s.str() << " f=" << f );
    if ( !off_pole( s, f ) ) { c.cls( "at a pole" ); throw Discard(); }
    CL want = transfer( s, f ); L tol = transfer_tol( s, f );
    CL got = cl( dsp::response( b, f ) );
    PBT_CHECK( c, std::abs( got - want ) <= tol, "response of " << s.str() << " at " << f << " is " << str( got ) << " want " << str( want ) << " +/- " << tol );
    CL neg = cl( dsp::response( b, -f ) );
    PBT_CHECK( c, std::abs( std::conj( neg ) - got ) <= 2 * tol, "response at -f is not the conjugate: " << str( got ) << " and " << str( neg ) << " for " << s.str() << " at " << f );
    int k = g.irange( -3, 3 );
    T fk = f + (T) k;
    if ( off_pole( s, fk ) )
    {
        CL per = cl( dsp::response( b, fk ) );
        L slack = 20 * std::numeric_limits<T>::epsilon() * ( 1 + std::fabs( (L) fk ) ) * ( s.bsum() + s.asum() * std::abs( want ) ) / std::abs( [&]{ CL d; transfer( s, f, &d ); return d; }() );
        PBT_CHECK( c, std::abs( per - transfer( s, fk ) ) <= transfer_tol( s, fk ) && std::abs( per - got ) <= tol + transfer_tol( s, fk ) + 4 * slack, "response is not periodic: " << str( got ) << " at " << f << " and " << str( per ) << " at " << fk << " for " << s.str() );
    }
    c.nontriv( std::abs( want ) > 0 && f != 0 );
    c.cls( "negative frequency", f < 0 ); c.cls( "DC", f == 0 ); c.cls( "beyond half the sampling rate", std::fabs( f ) > 0.5 );
}

template< typename T >
void impulse( Gen & g, Case & c )
{
    double rmax = g.pick( { 0.95, 0.8, 0.5 } );
    auto s = gen_stable<T>( g, rmax );
    int N = (int)( 42 / -std::log( rmax ) ) + 5;
    T f = (T) gen_freq( g );
    PBT_LOG( c, s.str() << " f=" << f );
    auto b = s.make();
    Ref<T> r( s );
    int how = (int) g.draw( 2 );
    CL sum = 0; L err = 0;
    L w = 2 * 3.14159265358979323846264338327950288L * (L) f;
    for ( int n = 0; n < N; ++n )
    {
        T x = n == 0 ? 1 : 0;
        r.step( x );
        T y = how == 0 ? b.step( x ) : how == 1 ? b.step_df2( x ) : b.step_df2_transposed( x );
        sum += (L) y * CL( std::cos( w * n ), -std::sin( w * n ) );
    }
    err = r.tol() * N;
    CL got = cl( dsp::response( s.make(), f ) );
    L tol = transfer_tol( s, f ) + err + 1e-12L * s.bsum() * r.gain;
    PBT_CHECK( c, std::abs( got - sum ) <= tol, "response of " << s.str() << " at " << f << " is " << str( got ) << ", Fourier transform of the impulse response is " << str( sum ) << ", bound " << tol );
    c.nontriv( tol < 0.05L * std::abs( got ) );
    c.cls( "impulse response" );
}

// samples of type T and coefficients of type S
template< typename T, typename S >
void mixed( Gen & g, Case & c )
{
    auto s = gen_any<S>( g );
    using Q = dsp::biquad::BiQuadT<T,S>;
    Q const b( typename Q::B{ s.b0, s.b1, s.b2 }, typename Q::A{ s.a1, s.a2 } );
    T f = (T) gen_freq( g );
    PBT_LOG( c, s.str() << " f=" << f );
    if ( !off_pole( s, f ) ) { c.cls( "at a pole" ); throw Discard(); }
    L const more = std::max<L>( 1, (L) std::numeric_limits<T>::epsilon() / std::numeric_limits<S>::epsilon() );
    CL want = transfer( s, f ), d; transfer( s, f, &d ); L tol = transfer_tol( s, f ) * more;
    if ( std::abs( d ) < 1e-3L * s.asum() ) throw Discard();
    CL got = cl( dsp::response( b, f ) );
    PBT_CHECK( c, std::abs( got - want ) <= tol, "response of " << s.str() << " at " << f << " is " << str( got ) << " want " << str( want ) << " +/- " << tol );
    c.nontriv( std::abs( want ) > 0 && f != 0 ); c.cls( "coefficients of another type", f != 0 );
}

Suite pbt::suite()
{
    return { "B02",
        "random sections and normalised frequencies of both signs up to 4 sampling rates (DC and half the sampling rate included); response against the transfer function in long double, conjugate symmetry, periodicity, and the Fourier transform of the stepped impulse response (pole radius up to 0.95). Non-trivial: non-zero response off DC; impulse case: bound below 5% of the response.",
        { { "double formula", 8, formula<double> }, { "float formula", 4, formula<float> }, { "double impulse", 2, impulse<double> }, { "float impulse", 1, impulse<float> }, { "double with float coefficients", 1, mixed<double,float> }, { "float with double coefficients", 1, mixed<float,double> } },
        100000, 3000000, { "negative frequency", "DC", "beyond half the sampling rate", "impulse response", "coefficients of another type" } };
}
