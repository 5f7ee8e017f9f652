// generation of second-order sections, reference filter and rounding bounds
#ifndef BIQUAD_GEN_HPP
#define BIQUAD_GEN_HPP
#include "fw/pbt.hpp"
#include "dsp/biquad.hpp"
#include <complex>
#include <vector>

namespace bq {

typedef long double L;
typedef std::complex<L> CL;

template< typename T >
struct Sec
{
    T b0{}, b1{}, b2{}, a1{}, a2{};
    dsp::biquad::BiQuadT<T> make() const
    {
        using B = dsp::biquad::BiQuadT<T>;
        return B( typename B::B{ b0, b1, b2 }, typename B::A{ a1, a2 } );
    }
    L bsum() const { return std::fabs( (L) b0 ) + std::fabs( (L) b1 ) + std::fabs( (L) b2 ); }
    L asum() const { return 1 + std::fabs( (L) a1 ) + std::fabs( (L) a2 ); }
    std::string str() const { std::ostringstream os; os.precision( 17 ); os << "b=[" << b0 << " " << b1 << " " << b2 << "] a=[1 " << a1 << " " << a2 << "]"; return os.str(); }
};

// poles within radius rmax; b general
template< typename T >
Sec<T> gen_stable( pbt::Gen & g, double rmax )
{
    Sec<T> s;
    double p, q;
    switch ( g.draw( 4 ) )
    {
    case 0: p = 0; q = 0; break;                                                             // FIR
    case 1: { double r = g.uniform( -rmax, rmax ); p = -r; q = 0; } break;                   // one real pole
    case 2: { double r1 = g.uniform( -rmax, rmax ), r2 = g.chance( 1, 5 ) ? r1 : g.uniform( -rmax, rmax ); p = -( r1 + r2 ); q = r1 * r2; } break;
    default: { double r = g.coin() ? g.uniform( 0, rmax ) : rmax * ( 1 - 0.2 * g.unit() ), t = g.uniform( 0, 3.14159 ); p = -2 * r * std::cos( t ); q = r * r; } break;
    }
    s.a1 = (T) p; s.a2 = (T) q;
    s.b0 = (T) g.real( -3, 3 ); s.b1 = g.chance( 1, 5 ) ? T( 0 ) : (T) g.real( -3, 3 ); s.b2 = g.chance( 1, 5 ) ? T( 0 ) : (T) g.real( -3, 3 );
    return s;
}

template< typename T >
Sec<T> gen_any( pbt::Gen & g )
{
    if ( g.coin() ) return gen_stable<T>( g, 0.98 );
    Sec<T> s;
    s.a1 = (T) g.real( -2.5, 2.5 ); s.a2 = (T) g.real( -1.5, 1.5 );
    s.b0 = (T) g.real( -3, 3 ); s.b1 = (T) g.real( -3, 3 ); s.b2 = (T) g.real( -3, 3 );
    return s;
}

// reference: direct form 1 for the output, plus the recursive part's state and impulse response for the bound
// (coefficients of type T, arithmetic at least as precise as E)
template< typename T, typename E = T >
struct Ref
{
    Sec<T> s;
    L x1 = 0, x2 = 0, y1 = 0, y2 = 0, w1 = 0, w2 = 0, h1 = 0, h2 = 0;
    L gain = 0, X = 0, Y = 0, W = 0;
    long n = 0;
    explicit Ref( Sec<T> const & s_ ) : s( s_ ) {}
    L step( L x )
    {
        L y = (L) s.b0 * x + (L) s.b1 * x1 + (L) s.b2 * x2 - (L) s.a1 * y1 - (L) s.a2 * y2;
        x2 = x1; x1 = x; y2 = y1; y1 = y;
        L w = x - (L) s.a1 * w1 - (L) s.a2 * w2; w2 = w1; w1 = w;
        L h = ( n == 0 ? 1 : 0 ) - (L) s.a1 * h1 - (L) s.a2 * h2; h2 = h1; h1 = h;
        gain += std::fabs( h );
        X = std::max( X, std::fabs( x ) ); Y = std::max( Y, std::fabs( y ) ); W = std::max( W, std::fabs( w ) );
        ++n;
        return y;
    }
    // bound on the rounding error of the output of any of the usual realisations
    L tol() const
    {
        L eps = std::numeric_limits<E>::epsilon(), tiny = std::numeric_limits<E>::min();
        L m = s.bsum() * ( X + s.asum() * W ) + s.asum() * ( s.bsum() * X + s.asum() * Y );
        return 16 * gain * ( eps * m + tiny * ( 1 + s.bsum() ) );
    }
    bool wild() const { L lim = sizeof( E ) == 4 ? 1e20L : 1e100L; return !( Y < lim && W < lim && gain < lim ); }
};

// an input sequence
template< typename T >
std::vector<T> gen_input( pbt::Gen & g, int avg, int max )
{
    std::vector<T> x;
    int n = 0;
    while ( g.more( avg, n, max ) )
        switch ( g.draw( 6 ) )
        {
        case 0: x.push_back( 0 ); break;
        case 1: x.push_back( 1 ); break;
        case 2: x.push_back( x.empty() ? T( -1 ) : x.back() ); break;
        case 3: x.push_back( (T) g.range( -100, 100 ) ); break;
        case 4: x.push_back( (T) g.real( -50, 50 ) ); break;
        default: x.push_back( (T)( g.real( -10, 10 ) * std::pow( 10.0, g.uniform( -8, 8 ) ) ) ); break;
        }
    return x;
}

template< typename T >
CL transfer( Sec<T> const & s, L f, CL * den = nullptr )
{
    L w = 2 * 3.14159265358979323846264338327950288L * f;
    CL z1( std::cos( w ), -std::sin( w ) ), z2( std::cos( 2 * w ), -std::sin( 2 * w ) );
    CL d = CL( 1 ) + (L) s.a1 * z1 + (L) s.a2 * z2;
    if ( den ) *den = d;
    return ( CL( (L) s.b0 ) + (L) s.b1 * z1 + (L) s.b2 * z2 ) / d;
}

// error bound of an evaluation of the transfer function in T at frequency f (rounded once)
template< typename T >
L transfer_tol( Sec<T> const & s, L f )
{
    CL d; CL h = transfer( s, f, &d );
    L eps = std::numeric_limits<T>::epsilon();
    L k = 8 * eps * ( 2 + 13 * std::fabs( f ) );
    L ad = std::abs( d );
    return k * ( s.bsum() + s.asum() * std::abs( h ) ) / ad * 1.5L + std::numeric_limits<T>::min();
}

// is the denominator far enough from zero for the bound to mean something?
template< typename T >
bool off_pole( Sec<T> const & s, L f )
{
    CL d; transfer( s, f, &d );
    return std::abs( d ) > 1000 * std::numeric_limits<T>::epsilon() * s.asum() * ( 1 + std::fabs( f ) );
}

inline std::string str( CL z ) { std::ostringstream os; os.precision( 17 ); os << z.real() << ( z.imag() < 0 ? "-" : "+" ) << std::fabs( z.imag() ) << "i"; return os.str(); }
template< typename C > CL cl( C const & z ) { return CL( (L) z.real(), (L) z.imag() ); }

} // namespace bq
#endif
