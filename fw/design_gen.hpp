// specifications, reference coefficients and rounding bounds of second-order designs
#ifndef DESIGN_GEN_HPP
#define DESIGN_GEN_HPP
#include "fw/biquad_gen.hpp"
#include "dsp/biquad-design.hpp"
#include "dsp/filter-design.hpp"
#include <array>
#include <type_traits>

namespace ds {

using bq::L; using bq::CL; using bq::Sec;
using R = dsp::FilterResponse;
constexpr L PI = 3.14159265358979323846264338327950288L;

// a frequency and a sampling rate, 0 < f < fs/2, ratio in [lo, 0.499]
template< typename F, typename S >
void gen_freq( pbt::Gen & g, double lo, F & f, S & fs )
{
    double r;
    switch ( g.draw( 6 ) )
    {
    case 0: r = 0.25; break;
    case 1: r = 0.1; break;
    case 2: r = g.uniform( 0.3, 0.499 ); break;
    case 3: r = lo * std::pow( 0.4 / lo, g.unit() ); break;
    case 4: { double const l = std::max( lo, 1e-3 ); r = l * std::pow( 0.4 / l, g.unit() ); } break;
    case 5: r = 0.5 - 0.001 * std::pow( 100.0, g.unit() ); break;
    default: r = g.uniform( lo, 0.499 ); break;
    }
    if ( std::is_integral<F>::value && std::is_integral<S>::value )
    {
        long n = g.draw( 2 ) == 0 ? g.range( 3, 30 ) : g.range( 3, 48000 );
        long m = std::lround( r * n );
        fs = (S) n; f = (F) std::max( 1L, std::min( m, ( n - 1 ) / 2 ) );
    }
    else if ( std::is_integral<F>::value ) { long m = g.range( 1, 10000 ); f = (F) m; fs = (S)( m / r ); }
    else if ( std::is_integral<S>::value ) { long n = g.range( 1, 48000 ); fs = (S) n; f = (F)( r * n ); }
    else
    {
        static const double usual[] = { 1, 2, 8000, 44100, 48000, 100, 1000, 0.5 };
        double n = g.coin() ? usual[ g.draw( 7 ) ] : std::pow( 10.0, g.uniform( -4, 7 ) );
        fs = (S) n; f = (F)( r * (double) fs );
    }
    L q = (L) f / (L) fs;
    if ( !( q >= 0.999L * lo && q <= 0.4995L ) ) throw pbt::Discard();
}

template< typename U >
U gen_q( pbt::Gen & g )
{
    if ( std::is_integral<U>::value ) return (U) g.range( 1, 40 );
    switch ( g.draw( 6 ) )
    {
    case 0: return (U) 1;
    case 1: return (U) 0.70710678118654752440;
    case 2: return (U) 0.5;
    case 3: return (U) std::pow( 10.0, g.uniform( -1.3, 0 ) );
    case 4: return (U) std::pow( 10.0, g.uniform( -3, 4 ) );
    default: return (U) std::pow( 10.0, g.uniform( -1.3, 1.7 ) );
    }
}

template< typename D >
D gen_db( pbt::Gen & g )
{
    if ( std::is_integral<D>::value || g.chance( 1, 4 ) ) return (D) g.range( -60, 60 );
    return g.chance( 1, 6 ) ? (D) g.uniform( -150, 150 ) : (D) g.real( -60, 60 );
}

// b0 b1 b2 a1 a2 of the bilinear transform of the analog prototype at K = tan(pi f/fs); V = 10^(|dB|/20)
inline std::array<L,5> coefs( R r, bool cut, L V, L K, L Q )
{
    // analog numerator and denominator n2 s^2 + n1 s + n0 in units of the design frequency
    L n2 = 0, n1 = 0, n0 = 0, d2 = 1, d1 = 1 / Q, d0 = 1;
    switch ( r )
    {
    case R::low_pass:     n0 = 1; break;
    case R::high_pass:    n2 = 1; break;
    case R::band_pass:    n1 = 1 / Q; break;
    case R::band_stop:    n2 = n0 = 1; break;
    case R::low_shelf:    d1 = std::sqrt( 2.0L ); n2 = 1; n1 = std::sqrt( 2 * V ); n0 = V; break;
    case R::high_shelf:   d1 = std::sqrt( 2.0L ); n2 = V; n1 = std::sqrt( 2 * V ); n0 = 1; break;
    case R::peak_band_eq: n2 = n0 = 1; n1 = V / Q; break;
    default: std::abort();
    }
    if ( cut ) { std::swap( n2, d2 ); std::swap( n1, d1 ); std::swap( n0, d0 ); }
    // s = (1/K) (1 - z)/(1 + z), z the delay: multiply by K^2 (1+z)^2
    L k2 = K * K, N = d2 + d1 * K + d0 * k2;
    return { ( n2 + n1 * K + n0 * k2 ) / N, 2 * ( n0 * k2 - n2 ) / N, ( n2 - n1 * K + n0 * k2 ) / N,
             2 * ( d0 * k2 - d2 ) / N, ( d2 - d1 * K + d0 * k2 ) / N };
}

inline CL eval( std::array<L,5> const & c, L f, CL * den = nullptr )
{
    // 1 - z and 1 + z instead of powers of z: no cancellation near 0 and 1/2
    L w = PI * f;
    CL m = CL( 0, 2 * std::sin( w ) ), p = CL( 2 * std::cos( w ), 0 );      // times exp(-jw)
    auto quad = [&]( L c0, L c1, L c2 )                                       // c0 + c1 z + c2 z^2, times exp(2jw)
    {
        // = A m^2 + B m p + C p^2 with A+B+C = c0, 2(C-A) = c1, A-B+C = c2
        L s = ( c0 + c2 ) / 2, B = ( c0 - c2 ) / 2, C = ( s + c1 / 2 ) / 2, A = ( s - c1 / 2 ) / 2;
        return A * m * m + B * m * p + C * p * p;
    };
    CL d = quad( 1, c[3], c[4] );
    if ( den ) *den = d;
    return quad( c[0], c[1], c[2] ) / d;
}

// a design request with its reference
template< typename T >
struct Spec
{
    R r; bool cut; L V, K, Q, fn;
    std::array<L,5> ref, tol;      // coefficients and bound on their rounding error
    Spec( R r_, L db, L f, L fs, L Q_ )
    : r( r_ ), cut( db < 0 && ( r_ == R::low_shelf || r_ == R::high_shelf || r_ == R::peak_band_eq ) ), V( std::pow( 10.0L, std::fabs( db ) / 20 ) ), Q( Q_ ), fn( f / fs )
    {
        L x = PI * fn, eps = std::numeric_limits<T>::epsilon();
        K = std::tan( x );
        L dK = eps * ( 4 + 4 * x / ( std::sin( x ) * std::cos( x ) ) );
        L dV = eps * ( 8 + 2 * std::fabs( db ) / 10 * 2.302585L );
        bool v = r == R::low_shelf || r == R::high_shelf || r == R::peak_band_eq;
        ref = coefs( r, cut, V, K, Q );
        auto k1 = coefs( r, cut, V, K * ( 1 + dK ), Q ), k2 = coefs( r, cut, V, K * ( 1 - dK ), Q );
        auto v1 = v ? coefs( r, cut, V * ( 1 + dV ), K, Q ) : ref, v2 = v ? coefs( r, cut, V * ( 1 - dV ), K, Q ) : ref;
        L sb = std::max( std::fabs( ref[0] ), std::max( std::fabs( ref[1] ), std::fabs( ref[2] ) ) );
        for ( int i = 0; i < 5; ++i )
            tol[i] = 2 * ( std::max( std::fabs( k1[i] - ref[i] ), std::fabs( k2[i] - ref[i] ) ) + std::max( std::fabs( v1[i] - ref[i] ), std::fabs( v2[i] - ref[i] ) ) )
                   + 16 * eps * ( i < 3 ? sb : 2 ) + std::numeric_limits<T>::min();
    }
    // bound on the error of the response at normalised frequency f when the coefficients are within tol; < 0: cannot be decided
    L htol( L f ) const
    {
        CL d; CL h = eval( ref, f, &d );
        L ta = tol[3] + tol[4], tb = tol[0] + tol[1] + tol[2], ad = std::abs( d );
        if ( ta > 0.05L * ad ) return -1;
        return 1.1L * ( tb + ta * std::abs( h ) ) / ad;
    }
    // the same for an evaluation of the response in T
    L rtol( L f ) const
    {
        L t = htol( f );
        if ( t < 0 ) return t;
        Sec<T> s; s.b0 = (T) ref[0]; s.b1 = (T) ref[1]; s.b2 = (T) ref[2]; s.a1 = (T) ref[3]; s.a2 = (T) ref[4];
        CL d; eval( ref, f, &d );
        L eps = std::numeric_limits<T>::epsilon();
        L e = 12 * eps * ( 2 + 13 * std::fabs( f ) ) * s.asum();
        if ( e > 0.05L * std::abs( d ) ) return -1;
        return t + 12 * eps * ( 2 + 13 * std::fabs( f ) ) * ( s.bsum() + s.asum() * std::abs( eval( ref, f ) ) ) / std::abs( d ) * 1.1L + std::numeric_limits<T>::min();
    }
    CL H( L f ) const { return eval( ref, f ); }
};

template< typename C > std::array<L,5> arr( C const & c ) { return { (L) c.b.b0, (L) c.b.b1, (L) c.b.b2, (L) c.a.a1, (L) c.a.a2 }; }
template< typename A > std::string sarr( A const & c ) { std::ostringstream os; os.precision( 12 ); os << "b=[" << (double) c[0] << " " << (double) c[1] << " " << (double) c[2] << "] a=[1 " << (double) c[3] << " " << (double) c[4] << "]"; return os.str(); }

// strictly inside the unit circle (Jury)
inline bool jury( std::array<L,5> const & c ) { return std::fabs( c[4] ) < 1 && std::fabs( c[3] ) < 1 + c[4]; }

template< typename D, typename F, typename S, typename U >
struct Request
{
    using T = std::common_type_t<float,D,F,S,U>;
    D db; F f; S fs; U Q;
    static double lo() { return sizeof( T ) == 4 ? 2e-3 : 1e-6; }
    Request( pbt::Gen & g, bool gain )
    {
        db = gain ? gen_db<D>( g ) : D( 0 );
        gen_freq( g, lo(), f, fs );
        Q = gen_q<U>( g );
    }
    template< R r > auto design() const { return dsp::biquad_design<r>( db, f, fs, Q ); }
    template< R r > Spec<T> spec() const { return Spec<T>( r, (L) db, (L) f, (L) fs, (L) Q ); }
    std::string str() const { std::ostringstream os; os.precision( 17 ); os << "dB=" << db << " f=" << f << " fs=" << fs << " Q=" << Q << ( sizeof( T ) == 4 ? " (float)" : " (double)" ); return os.str(); }
};

// frequencies worth looking at
inline std::vector<L> probe( pbt::Gen & g, L fn )
{
    std::vector<L> v{ 0, 0.5L, fn };
    for ( int i = 0; i < 4; ++i )
        switch ( g.draw( 3 ) )
        {
        case 0: v.push_back( g.uniform( 0, 0.5 ) ); break;
        case 1: v.push_back( fn * std::pow( 10.0, g.uniform( -1.5, 0 ) ) ); break;
        case 2: v.push_back( fn + ( 0.5 - fn ) * g.unit() ); break;
        default: v.push_back( std::min<L>( 0.5L, fn * g.uniform( 0.9, 1.1 ) ) ); break;
        }
    return v;
}

// the design has the response of its prototype and is stable
template< R r, typename Req >
void against_prototype( pbt::Gen & g, pbt::Case & c, Req const & q, int & decided )
{
    using T = typename Req::T;
    auto sp = q.template spec<r>();
    auto co = q.template design<r>();
    static_assert( std::is_same<typename decltype( co )::value_type, T>::value, "common type" );
    auto a = arr( co );
    PBT_LOG( c, q.str() << " -> " << sarr( a ) << "\n" );
    auto sec = dsp::make_biquad( co );
    PBT_CHECK( c, sec.coeff_b().b0 == co.b.b0 && sec.coeff_b().b1 == co.b.b1 && sec.coeff_b().b2 == co.b.b2 && sec.coeff_a().a1 == co.a.a1 && sec.coeff_a().a2 == co.a.a2, "the section has other coefficients than the design" );
    L margin = std::min( 1 - std::fabs( sp.ref[4] ), 1 + sp.ref[4] - std::fabs( sp.ref[3] ) );
    if ( margin > 4 * ( sp.tol[3] + sp.tol[4] ) )
    {
        PBT_CHECK( c, jury( a ), "unstable design: " << sarr( a ) );
        // the reported stability is decided by computed roots, accurate to the square root of the precision near double roots
        if ( margin * margin > 1e4L * std::numeric_limits<T>::epsilon() ) PBT_CHECK( c, sec.is_stable(), "design reported unstable: " << sarr( a ) );
    }
    auto p = probe( g, sp.fn );
    for ( auto f : p )
    {
        CL want = sp.H( f );
        L t = sp.htol( f );
        if ( t < 0 || t > 0.02L * ( 1 + std::abs( want ) ) ) continue;
        L got = std::abs( eval( a, f ) );
        ++decided;
        PBT_CHECK( c, std::fabs( got - std::abs( want ) ) <= t, "magnitude at " << (double) f << " of the sampling rate is " << (double) got << ", prototype has " << (double) std::abs( want ) << " (bound " << (double) t << "), " << q.str() << " " << sarr( a ) << ", reference " << sarr( sp.ref ) );
        T fT = (T) f;
        t = sp.rtol( (L) fT );
        if ( t < 0 || t > 0.02L * ( 1 + std::abs( want ) ) ) continue;
        got = std::abs( bq::cl( response( sec, fT ) ) );
        want = sp.H( (L) fT );
        PBT_CHECK( c, std::fabs( got - std::abs( want ) ) <= t, "reported magnitude at " << fT << " is " << (double) got << ", prototype has " << (double) std::abs( want ) << " (bound " << (double) t << "), " << q.str() );
    }
}

} // namespace ds
#endif
