// B03: poles, zeros, stability and zero-pole-gain construction are consistent.
// fuzz: quick=15000 thorough=300000
#include "fw/biquad_gen.hpp"

using namespace pbt;
using namespace bq;

// the roots of x^2 + p x + q
template< typename T, typename S >
void roots( Case & c, S const & s, L p, L q, char const * what, std::string const & of )
{
    CL u = cl( s.s0 ), v = cl( s.s1 );
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    L m = std::fabs( p ) + std::sqrt( std::fabs( q ) );
    PBT_CHECK( c, std::abs( u + v + p ) <= 32 * eps * m + tiny, what << " " << str( u ) << " and " << str( v ) << " of " << of << " add up to " << str( u + v ) << ", want " << -p );
    PBT_CHECK( c, std::abs( u * v - q ) <= 64 * eps * m * m + tiny, what << " " << str( u ) << " and " << str( v ) << " of " << of << " multiply to " << str( u * v ) << ", want " << q );
}

template< typename T >
void solver( Gen & g, Case & c )
{
    T a = (T) g.real( -10, 10 ), b = (T) g.real( -10, 10 ), q = (T) g.real( -10, 10 );
    if ( g.chance( 1, 4 ) )         // far from one
    {
        double const w = sizeof( T ) == 4 ? 6 : 60;
        double const m = std::pow( 10.0, g.uniform( -w, w ) );
        a = (T)( a * m ); b = (T)( b * m ); q = (T)( q * m );
        if ( a == 0 ) a = (T) m;
    }
    else if ( std::fabs( a ) < 1e-3 ) a = 1;
    PBT_LOG( c, a << " x^2 + " << b << " x + " << q );
    auto s = dsp::solve( a, b, q );
    std::ostringstream os; os << a << " x^2 + " << b << " x + " << q;
    roots<T>( c, s, (L) b / a, (L) q / a, "roots", os.str() );
    c.nontriv( b != 0 && q != 0 ); c.cls( "complex roots", (L) b * b < 4 * (L) a * q ); c.cls( "real roots", (L) b * b >= 4 * (L) a * q );
}

// the coarser of two types
template< typename T, typename S > using coarse = typename std::conditional< ( sizeof( T ) < sizeof( S ) ), T, S >::type;

// samples of type V, coefficients of type T
template< typename T, typename V = T >
void section( Gen & g, Case & c )
{
    auto s = gen_any<T>( g );
    bool exact = g.chance( 1, 8 );
    if ( exact )
    {
        // poles exactly on the unit circle, computed without rounding
        switch ( g.draw( 5 ) )
        {
        case 0: s.a1 = 0; s.a2 = 1; break; case 1: s.a1 = 0; s.a2 = -1; break; case 2: s.a1 = 1; s.a2 = 0; break;
        case 3: s.a1 = -1; s.a2 = 0; break; case 4: s.a1 = 2; s.a2 = 1; break; case 5: s.a1 = -2; s.a2 = 1; break;
        }
    }
    else if ( g.coin() )
    {
        // close to the edge of stability on either side
        L e = g.pick( { 1e-3, 1e-2, 0.05, 0.3 } ) * ( g.coin() ? 1 : -1 );
        switch ( g.draw( 2 ) )
        {
        case 0: { L r = 1 + e, t = g.uniform( 0.2, 2.9 ); s.a1 = (T)( -2 * r * std::cos( t ) ); s.a2 = (T)( r * r ); } break;
        case 1: { L r = g.uniform( -0.9, 0.9 ), k = ( 1 + e ) * ( g.coin() ? 1 : -1 ); s.a1 = (T)( -( r + k ) ); s.a2 = (T)( r * k ); } break;
        case 2: { L k = ( 1 + e ), m = ( 1 + e ); s.a1 = (T)( m - k ); s.a2 = (T)( -m * k ); } break;
        }
    }
    using Q = dsp::biquad::BiQuadT<V,T>; using E = coarse<T,V>;
    Q const b( typename Q::B{ s.b0, s.b1, s.b2 }, typename Q::A{ s.a1, s.a2 } );
    PBT_LOG( c, s.str() );
    roots<E>( c, b.poles(), s.a1, s.a2, "poles", s.str() );
    if ( std::fabs( s.b0 ) > 1e-3 ) { roots<E>( c, b.zeros(), (L) s.b1 / s.b0, (L) s.b2 / s.b0, "zeros", s.str() ); c.cls( "zeros" ); }
    // largest pole radius
    L p = s.a1, q = s.a2, disc = p * p - 4 * q, r, sep = std::sqrt( std::fabs( disc ) );
    if ( disc < 0 ) r = std::sqrt( q );
    else r = ( std::fabs( p ) + std::sqrt( disc ) ) / 2;
    L d = 32 * std::numeric_limits<E>::epsilon() * ( 1 + p * p + std::fabs( q ) );
    L margin = sep > 0 ? std::min( std::sqrt( d ), d / sep ) : std::sqrt( d );
    bool st = b.is_stable();
    if ( exact ) { PBT_CHECK( c, st, "poles on the unit circle, reported unstable: " << s.str() ); c.cls( "exactly on the unit circle" ); }
    else if ( std::fabs( r - 1 ) > 2 * margin )
    {
        PBT_CHECK( c, st == ( r < 1 ), "largest pole radius " << r << ", reported " << ( st ? "stable" : "unstable" ) << ": " << s.str() );
        c.cls( "stable", r < 1 ); c.cls( "unstable", r > 1 );
        c.cls( "stable, complex poles outside 0.9", r < 1 && r > 0.9 && disc < 0 ); c.cls( "unstable by the second pole", r > 1 && disc > 0 && p > 0 );
        c.cls( "unstable by the first pole", r > 1 && disc > 0 && p < 0 );
    }
    c.nontriv( s.a1 != 0 || s.a2 != 0 ); c.cls( "coefficients of another type", !std::is_same<T,V>::value );
}

template< typename T, typename U = T >
void zpk( Gen & g, Case & c )
{
    using B = dsp::biquad::BiQuadT<T,U>;
    using S = typename B::Solution;
    using C = typename B::Complex;
    auto pair = [&]( double lim, L & p, L & q, bool & cplx )
    {
        if ( ( cplx = g.coin() ) )
        {
            T re = (T) g.real( -lim, lim ), im = (T) g.real( -lim, lim );
            if ( im == 0 ) im = T( 0.5 );
            p = -2 * (L) re; q = (L) re * re + (L) im * im;
            return S{ C( re, im ), C( re, -im ) };
        }
        T r1 = (T) g.real( -lim, lim ), r2 = (T) g.real( -lim, lim );
        p = -( (L) r1 + r2 ); q = (L) r1 * r2;
        return S{ C( r1, 0 ), C( r2, 0 ) };
    };
    L zp, zq, pp, pq; bool zc, pc;
    S z = pair( 2, zp, zq, zc ), p = pair( 1.2, pp, pq, pc );
    T k = (T) g.real( -5, 5 );
    if ( std::fabs( k ) < 1e-3 ) k = 1;
    B const b( z, p, k );
    std::ostringstream os; os << "zeros " << str( cl( z.s0 ) ) << ", " << str( cl( z.s1 ) ) << " poles " << str( cl( p.s0 ) ) << ", " << str( cl( p.s1 ) ) << " gain " << k;
    PBT_LOG( c, os.str() );
    L eps = std::numeric_limits<coarse<T,U>>::epsilon();
    auto near = [&]( L got, L want, L scale, char const * what ) { PBT_CHECK( c, std::fabs( got - want ) <= 16 * eps * ( std::fabs( want ) + scale ), what << " is " << got << " want " << want << " for " << os.str() ); };
    auto mag = [&]( S const & s ) { return std::abs( cl( s.s0 ) ) + std::abs( cl( s.s1 ) ); };
    auto cb = b.coeff_b(); auto ca = b.coeff_a();
    near( cb.b0, k, 0, "b0" ); near( cb.b1, k * zp, std::fabs( (L) k ) * mag( z ), "b1" ); near( cb.b2, k * zq, std::fabs( (L) k ) * mag( z ) * mag( z ), "b2" );
    near( ca.a1, pp, mag( p ), "a1" ); near( ca.a2, pq, mag( p ) * mag( p ), "a2" );
    PBT_CHECK( c, b.state().v1 == 0 && b.state().v2 == 0, "state of a new section is not zero" );
    // reported zeros and poles solve the polynomials with the given roots
    auto again = [&]( auto const & s, S const & given, L p, L q, char const * what )
    {
        CL u = cl( s.s0 ), v = cl( s.s1 );
        L m = mag( given ) + 1e-30L;
        PBT_CHECK( c, std::abs( u + v + p ) <= 200 * eps * m && std::abs( u * v - q ) <= 400 * eps * m * m, what << " read back as " << str( u ) << ", " << str( v ) << " for " << os.str() );
    };
    c.cls( "zero-pole-gain of coefficients of another type", !std::is_same<T,U>::value );
    again( b.zeros(), z, zp, zq, "zeros" ); again( b.poles(), p, pp, pq, "poles" );
    c.nontriv( mag( z ) > 0 && mag( p ) > 0 );
    c.cls( "complex zeros and real poles", zc && !pc ); c.cls( "real zeros and complex poles", !zc && pc ); c.cls( "all complex", zc && pc ); c.cls( "all real", !zc && !pc );
}

Suite pbt::suite()
{
    return { "B03",
        "random quadratics, random sections (also near and exactly on the edge of stability) and random conjugate or real zero/pole pairs with gain; sums and products of the reported roots against the coefficients, stability against the largest pole radius in long double, zero-pole-gain coefficients and their read-back. Non-trivial: not all roots zero.",
        { { "solve double", 1, solver<double> }, { "solve float", 1, solver<float> }, { "section double", 3, section<double> }, { "section float", 2, section<float> }, { "zpk double", 2, zpk<double> }, { "zpk float", 1, zpk<float> }, { "section of float, coefficients double", 1, section<double,float> }, { "section of double, coefficients float", 1, section<float,double> }, { "zpk of float, coefficients double", 1, zpk<float,double> }, { "zpk of double, coefficients float", 1, zpk<double,float> } },
        800000, 25000000, { "complex roots", "real roots", "zeros", "exactly on the unit circle", "stable", "unstable", "unstable by the second pole", "unstable by the first pole", "complex zeros and real poles", "real zeros and complex poles", "all complex", "all real", "coefficients of another type", "zero-pole-gain of coefficients of another type" } };
}
