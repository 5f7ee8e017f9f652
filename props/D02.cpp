// D02: band-pass and band-stop designs meet their specification.
// fuzz: quick=10000 thorough=200000
#include "fw/design_gen.hpp"

using namespace pbt;
using namespace ds;

template< typename D, typename F, typename S, typename U >
void bands( Gen & g, Case & c )
{
    Request<D,F,S,U> q( g, false );
    using T = typename Request<D,F,S,U>::T;
    if ( g.chance( 1, 4 ) ) q.db = gen_db<D>( g );          // the gain argument has no effect on these designs
    int dp = 0, dn = 0;
    against_prototype<R::band_pass>( g, c, q, dp );
    against_prototype<R::band_stop>( g, c, q, dn );
    auto bp = Spec<T>( R::band_pass, 0, (L) q.f, (L) q.fs, (L) q.Q ), bs = Spec<T>( R::band_stop, 0, (L) q.f, (L) q.fs, (L) q.Q );
    auto p = arr( q.template design<R::band_pass>() ), s = arr( q.template design<R::band_stop>() );

    // in the centre: unit gain without phase shift, and no gain
    L t = bp.htol( bp.fn );
    if ( t >= 0 && t < 0.02L ) { CL h = eval( p, bp.fn ); PBT_CHECK( c, std::abs( h - CL( 1 ) ) <= t, "band-pass response at its frequency is " << bq::str( h ) << ", not 1: " << q.str() << " " << sarr( p ) ); ++dp; }
    t = bs.htol( bs.fn );
    if ( t >= 0 && t < 0.02L ) { L h = std::abs( eval( s, bs.fn ) ); PBT_CHECK( c, h <= t, "band-stop gain at its frequency is " << (double) h << ", not 0: " << q.str() << " " << sarr( s ) ); ++dn; }
    // at the ends: nothing, and unit gain
    for ( L f : { 0.0L, 0.5L } )
    {
        t = bp.htol( f );
        if ( t >= 0 && t < 0.02L ) { L h = std::abs( eval( p, f ) ); PBT_CHECK( c, h <= t, "band-pass gain at " << (double) f << " is " << (double) h << ", not 0: " << q.str() << " " << sarr( p ) ); }
        t = bs.htol( f );
        if ( t >= 0 && t < 0.02L ) { L h = std::abs( eval( s, f ) ); PBT_CHECK( c, std::fabs( h - 1 ) <= t, "band-stop gain at " << (double) f << " is " << (double) h << ", not 1: " << q.str() << " " << sarr( s ) ); }
    }
    L e = 16 * std::numeric_limits<T>::epsilon();
    PBT_CHECK( c, std::fabs( p[0] + p[2] ) <= e * std::fabs( p[0] ) && std::fabs( p[1] ) <= e * std::fabs( p[0] ), "band-pass has no zeros at both ends: " << q.str() << " " << sarr( p ) );
    // power complementary
    for ( auto f : probe( g, bp.fn ) )
    {
        L t1 = bp.htol( f ), t2 = bs.htol( f );
        if ( t1 < 0 || t2 < 0 || t1 > 0.01L || t2 > 0.01L ) continue;
        L h1 = std::norm( eval( p, f ) ), h2 = std::norm( eval( s, f ) );
        PBT_CHECK( c, std::fabs( h1 + h2 - 1 ) <= 2.2L * ( t1 + t2 ), "squared magnitudes at " << (double) f << " add up to " << (double)( h1 + h2 ) << ": " << q.str() );
        c.cls( "power complementary" );
    }
    c.nontriv( dp >= 5 && dn >= 5 );
    c.cls( "above quarter", bp.fn > 0.25L ); c.cls( "low frequency", bp.fn < 0.01L ); c.cls( "narrow", (L) q.Q > 5 ); c.cls( "wide", (L) q.Q < 0.3L );
}

Suite pbt::suite()
{
    return { "D02",
        "band-pass and band-stop designs for random f, fs, Q and argument types, their magnitude compared at 7 or more frequencies with the analog prototype at the warped frequency, plus response in the centre, gain at the ends, zeros, stability and power complementarity. Non-trivial: at least five comparisons per design were decided within the rounding bound.",
        { { "double", 3, bands<double,double,double,double> }, { "float", 2, bands<float,float,float,float> }, { "int", 1, bands<int,int,int,int> },
          { "int frequencies", 1, bands<int,int,int,double> }, { "mixed", 1, bands<float,double,int,float> } },
        100000, 3000000, { "above quarter", "low frequency", "narrow", "wide", "power complementary" } };
}
