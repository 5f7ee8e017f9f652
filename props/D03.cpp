// D03: shelving and peaking designs give the requested gain where requested.
// fuzz: quick=10000 thorough=200000
#include "fw/design_gen.hpp"

using namespace pbt;
using namespace ds;

template< R r, typename D, typename F, typename S, typename U >
void eq( Gen & g, Case & c )
{
    Request<D,F,S,U> q( g, true );
    using T = typename Request<D,F,S,U>::T;
    if ( g.chance( 1, 12 ) ) q.db = D( 0 );
    int decided = 0;
    against_prototype<r>( g, c, q, decided );
    auto sp = q.template spec<r>();
    auto a = arr( q.template design<r>() );
    L want = std::pow( 10.0L, (L) q.db / 20 );
    auto gain = [&]( L f, L w, char const * where )
    {
        L t = sp.htol( f ), got = std::abs( eval( a, f ) );
        if ( t < 0 || t > 0.02L * ( w + 1 ) ) return;
        PBT_CHECK( c, std::fabs( got - w ) <= t, "gain " << where << " is " << (double) got << ", not " << (double) w << ": " << q.str() << " " << sarr( a ) );
        ++decided;
    };
    gain( 0, r == R::low_shelf ? want : 1, "at DC" );
    gain( 0.5L, r == R::high_shelf ? want : 1, "at half the sampling rate" );
    if ( r == R::peak_band_eq ) gain( sp.fn, want, "at the centre" );
    for ( auto f : probe( g, sp.fn ) )
    {
        L t = sp.htol( f ), got = std::abs( eval( a, f ) );
        if ( t < 0 || t > 0.02L * ( want + 1 ) ) continue;
        PBT_CHECK( c, got >= std::min( want, 1.0L ) - t && got <= std::max( want, 1.0L ) + t, "gain " << (double) got << " at " << (double) f << " is not between 1 and " << (double) want << ": " << q.str() << " " << sarr( a ) );
    }
    // a cut undoes the boost
    if ( q.db != D( 0 ) )
    {
        auto inv = q; inv.db = D( -q.db );
        auto sq = inv.template spec<r>();
        auto b = arr( inv.template design<r>() );
        for ( auto f : probe( g, sp.fn ) )
        {
            L t1 = sp.htol( f ), t2 = sq.htol( f ), h1 = std::abs( sp.H( f ) ), h2 = std::abs( sq.H( f ) );
            if ( t1 < 0 || t2 < 0 || t1 > 0.01L * h1 || t2 > 0.01L * h2 ) continue;
            CL h = eval( a, f ) * eval( b, f );
            PBT_CHECK( c, std::abs( h - CL( 1 ) ) <= 1.1L * ( t1 * h2 + t2 * h1 ), "boost and cut do not cancel at " << (double) f << ": " << bq::str( h ) << " " << q.str() );
            c.cls( "boost and cut" );
        }
    }
    else
    {
        for ( auto f : probe( g, sp.fn ) )
        {
            L t = sp.htol( f );
            if ( t < 0 || t > 0.02L ) continue;
            CL h = eval( a, f );
            PBT_CHECK( c, std::abs( h - CL( 1 ) ) <= t, "0 dB changes the signal at " << (double) f << ": " << bq::str( h ) << " " << q.str() );
            c.cls( "no gain" );
        }
    }
    (void) sizeof( T );
    c.nontriv( decided >= 5 && q.db != D( 0 ) );
    c.cls( "boost", q.db > 0 ); c.cls( "cut", q.db < 0 ); c.cls( "strong", std::fabs( (L) q.db ) > 20 ); c.cls( "slight", q.db != 0 && std::fabs( (L) q.db ) <= 3 );
}

template< R r >
void subs( std::vector<Prop> & v, std::string n )
{
    v.push_back( { n + " double", 3, eq<r,double,double,double,double> } );
    v.push_back( { n + " float", 2, eq<r,float,float,float,float> } );
    v.push_back( { n + " int", 1, eq<r,int,int,int,int> } );
    v.push_back( { n + " int gain", 1, eq<r,int,double,double,double> } );
}

Suite pbt::suite()
{
    std::vector<Prop> v;
    subs<R::low_shelf>( v, "low shelf" ); subs<R::high_shelf>( v, "high shelf" ); subs<R::peak_band_eq>( v, "peak" );
    return { "D03",
        "shelving and peaking designs for random gains, f, fs, Q and argument types, their magnitude compared at 7 or more frequencies with the analog prototype at the warped frequency, plus the gains at the ends and in the centre, bounds in between, the cancellation of boost and cut, 0 dB and stability. Non-trivial: gain not 0 dB and at least five comparisons were decided within the rounding bound.",
        v, 150000, 4000000, { "boost", "cut", "strong", "slight", "boost and cut", "no gain" } };
}
