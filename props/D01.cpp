// D01: low-pass and high-pass designs meet their specification.
// fuzz: quick=10000 thorough=200000
#include "fw/design_gen.hpp"

using namespace pbt;
using namespace ds;

template< R r, typename D, typename F, typename S, typename U >
void lphp( Gen & g, Case & c )
{
    Request<D,F,S,U> q( g, false );
    using T = typename Request<D,F,S,U>::T;
    if ( g.chance( 1, 4 ) ) q.db = gen_db<D>( g );          // the gain argument has no effect on these designs
    int decided = 0;
    auto sp = Spec<T>( r, 0, (L) q.f, (L) q.fs, (L) q.Q );
    auto a = arr( q.template design<r>() );
    against_prototype<r>( g, c, q, decided );
    // stated separately: gain at the pass end, double zero at the other, gain Q at f
    L pass = r == R::low_pass ? 0 : 0.5L, stop = 0.5L - pass;
    auto gain = [&]( L f, L want, char const * where )
    {
        L t = sp.htol( f ), got = std::abs( eval( a, f ) );
        if ( t < 0 || t > 0.02L * ( 1 + want ) ) return;
        PBT_CHECK( c, std::fabs( got - want ) <= t, "gain " << where << " is " << (double) got << ", not " << (double) want << ": " << q.str() << " " << sarr( a ) );
        ++decided;
    };
    gain( pass, 1, "at the pass-band end" );
    gain( sp.fn, (L) q.Q, "at the design frequency" );
    gain( stop, 0, "at the stop-band end" );
    L sgn = r == R::low_pass ? 1 : -1, e = 16 * std::numeric_limits<T>::epsilon() * std::fabs( a[0] );
    PBT_CHECK( c, std::fabs( a[1] - sgn * 2 * a[0] ) <= e && std::fabs( a[2] - a[0] ) <= e, "no double zero at the stop-band end: " << q.str() << " " << sarr( a ) );
    if ( (L) q.Q <= 0.70710678L )
    {
        L last = -1, tl = 0;
        for ( int i = 0; i <= 40; ++i )
        {
            L f = 0.5L * i / 40;
            if ( r == R::low_pass ) f = 0.5L - f;          // from the stop band to the pass band: rising
            L t = sp.htol( f ), m = std::abs( eval( a, f ) );
            if ( t < 0 || t > 0.02L ) continue;
            PBT_CHECK( c, m >= last - t - tl, "magnitude not monotone: falls to " << (double) m << " at " << (double) f << " on the way to the pass band, " << q.str() << " " << sarr( a ) );
            last = m; tl = t;
        }
        c.cls( "monotone" );
    }
    c.nontriv( decided >= 6 );
    c.cls( "above quarter", sp.fn > 0.25L ); c.cls( "low frequency", sp.fn < 0.01L ); c.cls( "resonant", (L) q.Q > 2 );
}

template< R r >
std::vector<Prop> subs( std::string n )
{
    return { { n + " double", 3, lphp<r,double,double,double,double> }, { n + " float", 2, lphp<r,float,float,float,float> },
             { n + " int", 1, lphp<r,int,int,int,int> }, { n + " int frequencies", 1, lphp<r,int,int,int,double> },
             { n + " mixed", 1, lphp<r,int,float,double,int> } };
}

Suite pbt::suite()
{
    auto v = subs<R::low_pass>( "low-pass" ), w = subs<R::high_pass>( "high-pass" );
    v.insert( v.end(), w.begin(), w.end() );
    return { "D01",
        "low-pass and high-pass designs for random f, fs, Q and argument types, their magnitude compared at 7 or more frequencies with the analog prototype at the warped frequency, plus the end and centre gains, the double zero, stability and (Q at most 0.707) monotonicity. Non-trivial: at least six comparisons were decided within the rounding bound.",
        v, 150000, 4000000, { "above quarter", "low frequency", "resonant", "monotone" } };
}
