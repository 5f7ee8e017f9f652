// F03: fixed-point product and quotient are correct to one unit.
// fuzz: quick=20000 thorough=400000
#include "fw/fixed_gen.hpp"

using namespace pbt;
using namespace fx;

inline W floor_div( W a, W b ) { W q = a / b; if ( a % b != 0 && ( a < 0 ) != ( b < 0 ) ) --q; return q; }

template< typename X >
void pair( Case & c, int64_t ra, int64_t rb )
{
    using M = Fmt<X>;
    X const a = make<X>( ra ), b = make<X>( rb );
    auto want = [&]( X got, W w, char const * what ) { PBT_CHECK( c, got.underlying_value() == w, M::name() << ": " << what << " of representations " << ra << " and " << rb << " is " << (long long) got.underlying_value() << " want " << (long long) w ); };
    W one = W( 1 ) << M::F;
    W p = floor_div( (W) ra * rb, one );
    if ( fits( p, M::lo, M::hi ) )
    {
        want( a * b, p, "product" ); X t = a; auto r = ( t *= b ); want( t, p, "compound product" ); want( r, p, "result of compound product" );
        c.nontriv( ra != 0 && rb != 0 ); c.cls( "inexact product", (W) ra * rb % one != 0 ); c.cls( "product rounds down below zero", p < 0 && (W) ra * rb % one != 0 ); c.cls( "product at an extreme", p == M::lo || p == M::hi );
    }
    if ( rb != 0 )
    {
        W q = (W) ra * one / rb;
        if ( fits( q, M::lo, M::hi ) )
        {
            want( a / b, q, "quotient" ); X t = a; auto r = ( t /= b ); want( t, q, "compound quotient" ); want( r, q, "result of compound quotient" );
            c.nontriv( ra != 0 ); c.cls( "inexact quotient", (W) ra * one % rb != 0 ); c.cls( "negative inexact quotient", q < 0 && (W) ra * one % rb != 0 );
        }
    }
    want( a, ra, "left operand after use" ); want( b, rb, "right operand after use" );
}

template< typename X >
void muldiv( Gen & g, Case & c )
{
    using M = Fmt<X>;
    int64_t ra = gen_rep<X>( g ), rb = gen_rep<X>( g );
    if ( g.coin() && rb != 0 )
    {
        // steer towards representable products
        double lim = (double) M::hi * std::ldexp( 1.0, M::F ) / std::fabs( (double) rb );
        if ( std::fabs( (double) ra ) > lim ) ra = (int64_t)( ( ra < 0 ? -lim : lim ) * g.unit() );
    }
    PBT_LOG( c, M::name() << " representations " << ra << " and " << rb );
    pair<X>( c, ra, rb );
}

template< typename X >
void dense8( Gen & g, Case & c )
{
    // one left operand against all 256 right operands
    int64_t ra = g.range( -128, 127 );
    PBT_LOG( c, Fmt<X>::name() << " representation " << ra << " with all 256 others" );
    for ( int64_t rb = -128; rb <= 127; ++rb ) pair<X>( c, ra, rb );
    c.cls( "dense 8-bit" );
}

Suite pbt::suite()
{
    return { "F03",
        "23 formats over 8, 16 and 32-bit representations; operand pairs biased to boundaries and to representable results, and for 8-bit formats one operand against all 256 others; product against the exact product rounded down, quotient against the exact quotient rounded towards zero, in 128-bit integers. Non-trivial: both operands non-zero and the result representable.",
        { { "pairs", 50, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { muldiv<decltype( x )>( g, c ); } ); } },
          { "dense 8-bit", 1, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { if constexpr ( sizeof( typename Fmt<decltype( x )>::rep ) == 1 ) dense8<decltype( x )>( g, c ); else throw Discard(); } ); } } },
        2000000, 80000000, { "inexact product", "product rounds down below zero", "inexact quotient", "negative inexact quotient", "dense 8-bit", "product at an extreme" } };
}
