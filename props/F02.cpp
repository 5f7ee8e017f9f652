// F02: fixed-point addition, subtraction, negation and ordering are exact.
// fuzz: quick=20000 thorough=400000
#include "fw/fixed_gen.hpp"

using namespace pbt;
using namespace fx;

template< typename X >
void arithmetic( Gen & g, Case & c )
{
    using M = Fmt<X>;
    int64_t ra = gen_rep<X>( g ), rb = g.chance( 1, 8 ) ? ra + g.range( -1, 1 ) : gen_rep<X>( g );
    if ( !fits( rb, M::lo, M::hi ) ) rb = ra;
    X const a = make<X>( ra ), b = make<X>( rb );
    PBT_LOG( c, M::name() << " representations " << ra << " and " << rb );
    auto want = [&]( X got, W w, char const * what ) { PBT_CHECK( c, got.underlying_value() == w, M::name() << ": " << what << " of representations " << ra << " and " << rb << " is " << (long long) got.underlying_value() << " want " << (long long) w ); };
    want( +a, ra, "unary plus" );
    if ( fits( -(W) ra, M::lo, M::hi ) ) want( -a, -(W) ra, "negation" );
    W s = (W) ra + rb, d = (W) ra - rb;
    bool fs = fits( s, M::lo, M::hi ), fd = fits( d, M::lo, M::hi );
    if ( fs ) { want( a + b, s, "sum" ); X t = a; auto r = ( t += b ); want( t, s, "compound sum" ); want( r, s, "result of compound sum" ); }
    if ( fd ) { want( a - b, d, "difference" ); X t = a; auto r = ( t -= b ); want( t, d, "compound difference" ); want( r, d, "result of compound difference" ); }
    want( a, ra, "left operand after use" ); want( b, rb, "right operand after use" );
    auto cmp = [&]( bool got, bool w, char const * what ) { PBT_CHECK( c, got == w, M::name() << ": representation " << ra << " " << what << " " << rb << " is " << got ); };
    cmp( a == b, ra == rb, "==" ); cmp( a != b, ra != rb, "!=" ); cmp( a < b, ra < rb, "<" ); cmp( a <= b, ra <= rb, "<=" ); cmp( a > b, ra > rb, ">" ); cmp( a >= b, ra >= rb, ">=" );
    c.nontriv( ra != 0 && rb != 0 && ( fs || fd ) );
    c.cls( "equal", ra == rb ); c.cls( "adjacent", ra - rb == 1 || rb - ra == 1 ); c.cls( "opposite signs", ( ra < 0 ) != ( rb < 0 ) );
    c.cls( "sum at an extreme", fs && ( s == M::lo || s == M::hi ) );
}

// one operand is a plain number
template< typename X >
void mixed( Gen & g, Case & c )
{
    using M = Fmt<X>;
    int64_t ra = gen_rep<X>( g ), rb = gen_rep<X>( g );
    bool integer = g.coin();
    int64_t unit = int64_t( 1 ) << M::F;
    if ( integer ) rb = rb / unit * unit;
    X const a = make<X>( ra );
    PBT_LOG( c, M::name() << " representation " << ra << ( integer ? " and integer " : " and double of representation " ) << ( integer ? rb / unit : rb ) );
    auto check = [&]( auto n )
    {
        W s = (W) ra + rb, d = (W) ra - rb, e = (W) rb - ra;
        auto want = [&]( X got, W w, char const * what ) { PBT_CHECK( c, got.underlying_value() == w, M::name() << ": " << what << " of representation " << ra << " and " << n << " is " << (long long) got.underlying_value() << " want " << (long long) w ); };
        if ( fits( s, M::lo, M::hi ) ) { want( a + n, s, "sum with a number" ); want( n + a, s, "sum of a number with" ); X t = a; t += n; want( t, s, "compound sum with a number" ); }
        if ( fits( d, M::lo, M::hi ) ) { want( a - n, d, "difference with a number" ); X t = a; t -= n; want( t, d, "compound difference with a number" ); }
        if ( fits( e, M::lo, M::hi ) ) want( n - a, e, "difference of a number and" );
        auto cmp = [&]( bool got, bool w, char const * what ) { PBT_CHECK( c, got == w, M::name() << ": representation " << ra << " " << what << " number " << n << " is " << got ); };
        cmp( a == n, ra == rb, "==" ); cmp( a != n, ra != rb, "!=" ); cmp( a < n, ra < rb, "<" ); cmp( a <= n, ra <= rb, "<=" ); cmp( a > n, ra > rb, ">" ); cmp( a >= n, ra >= rb, ">=" );
        cmp( n == a, ra == rb, "== (swapped)" ); cmp( n < a, rb < ra, "> (swapped)" ); cmp( n >= a, rb >= ra, "<= (swapped)" );
    };
    if ( integer ) { check( (int)( rb / unit ) ); c.cls( "mixed with integer" ); }
    else { check( std::ldexp( (double) rb, -M::F ) ); c.cls( "mixed with double" ); }
    c.nontriv( ra != 0 && rb != 0 );
}

Suite pbt::suite()
{
    return { "F02",
        "23 formats over 8, 16 and 32-bit representations; operand pairs biased to extremes, powers of two, integers and neighbours; sums, differences, negation and all comparisons against integer arithmetic, also with plain integers and doubles as one operand. Non-trivial: both operands non-zero and sum or difference representable.",
        { { "fixed with fixed", 3, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { arithmetic<decltype( x )>( g, c ); } ); } },
          { "fixed with number", 1, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { mixed<decltype( x )>( g, c ); } ); } } },
        2000000, 80000000, { "equal", "adjacent", "opposite signs", "sum at an extreme", "mixed with integer", "mixed with double" } };
}
