// D05: decibel conversions and frequency pre-warping are right and inverse.
// fuzz: quick=20000 thorough=400000
#include "fw/design_gen.hpp"

using namespace pbt;
using namespace ds;

template< typename T, typename U = T > T gen_ratio( Gen & g )
{
    if ( std::is_integral<T>::value ) return (T)( g.coin() ? g.range( 1, 20 ) : g.range( 1, 30000 ) );
    switch ( g.draw( 4 ) )
    {
    case 0: return (T) std::pow( 10.0, (double) g.range( -3, 3 ) );
    case 1: return (T) g.range( 1, 100 );
    case 2: { double const w = std::is_integral<U>::value ? 6 : sizeof( T ) == 4 || sizeof( U ) == 4 ? 8 : 70; return (T) std::pow( 10.0, g.uniform( -w, w ) ); }
    default: return (T) std::pow( 10.0, g.uniform( -6, 6 ) );
    }
}

template< typename A, typename B >
void db( Gen & g, Case & c )
{
    A out = gen_ratio<A,B>( g ); B in = gen_ratio<B,A>( g );
    using U = std::common_type_t<float,A,B>;
    c.cls( "reference of a wider type", (L)(A) in != (L) in );
    L eps = std::numeric_limits<U>::epsilon(), epsA = std::numeric_limits<std::common_type_t<float,A>>::epsilon();
    L p = 10 * std::log10( (L) out / (L) in ), t = eps * ( 8 + 4 * std::fabs( p ) );
    L got = (L) dsp::dbP( out, in ), gv = (L) dsp::dbV( out, in );
    PBT_LOG( c, out << "/" << in << ": dbP " << (double) got << " dbV " << (double) gv );
    PBT_CHECK( c, std::fabs( got - p ) <= t, "power ratio " << out << "/" << in << " is " << (double) got << " dB, want " << (double) p );
    PBT_CHECK( c, std::fabs( gv - 2 * p ) <= 2 * t, "voltage ratio " << out << "/" << in << " is " << (double) gv << " dB, want " << (double)( 2 * p ) );
    // decibels of products add up
    A o2 = gen_ratio<A>( g );
    if ( (L) out * (L) o2 < 1e9L )
    {
        A prod = (A)( out * o2 );
        L sum = (L) dsp::dbP( out, (A) 1 ) + (L) dsp::dbP( o2, (A) 1 ), all = (L) dsp::dbP( prod, (A) 1 );
        PBT_CHECK( c, std::fabs( all - sum ) <= epsA * ( 16 + 8 * std::fabs( (L) dsp::dbP( out, (A) 1 ) ) + 8 * std::fabs( (L) dsp::dbP( o2, (A) 1 ) ) ), "decibels of " << out << " and " << o2 << " do not add up: " << (double) sum << " and " << (double) all );
    }
    // factor of the decibel value gives the ratio back (ratios of at least one)
    auto d = dsp::dbP( out, in ); auto e = dsp::dbV( out, in );
    L ratio = std::max( (L) out / (L) in, (L) in / (L) out );
    PBT_CHECK( c, std::fabs( (L) dsp::dbP_factor( d ) / ratio - 1 ) <= eps * ( 16 + 4 * std::fabs( p ) ), "dbP_factor(dbP) is " << (double) dsp::dbP_factor( d ) << ", want " << (double) ratio );
    PBT_CHECK( c, std::fabs( (L) dsp::dbV_factor( e ) / ratio - 1 ) <= eps * ( 16 + 4 * std::fabs( p ) ), "dbV_factor(dbV) is " << (double) dsp::dbV_factor( e ) << ", want " << (double) ratio );
    c.nontriv( (L) out != (L) in );
    c.cls( "attenuation", (L) out < (L) in ); c.cls( "gain", (L) out > (L) in ); c.cls( "integer ratio", std::is_integral<A>::value );
}

template< typename A >
void factor( Gen & g, Case & c )
{
    A d = gen_db<A>( g );
    using U = std::common_type_t<float,A>;
    L eps = std::numeric_limits<U>::epsilon(), x = std::fabs( (L) d ), t = eps * ( 16 + x );
    L p = std::pow( 10.0L, x / 10 ), v = std::pow( 10.0L, x / 20 );
    L gp = (L) dsp::dbP_factor( d ), gv = (L) dsp::dbV_factor( d );
    PBT_LOG( c, d << " dB: power " << (double) gp << " voltage " << (double) gv );
    PBT_CHECK( c, std::fabs( gp / p - 1 ) <= t, "dbP_factor(" << d << ") is " << (double) gp << ", want " << (double) p );
    PBT_CHECK( c, std::fabs( gv / v - 1 ) <= t, "dbV_factor(" << d << ") is " << (double) gv << ", want " << (double) v );
    // and back
    L back = (L) dsp::dbP( dsp::dbP_factor( d ), 1 ), bv = (L) dsp::dbV( dsp::dbV_factor( d ), 1 );
    PBT_CHECK( c, std::fabs( back - x ) <= 10 * t + 4 * eps * x, "dbP(dbP_factor(" << d << ")) is " << (double) back );
    PBT_CHECK( c, std::fabs( bv - x ) <= 20 * t + 4 * eps * x, "dbV(dbV_factor(" << d << ")) is " << (double) bv );
    c.nontriv( d != A( 0 ) );
    c.cls( "negative decibel", d < 0 );
}

template< typename F, typename S >
void warp( Gen & g, Case & c )
{
    F f; S fs; gen_freq( g, 1e-5, f, fs );
    using U = std::common_type_t<float,F,S>;
    L eps = std::numeric_limits<U>::epsilon(), x = PI * ( (L) f / (L) fs ), want = std::tan( x );
    auto got = dsp::prewarp( f, fs );
    PBT_LOG( c, "prewarp(" << f << "," << fs << ") = " << got );
    PBT_CHECK( c, std::fabs( (L) got / want - 1 ) <= eps * ( 4 + 4 * x / ( std::sin( x ) * std::cos( x ) ) ), "prewarp(" << f << "," << fs << ") is " << got << ", want " << (double) want );
    // inverse
    c.nontriv();
    c.cls( "prewarp above quarter", x > PI / 4 );
}

Suite pbt::suite()
{
    return { "D05",
        "random ratios, decibel values and frequencies in float, double and integer types against the defining formulas, sums of decibels for products, and the factor functions as inverse. Non-trivial: ratio not one, decibel value not zero.",
        { { "db double", 3, db<double,double> }, { "db float", 2, db<float,float> }, { "db int", 1, db<int,int> }, { "db double/int", 1, db<double,int> }, { "db float/int", 1, db<float,int> }, { "db int/double", 1, db<int,double> }, { "db int/float", 1, db<int,float> }, { "db float/double", 1, db<float,double> },
          { "factor double", 2, factor<double> }, { "factor float", 2, factor<float> }, { "factor int", 1, factor<int> },
          { "warp double", 2, warp<double,double> }, { "warp float", 2, warp<float,float> }, { "warp int", 1, warp<int,int> }, { "warp int/float", 1, warp<int,float> }, { "warp double/int", 1, warp<double,int> } },
        600000, 20000000, { "attenuation", "gain", "integer ratio", "reference of a wider type", "negative decibel", "prewarp above quarter" } };
}
