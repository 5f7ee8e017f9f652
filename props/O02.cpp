// O02: one-pole designs have unit pass-band gain and the prescribed pole.
// fuzz: quick=10000 thorough=200000
#include "fw/design_gen.hpp"
#include "dsp/onepole-design.hpp"

using namespace pbt;
using namespace ds;

template< typename F, typename S >
void design( Gen & g, Case & c )
{
    using T = std::common_type_t<float,F,S>;
    F f; S fs;
    gen_freq( g, sizeof( T ) == 4 ? 1e-3 : 1e-6, f, fs );
    L eps = std::numeric_limits<T>::epsilon(), r = (L) f / (L) fs;
    auto lp = dsp::onepole_design<R::low_pass>( f, fs );
    auto hp = dsp::onepole_design<R::high_pass>( f, fs );
    PBT_CHECK( c, ( std::is_same<typename decltype( lp )::value_type,T>::value && std::is_same<typename decltype( hp )::value_type,T>::value ), "type of the coefficients is not the common type" );
    PBT_LOG( c, "f=" << f << " fs=" << fs << ": low-pass b0=" << lp.b.b0 << " a1=" << lp.a.a1 << ", high-pass b0=" << hp.b.b0 << " a1=" << hp.a.a1 );
    L pl = std::exp( -PI * r ), ph = -std::exp( -PI * ( 0.5L - r ) );
    PBT_CHECK( c, std::fabs( -(L) lp.a.a1 - pl ) <= 8 * eps, "low-pass pole is " << -lp.a.a1 << ", want " << (double) pl << " f=" << f << " fs=" << fs );
    PBT_CHECK( c, std::fabs( -(L) hp.a.a1 - ph ) <= 8 * eps, "high-pass pole is " << -hp.a.a1 << ", want " << (double) ph << " f=" << f << " fs=" << fs );
    auto ol = dsp::make_onepole( lp ); auto oh = dsp::make_onepole( hp );
    PBT_CHECK( c, ol.coeff_b().b0 == lp.b.b0 && ol.coeff_a().a1 == lp.a.a1 && oh.coeff_b().b0 == hp.b.b0 && oh.coeff_a().a1 == hp.a.a1, "the section has other coefficients than the design" );
    PBT_CHECK( c, ol.is_stable() && oh.is_stable() && std::fabs( lp.a.a1 ) < 1 && std::fabs( hp.a.a1 ) < 1, "unstable design f=" << f << " fs=" << fs );
    auto H = [&]( auto const & k, L q ) { return std::abs( (L) k.b.b0 / ( CL( 1 ) + (L) k.a.a1 * CL( std::cos( 2 * PI * q ), -std::sin( 2 * PI * q ) ) ) ); };
    L el = 16 * eps / ( 1 - pl ), eh = 16 * eps / ( 1 + ph );          // relative error of the gain
    if ( el < 0.05L )
    {
        PBT_CHECK( c, std::fabs( H( lp, 0 ) - 1 ) <= el, "low-pass gain at DC is " << (double) H( lp, 0 ) << " f=" << f << " fs=" << fs );
        L rep = std::abs( bq::cl( response( ol, T( 0 ) ) ) );
        PBT_CHECK( c, std::fabs( rep - 1 ) <= el, "reported low-pass gain at DC is " << (double) rep );
        L last = 1 + el;
        for ( int i = 0; i <= 20; ++i ) { L h = H( lp, 0.5L * i / 20 ); PBT_CHECK( c, h <= last * ( 1 + 4 * eps ), "low-pass magnitude rises to " << (double) h << " at " << i / 40.0 ); last = h; }
        PBT_CHECK( c, H( lp, 0.5L ) < H( lp, 0 ), "low-pass does not attenuate" );
        c.cls( "low-pass" );
    }
    if ( eh < 0.05L )
    {
        PBT_CHECK( c, std::fabs( H( hp, 0.5L ) - 1 ) <= eh, "high-pass gain at half the sampling rate is " << (double) H( hp, 0.5L ) << " f=" << f << " fs=" << fs );
        L last = 1 + eh;
        for ( int i = 0; i <= 20; ++i ) { L h = H( hp, 0.5L - 0.5L * i / 20 ); PBT_CHECK( c, h <= last * ( 1 + 4 * eps ), "high-pass magnitude rises to " << (double) h << " at " << 0.5 - i / 40.0 ); last = h; }
        PBT_CHECK( c, H( hp, 0 ) < H( hp, 0.5L ), "high-pass does not attenuate" );
        c.cls( "high-pass" );
    }
    // mirror image: high-pass at f is the low-pass at fs/2 - f with alternating signs
    T fT = (T) f, sT = (T) fs, m = sT / 2 - fT;
    if ( m > 0 && std::fabs( ( (L) m + (L) fT ) / ( (L) sT / 2 ) - 1 ) < 2 * eps )
    {
        auto mir = dsp::onepole_design<R::low_pass>( m, sT );
        PBT_CHECK( c, std::fabs( (L) mir.a.a1 + (L) hp.a.a1 ) <= 16 * eps && std::fabs( (L) mir.b.b0 - (L) hp.b.b0 ) <= 16 * eps, "high-pass at " << f << " is not the mirrored low-pass at " << m << ": b0=" << mir.b.b0 << " a1=" << mir.a.a1 << " and b0=" << hp.b.b0 << " a1=" << hp.a.a1 );
        c.cls( "mirrored" );
    }
    c.nontriv();
    c.cls( "low frequency", r < 0.01L ); c.cls( "above quarter", r > 0.25L );
}

Suite pbt::suite()
{
    return { "O02",
        "one-pole low-pass and high-pass designs for random f and fs in float, double, int and mixed types: pole, gain at the pass end, monotone magnitude on 21 frequencies, stability, mirror symmetry. Every case is non-trivial.",
        { { "double", 3, design<double,double> }, { "float", 2, design<float,float> }, { "int", 1, design<int,int> }, { "int/double", 1, design<int,double> }, { "float/int", 1, design<float,int> }, { "double/float", 1, design<double,float> } },
        200000, 6000000, { "low-pass", "high-pass", "mirrored", "low frequency", "above quarter" } };
}
