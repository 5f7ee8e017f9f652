// B01: a biquad section computes its difference equation in every realisation.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"

using namespace pbt;
using namespace bq;

template< typename T >
void difference( Gen & g, Case & c )
{
    auto s = gen_any<T>( g );
    auto d = s.make(), f2 = s.make(), t2 = s.make();
    Ref<T> r( s );
    PBT_LOG( c, s.str() << "\n" );
    auto x = gen_input<T>( g, g.chance( 1, 20 ) ? 300 : 20, 2000 );
    int n = 0, live = 0;
    for ( auto v : x )
    {
        L want = r.step( v ), tol = r.tol();
        if ( r.wild() ) { c.cls( "grew out of range: stopped" ); break; }
        T y0 = d.step( v ), y2 = f2.step_df2( v ), yt = t2.step_df2_transposed( v );
        PBT_LOG( c, v << "->" << y0 << " " );
        PBT_CHECK( c, y0 == y2, "step and step_df2 differ at sample " << n << ": " << y0 << " vs " << y2 << " for " << s.str() );
        if ( tol > 1e-2L * ( r.Y + r.X ) ) { c.cls( "bound too wide: stopped" ); break; }
        PBT_CHECK( c, std::fabs( (L) y2 - want ) <= tol, "direct form 2: sample " << n << " is " << y2 << " want " << want << " +/- " << tol << " for " << s.str() );
        PBT_CHECK( c, std::fabs( (L) yt - want ) <= tol, "transposed direct form 2: sample " << n << " is " << yt << " want " << want << " +/- " << tol << " for " << s.str() );
        ++n; live += want != 0;
    }
    c.nontriv( live >= 3 && ( s.a1 != 0 || s.a2 != 0 ) );
    c.cls( "100 or more samples", n >= 100 ); c.cls( "poles and zeros", s.a2 != 0 && s.b2 != 0 ); c.cls( "FIR", s.a1 == 0 && s.a2 == 0 );
}

// states of type T and coefficients of type S
template< typename T, typename S >
void mixed( Gen & g, Case & c )
{
    using Q = dsp::biquad::BiQuadT<T,S>;
    auto s = g.chance( 2, 3 ) ? gen_stable<S>( g, 0.98 ) : gen_any<S>( g );
    auto make = [&] { return Q( typename Q::B{ s.b0, s.b1, s.b2 }, typename Q::A{ s.a1, s.a2 } ); };
    auto d = make(), f2 = make(), t2 = make();
    Ref<S,T> r( s );
    PBT_LOG( c, s.str() << "\n" );
    auto x = gen_input<T>( g, 20, 500 );
    int n = 0, live = 0;
    for ( auto v : x )
    {
        L want = r.step( v ), tol = r.tol();
        if ( r.wild() || tol > 1e-2L * ( r.Y + r.X ) ) break;
        L y0 = d.step( v ), y2 = f2.step_df2( v ), yt = t2.step_df2_transposed( v );
        PBT_CHECK( c, y0 == y2, "step and step_df2 differ at sample " << n << ": " << y0 << " vs " << y2 << " for " << s.str() );
        PBT_CHECK( c, std::fabs( y2 - want ) <= tol, "direct form 2: sample " << n << " is " << y2 << " want " << want << " +/- " << tol << " for " << s.str() );
        PBT_CHECK( c, std::fabs( yt - want ) <= tol, "transposed direct form 2: sample " << n << " is " << yt << " want " << want << " +/- " << tol << " for " << s.str() );
        ++n; live += want != 0;
    }
    auto a = t2.coeff_a(); auto b = t2.coeff_b();
    PBT_CHECK( c, a.a1 == s.a1 && a.a2 == s.a2 && b.b0 == s.b0 && b.b1 == s.b1 && b.b2 == s.b2, "coefficients are not those given: " << s.str() );
    c.nontriv( live >= 3 && ( s.a1 != 0 || s.a2 != 0 ) ); c.cls( "coefficients of another type", live >= 3 );
}

Suite pbt::suite()
{
    return { "B01",
        "random sections (FIR, real, double and complex poles, also unstable ones; also with coefficients of another type than the samples) and random input sequences; each realisation is compared sample by sample with a long-double direct-form-1 reference within a bound from the impulse response of the recursive part. Non-trivial: recursive section and at least three non-zero outputs.",
        { { "double", 2, difference<double> }, { "float", 1, difference<float> }, { "float with double coefficients", 1, mixed<float,double> }, { "double with float coefficients", 1, mixed<double,float> } },
        300000, 8000000, { "100 or more samples", "poles and zeros", "FIR", "coefficients of another type" } };
}
