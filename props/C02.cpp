// C02: a cascade filters like its sections in series.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"
#include "dsp/biquad-cascade.hpp"

using namespace pbt;
using namespace bq;

template< typename T, int N = 8 >
void series( Gen & g, Case & c )
{
    using Cas = dsp::BiQuadCascadeT<T,N>;
    using B = dsp::BiQuadT<T>;
    std::vector<Sec<T>> secs;
    std::vector<B> sep;
    Cas cas;
    int n = N > 8 && g.coin() ? N - (int) g.draw( 3 ) : g.irange( 0, N );
    for ( int i = 0; i < n; ++i )
    {
        // many sections: some kinds only, with gains of about one
        auto s = i >= 8 ? secs[g.irange( 0, 7 )] : g.chance( 1, 12 ) ? gen_any<T>( g ) : gen_stable<T>( g, 0.95 );
        if ( N > 8 && i < 8 && g.chance( 3, 4 ) ) { s = Sec<T>(); s.b0 = 1; s.b1 = (T) g.uniform( -0.01, 0.01 ); s.a1 = (T) g.uniform( -0.01, 0.01 ); }
        secs.push_back( s ); sep.push_back( s.make() ); cas.append( s.make() );
        PBT_LOG( c, s.str() << "\n" );
    }
    int how = (int) g.draw( 2 );
    PBT_LOG( c, "realisation " << how << ": " );
    auto one = [&]( B & b, T v ) -> T { return how == 0 ? b.step( v ) : how == 1 ? b.step_df2( v ) : b.step_df2_transposed( v ); };
    auto all = [&]( T v ) -> T { return how == 0 ? step( cas, v ) : how == 1 ? step_df2( cas, v ) : step_df2_transposed( cas, v ); };
    auto x = gen_input<T>( g, 15, 200 );
    int k = 0, resets = 0;
    for ( auto v : x )
    {
        T want = v;
        for ( auto & b : sep ) want = one( b, want );
        T got = all( v );
        if ( !std::isfinite( (double) want ) ) break;
        PBT_LOG( c, v << "->" << got << " " );
        PBT_CHECK( c, got == want, "sample " << k << ": cascade of " << n << " sections answers " << got << ", sections in series answer " << want );
        if ( n == 0 ) PBT_CHECK( c, got == v, "an empty cascade changes a sample: " << v << " -> " << got );
        for ( int i = 0; i < n; ++i ) PBT_CHECK( c, cas.state( i ).v1 == sep[i].state().v1 && cas.state( i ).v2 == sep[i].state().v2, "state of section " << i << " after sample " << k );
        if ( g.chance( 1, 40 ) )
        {
            reset( cas ); for ( auto & b : sep ) b = B( b.coeff_b(), b.coeff_a() );
            for ( int i = 0; i < n; ++i ) PBT_CHECK( c, cas.state( i ).v1 == 0 && cas.state( i ).v2 == 0, "section " << i << " not at rest after reset" );
            ++resets;
        }
        ++k;
    }
    // response and stability
    bool st = true;
    for ( auto & b : sep ) st = b.is_stable() && st;
    PBT_CHECK( c, is_stable( cas ) == st, "cascade reported " << ( st ? "unstable, but all sections are stable" : "stable, but a section is not" ) );
    for ( int q = 0; q < 3; ++q )
    {
        T f = (T)( q == 0 ? 0.0 : g.uniform( -0.6, 0.6 ) );
        CL want = 1; L rel = 0; bool ok = true;
        for ( auto & s : secs )
        {
            if ( !off_pole( s, f ) ) { ok = false; break; }
            CL h = transfer( s, f ); want *= h;
            rel += ( transfer_tol( s, f ) ) / ( std::abs( h ) + 1e-300L ) + 8 * std::numeric_limits<T>::epsilon();
        }
        L m = std::abs( want );
        if ( !ok || rel > 0.01L || m > 1e25L || ( m < 1e-25L && m != 0 ) ) continue;
        CL got = cl( response( cas, f ) );
        PBT_CHECK( c, std::abs( got - want ) <= 2 * rel * m + 1e-30L, "response of the cascade at " << f << " is " << str( got ) << ", product of the sections is " << str( want ) );
        c.cls( "response" );
    }
    c.nontriv( n >= 2 && k >= 3 );
    c.cls( "empty cascade", n == 0 && k > 0 ); c.cls( "full cascade", n == N ); c.cls( "reset", resets > 0 ); c.cls( "unstable section", !st );
    c.cls( "transposed", how == 2 && k > 2 && n > 1 );
}

Suite pbt::suite()
{
    return { "C02",
        "cascades of 0 to 8 (some of up to 300) random sections fed random inputs in each realisation, with resets, compared sample by sample with the same sections stepped one after another; response against the product of the transfer functions, stability against the conjunction. Non-trivial: at least two sections and three samples.",
        { { "double", 40, series<double> }, { "float", 20, series<float> }, { "double 300", 1, series<double,300> } },
        150000, 5000000, { "empty cascade", "full cascade", "reset", "unstable section", "transposed", "response" } };
}
