// B04: a section is a linear time-invariant value: reset, copy and swap behave.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"

using namespace pbt;
using namespace bq;

template< typename T >
void lti( Gen & g, Case & c )
{
    auto s = gen_stable<T>( g, 0.97 );
    auto x1 = gen_input<T>( g, 15, 300 ), x2 = gen_input<T>( g, 15, 300 );
    std::size_t n = std::min( x1.size(), x2.size() );
    int p = g.irange( -4, 4 ), q = g.irange( -4, 4 ), delay = g.irange( 0, 9 ), how = (int) g.draw( 2 );
    PBT_LOG( c, s.str() << " n=" << n << " p=" << p << " q=" << q << " delay=" << delay << " realisation " << how );
    auto step = [&]( auto & b, T v ) { return how == 0 ? b.step( v ) : how == 1 ? b.step_df2( v ) : b.step_df2_transposed( v ); };
    auto b1 = s.make(), b2 = s.make(), b3 = s.make(), b4 = s.make();
    Ref<T> r1( s ), r2( s ), r3( s );
    for ( int d = 0; d < delay; ++d ) PBT_CHECK( c, step( b4, 0 ) == 0, "a section at rest answers a zero sample" );
    for ( std::size_t i = 0; i < n; ++i )
    {
        T x3 = (T) p * x1[i] + (T) q * x2[i];
        L dx = std::numeric_limits<T>::epsilon() * ( std::fabs( (L) p * x1[i] ) + std::fabs( (L) q * x2[i] ) );
        r1.step( x1[i] ); r2.step( x2[i] ); r3.step( x3 );
        T y1 = step( b1, x1[i] ), y2 = step( b2, x2[i] ), y3 = step( b3, x3 ), y4 = step( b4, x1[i] );
        PBT_CHECK( c, y4 == y1, "delayed input: sample " << i << " is " << y4 << " want " << y1 << " for " << s.str() );
        L want = (L) p * y1 + (L) q * y2, tol = std::abs( p ) * r1.tol() + std::abs( q ) * r2.tol() + r3.tol() + 4 * r1.gain * s.bsum() * std::numeric_limits<T>::epsilon() * ( std::abs( p ) * r1.X + std::abs( q ) * r2.X ) + dx;
        PBT_CHECK( c, std::fabs( (L) y3 - want ) <= tol, "superposition: sample " << i << " is " << y3 << " want " << p << "*" << y1 << " + " << q << "*" << y2 << " = " << want << " +/- " << tol << " for " << s.str() );
    }
    auto a = b1.coeff_a(); auto b = b1.coeff_b();
    PBT_CHECK( c, a.a1 == s.a1 && a.a2 == s.a2 && b.b0 == s.b0 && b.b1 == s.b1 && b.b2 == s.b2, "coefficients changed while stepping " << s.str() );
    c.nontriv( n >= 3 && p && q ); c.cls( "delayed", delay > 0 && n > 0 );
}

template< typename T >
void values( Gen & g, Case & c )
{
    using B = dsp::biquad::BiQuadT<T>;
    struct Entry { B b; Sec<T> s; std::vector<T> fed; T v1 = 0, v2 = 0; int how = 0; };
    std::vector<Entry> pool;
    auto step = []( B & b, T v, int how ) { return how == 0 ? b.step( v ) : how == 1 ? b.step_df2( v ) : b.step_df2_transposed( v ); };
    auto check = [&]( Entry & e, char const * what )
    {
        auto a = e.b.coeff_a(); auto b = e.b.coeff_b(); auto w = e.b.state();
        PBT_CHECK( c, a.a1 == e.s.a1 && a.a2 == e.s.a2 && b.b0 == e.s.b0 && b.b1 == e.s.b1 && b.b2 == e.s.b2, "coefficients of a section wrong after " << what << ", want " << e.s.str() );
        PBT_CHECK( c, w.v1 == e.v1 && w.v2 == e.v2, "state of a section is (" << w.v1 << ", " << w.v2 << ") after " << what << ", want (" << e.v1 << ", " << e.v2 << ") " << e.s.str() );
    };
    auto fresh = [&]
    {
        Entry e; e.s = gen_stable<T>( g, 0.98 ); e.b = e.s.make(); e.how = (int) g.draw( 2 );
        if ( g.chance( 1, 6 ) ) { e.s = Sec<T>(); e.b = B(); }
        else if ( g.chance( 1, 6 ) ) { e.s.a1 = e.s.a2 = 0; e.b = B( typename B::B{ e.s.b0, e.s.b1, e.s.b2 } ); }
        PBT_LOG( c, "\nnew " << pool.size() << " " << e.s.str() );
        check( e, "construction" );
        pool.push_back( e );
    };
    fresh(); fresh();
    int ops = 0, steps = 0, swaps = 0, resets = 0, copies = 0;
    while ( g.more( 20, ops, 150 ) )
    {
        std::size_t i = g.draw( pool.size() - 1 ), j = g.draw( pool.size() - 1 );
        char const * what = "";
        switch ( g.draw( 8 ) )
        {
        case 0: case 1: case 2:
            {
                what = "a step of another section";
                auto & e = pool[i];
                T v = (T) g.real( -20, 20 );
                // the model continues from the state seen before
                B twin = e.s.make();
                for ( auto u : e.fed ) step( twin, u, e.how );
                T want = step( twin, v, e.how ), got = step( e.b, v, e.how );
                PBT_LOG( c, "\nstep " << i << " " << v << " -> " << got );
                PBT_CHECK( c, got == want, "section " << i << " answers " << got << " to " << v << ", a new section with the same history answers " << want << " " << e.s.str() );
                e.fed.push_back( v );
                auto w = e.b.state(); e.v1 = w.v1; e.v2 = w.v2;
                auto t = twin.state(); PBT_CHECK( c, t.v1 == w.v1 && t.v2 == w.v2, "state after a step differs from that of a new section with the same history" );
                ++steps;
            }
            break;
        case 3: what = "reset"; PBT_LOG( c, "\nreset " << i ); pool[i].b.reset(); pool[i].fed.clear(); pool[i].v1 = pool[i].v2 = 0; ++resets; break;
        case 4: what = "copy"; PBT_LOG( c, "\ncopy " << i ); if ( pool.size() < 6 ) { Entry e = pool[i]; B copy( pool[i].b ); e.b = copy; pool.push_back( e ); ++copies; } break;
        case 5: what = "assignment"; PBT_LOG( c, "\nassign " << i << " to " << j ); pool[j].b = pool[i].b; { Entry & a = pool[i], & b = pool[j]; b.s = a.s; b.fed = std::vector<T>( a.fed ); b.v1 = a.v1; b.v2 = a.v2; b.how = a.how; } ++copies; break;
        case 6: what = "swap"; PBT_LOG( c, "\nswap " << i << " " << j ); pool[i].b.swap( pool[j].b );
                if ( i != j ) { std::swap( pool[i].s, pool[j].s ); std::swap( pool[i].fed, pool[j].fed ); std::swap( pool[i].v1, pool[j].v1 ); std::swap( pool[i].v2, pool[j].v2 ); std::swap( pool[i].how, pool[j].how ); ++swaps; }
                break;
        case 7: if ( pool.size() < 6 ) fresh(); break;
        case 8: what = "observation"; { auto const & b = pool[i].b; (void) b.poles(); (void) b.is_stable(); (void) dsp::response( b, T( 0.1 ) ); if ( pool[i].s.b0 != 0 ) (void) b.zeros(); } break;
        }
        for ( auto & e : pool ) check( e, what );
    }
    c.nontriv( steps >= 3 && swaps + resets + copies >= 1 );
    c.cls( "swapped", swaps > 0 ); c.cls( "reset", resets > 0 ); c.cls( "copied", copies > 0 );
}

Suite pbt::suite()
{
    return { "B04",
        "linear combinations and delays of random inputs through copies of a stable section in each realisation; and pools of up to 6 sections driven by random interleavings of step, reset, copy, assignment, swap, construction and observation, every section compared after each operation and with a new section given the same history. Non-trivial: three samples and two non-zero factors; three steps and a reset, copy or swap.",
        { { "lti double", 2, lti<double> }, { "lti float", 1, lti<float> }, { "values double", 2, values<double> }, { "values float", 1, values<float> } },
        200000, 6000000, { "delayed", "swapped", "reset", "copied" } };
}
