// C01: a cascade is a bounded sequence of sections.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"
#include "dsp/biquad-cascade.hpp"

using namespace pbt;
using namespace bq;

template< typename T, int N >
void sequence( Gen & g, Case & c )
{
    using Cas = dsp::BiQuadCascadeT<T,N>;
    using B = dsp::BiQuadT<T>;
    struct E { Sec<T> s; T v1 = 0, v2 = 0; };
    std::vector<E> model;
    auto section = [&]( E & e )
    {
        e.s = g.chance( 1, 8 ) ? gen_any<T>( g ) : gen_stable<T>( g, 0.95 );
        B b = e.s.make();
        for ( int k = g.irange( 0, 2 ); k-- > 0; ) b.step( (T) g.irange( 1, 9 ) );
        e.v1 = b.state().v1; e.v2 = b.state().v2;
        return b;
    };
    auto same = [&]( B const & b, E const & e )
    {
        auto x = b.coeff_a(); auto y = b.coeff_b(); auto w = b.state();
        return x.a1 == e.s.a1 && x.a2 == e.s.a2 && y.b0 == e.s.b0 && y.b1 == e.s.b1 && y.b2 == e.s.b2 && w.v1 == e.v1 && w.v2 == e.v2;
    };
    auto verify = [&]( Cas & cas, char const * what )
    {
        Cas const & k = cas;
        PBT_CHECK( c, k.size() == (int) model.size() && k.reserved() == N, "size " << k.size() << " capacity " << k.reserved() << " after " << what << ", want " << model.size() << " of " << N );
        int i = 0;
        for ( auto const & b : k ) { PBT_CHECK( c, i < (int) model.size() && same( b, model[i] ), "iteration: section " << i << " wrong after " << what << ", want " << model[i].s.str() ); ++i; }
        PBT_CHECK( c, i == (int) model.size(), "iteration visits " << i << " sections after " << what );
        i = 0;
        for ( auto & b : cas ) { PBT_CHECK( c, same( b, model[i] ), "mutable iteration: section " << i << " wrong after " << what ); ++i; }
        PBT_CHECK( c, i == (int) model.size(), "mutable iteration visits " << i << " sections after " << what );
        for ( i = 0; i < (int) model.size(); ++i )
        {
            auto x = k.coeff_a( i ); auto y = k.coeff_b( i ); auto w = k.state( i );
            auto & e = model[i];
            PBT_CHECK( c, x.a1 == e.s.a1 && x.a2 == e.s.a2 && y.b0 == e.s.b0 && y.b1 == e.s.b1 && y.b2 == e.s.b2, "coefficients of section " << i << " wrong after " << what << ", want " << e.s.str() );
            PBT_CHECK( c, w.v1 == e.v1 && w.v2 == e.v2, "state of section " << i << " is (" << w.v1 << ", " << w.v2 << ") after " << what << ", want (" << e.v1 << ", " << e.v2 << ")" );
        }
    };
    int ctor = g.irange( 0, std::min( N, 3 ) );
    std::vector<B> init;
    for ( int i = 0; i < ctor; ++i ) { E e; init.push_back( section( e ) ); model.push_back( e ); }
    PBT_LOG( c, "capacity " << N << ", constructed from " << ctor );
    auto drive = [&]( Cas & cas )
    {
        verify( cas, "construction" );
        if ( N > 8 )
        {
            // fill it nearly, or to around a power of two
            static const int to[] = { N, N - 1, N - 2, N / 2, 16, 32, 128, 256 };
            int const goal = std::min( N, g.coin() ? to[g.draw( 7 )] : g.irange( 0, N ) );
            PBT_LOG( c, "\nfilled to " << goal );
            E pool[3]; std::vector<B> made; for ( auto & e : pool ) made.push_back( section( e ) );
            for ( int i = (int) model.size(); i < goal; ++i )
            {
                int const k = (int)( ( i * 2654435761u >> 7 ) % 3 );
                pool[k].s.b0 = (T) i; made[k] = pool[k].s.make();                   // each one is unlike the others
                pool[k].v1 = pool[k].v2 = 0;
                cas.append( made[k] ); model.push_back( pool[k] );
            }
            verify( cas, "filling" );
        }
        int ops = 0, kinds = 0;
        while ( g.more( 20, ops, 100 ) )
        {
            char const * what = "";
            int n = (int) model.size(), i = n ? g.irange( 0, n - 1 ) : 0;
            switch ( g.draw( 7 ) )
            {
            case 0: case 1: what = "append"; if ( n < N ) { E e; B b = section( e ); PBT_LOG( c, "\nappend" ); cas.append( b ); model.push_back( e ); kinds |= 1; } break;
            case 2: what = "insert"; if ( n < N && n > 0 ) { E e; B b = section( e ); PBT_LOG( c, "\ninsert " << i ); cas.insert( i, b ); model.insert( model.begin() + i, e ); kinds |= 2; c.cls( "insert at the front", i == 0 ); c.cls( "insert in the middle", i > 0 && i < n - 1 ); c.cls( "insert before the last", i == n - 1 ); c.cls( "insert fills up", n == N - 1 ); } break;
            case 3: what = "remove"; if ( n > 0 ) { PBT_LOG( c, "\nremove " << i ); cas.remove( i ); model.erase( model.begin() + i ); kinds |= 4; c.cls( "remove the last", i == n - 1 ); c.cls( "remove inside", i < n - 1 ); c.cls( "remove from full", n == N ); } break;
            case 4: what = "replace"; if ( n > 0 ) { E e; B b = section( e ); PBT_LOG( c, "\nreplace " << i ); B old = cas.replace( i, b ); PBT_CHECK( c, same( old, model[i] ), "replace returned another section than the former one" ); model[i] = e; kinds |= 8; } break;
            case 5: if ( g.chance( 1, 4 ) ) { what = "clear"; PBT_LOG( c, "\nclear" ); cas.clear(); model.clear(); kinds |= 16; c.cls( "cleared", n > 0 ); } break;
            case 6:
                {
                    what = "stepping";
                    T v = (T) g.irange( -9, 9 );
                    PBT_LOG( c, "\nstep " << v );
                    T want = v;
                    for ( auto & e : model )
                    {
                        // df2 from the recorded state, by a separate section that is brought into that state
                        T w0 = want - e.s.a1 * e.v1 - e.s.a2 * e.v2;
                        T y = e.s.b0 * w0 + e.s.b1 * e.v1 + e.s.b2 * e.v2;
                        e.v2 = e.v1; e.v1 = w0; want = y;
                    }
                    step( cas, v );
                    // take over the exact states, if they agree up to rounding
                    for ( int k = 0; k < n; ++k )
                    {
                        auto w = cas.state( k ); auto & e = model[k];
                        L tol = 1e-3L * ( 1 + std::fabs( (L) e.v1 ) + std::fabs( (L) e.v2 ) );
                        if ( !std::isfinite( (double) w.v1 ) || std::fabs( (L) w.v1 ) > 1e15L ) throw Discard();
                        PBT_CHECK( c, std::fabs( (L) w.v1 - e.v1 ) <= tol && std::fabs( (L) w.v2 - e.v2 ) <= tol, "state of section " << k << " after stepping the cascade" );
                        e.v1 = w.v1; e.v2 = w.v2;
                    }
                }
                break;
            case 7: what = "reset"; PBT_LOG( c, "\nreset" ); reset( cas ); for ( auto & e : model ) e.v1 = e.v2 = 0; break;
            }
            verify( cas, what );
        }
        c.nontriv( __builtin_popcount( kinds ) >= 2 );
        c.cls( "full", (int) model.size() == N );
    };
    if constexpr ( N >= 3 )
    {
        if ( ctor == 3 ) { Cas cas( init[0], init[1], init[2] ); drive( cas ); return; }
        if ( ctor == 2 ) { Cas cas( init[0], init[1] ); drive( cas ); return; }
    }
    if ( ctor == 1 ) { Cas cas( init[0] ); drive( cas ); return; }
    if ( ctor == 0 ) { Cas cas; drive( cas ); return; }
    throw Discard();
}

Suite pbt::suite()
{
    return { "C01",
        "cascades of capacity 1 to 300 built from 0 to 3 sections, large ones filled up first, and driven by random valid histories of append, insert, remove, replace, clear, step and reset with sections that carry state; all observers compared with a list after each operation. Non-trivial: at least two kinds of modifying operation.",
        { { "double 4", 60, sequence<double,4> }, { "double 8", 40, sequence<double,8> }, { "float 5", 20, sequence<float,5> }, { "double 1", 20, sequence<double,1> }, { "double 40", 6, sequence<double,40> }, { "float 300", 2, sequence<float,300> } },
        150000, 5000000, { "insert at the front", "insert in the middle", "insert before the last", "insert fills up", "remove the last", "remove inside", "remove from full", "cleared", "full" } };
}
