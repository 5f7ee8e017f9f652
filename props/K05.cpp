// K05: a fixed-point estimator follows the exact recursion within its resolution.
// fuzz: quick=15000 thorough=300000
#include "num/fixed-point.hpp"
#include "fw/fixed_as_real.hpp"
#include "fw/kalman_model.hpp"

using namespace pbt;
using ref::from;
using ref::L;
using ref::Mat;

template< int I, int M, int U >
void follows( Gen & g, Case & c )
{
    using namespace km;
    using T = num::fixed_point<std::int32_t, I>;
    L ulp = std::ldexp( 1.0L, -( 31 - I ) ), top = std::ldexp( 1.0L, I );
    Opt o; o.degenerate = false; o.amax = 1.25; o.rmin = 0.25; o.xmax = std::min( 30.0, std::ldexp( 1.0, I - 3 ) );
    auto m = gen_model<T,M,U>( g, c, o );
    PBT_LOG( c, m.str() );
    auto e = m.make();
    int n = 0, steps = 0;
    while ( g.more( 8, n, 60 ) )
    {
        auto u = gen_vec<T,U>( g, 2 );
        auto z = gen_vec<T,M>( g, o.xmax );
        Mat x0 = from( e.system_state() ), P0 = from( e.estimation_error_covariance() );
        auto s = ref_step( m, x0, P0, from( u ), from( z ), 0, 0, 4 * ulp );
        if ( !s.ok ) { c.cls( "ill-conditioned: stopped" ); break; }
        // every intermediate value in range?
        L big = largest( m, x0, P0, from( u ), from( z ), s );
        if ( big > top / 2 ) { c.cls( "range limit: stopped" ); break; }
        e.update( u, z );
        auto x = from( e.system_state() ), P = from( e.estimation_error_covariance() ), K = from( e.kalman_gain() );
        PBT_LOG( c, "\nstep " << n << " u=" << ref::str( from( u ) ) << " z=" << ref::str( from( z ) ) << " => x=" << ref::str( x ) << " K=" << ref::str( K ) << " P=" << ref::str( P ) );
        PBT_CHECK( c, within( K, s.K, s.eK ), "gain after update " << n << ": got " << ref::str( K ) << " want " << ref::str( s.K ) << " +/- " << ref::str( s.eK ) << " model " << m.str() );
        PBT_CHECK( c, within( x, s.x, s.ex ), "state after update " << n << ": got " << ref::str( x ) << " want " << ref::str( s.x ) << " +/- " << ref::str( s.ex ) << " model " << m.str() );
        PBT_CHECK( c, within( P, s.P, s.eP ), "covariance after update " << n << ": got " << ref::str( P ) << " want " << ref::str( s.P ) << " +/- " << ref::str( s.eP ) << " model " << m.str() );
        L t = ref::real_of( e.time() );
        PBT_CHECK( c, t == ref::real_of( m.dt ) * n, "time after " << n << " updates of " << ref::real_of( m.dt ) << " is " << t );
        ++steps;
        if ( ref::maxabs( s.ex ) < 0.05L ) c.nontriv( steps >= 2 );
    }
    c.cls( "10 or more updates", steps >= 10 ); c.cls( "2 or more updates", steps >= 2 );
}

Suite pbt::suite()
{
    return { "K05",
        "random models and histories in 32-bit fixed point (11, 16 and 20 integer bits); each update is compared with the exact step from the previously observed values within the bound that one-unit rounding of every elementary operation explains. Non-trivial: at least two checked updates with a state bound below 0.05.",
        { { "15.16 1x1", 3, follows<15,1,1> }, { "15.16 2x2", 3, follows<15,2,2> }, { "11.20 1x2", 2, follows<11,1,2> }, { "20.11 2x1", 1, follows<20,2,1> }, { "15.16 1x3", 1, follows<15,1,3> } },
        150000, 5000000,
        { "10 or more updates", "kinematic model", "general model" } };
}
