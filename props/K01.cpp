// K01: every update of the estimator is one step of the discrete Kalman recursion.
// fuzz: quick=20000 thorough=400000
#include "fw/kalman_model.hpp"

using namespace pbt;
using ref::from;

template< typename T, int M, int U >
void recursion( Gen & g, Case & c )
{
    using namespace km;
    Opt o; o.scales = true;
    auto m = gen_model<T,M,U>( g, c, o );
    PBT_LOG( c, m.str() << " " );
    auto e = m.make();

    PBT_CHECK( c, within( from( e.system_state() ), from( m.x ), ref::Mat( 2, 1 ) ), "initial state is not the given one" );
    PBT_CHECK( c, within( from( e.estimation_error_covariance() ), from( m.P ), ref::Mat( 2, 2 ) ), "initial covariance is not the given one" );

    int n = 0, steps = 0;
    bool const history = g.chance( 1, 100 );       // a long one
    while ( g.more( history ? 200 : 10, n, history ? 400 : 40 ) )
    {
        auto u = gen_vec<T,U>( g, 10 * m.unit );
        auto z = gen_vec<T,M>( g, 200 * m.unit );
        auto x0 = from( e.system_state() ), P0 = from( e.estimation_error_covariance() );
        auto s = ref_step( m, x0, P0, from( u ), from( z ), (ref::L) std::numeric_limits<T>::epsilon(), 64, (ref::L) std::numeric_limits<T>::min() );
        e.update( u, z );
        if ( !s.ok ) { c.cls( "ill-conditioned: stopped" ); break; }
        auto x = from( e.system_state() ), P = from( e.estimation_error_covariance() ), K = from( e.kalman_gain() );
        PBT_LOG( c, "\nstep " << n << " u=" << ref::str( from( u ) ) << " z=" << ref::str( from( z ) ) << " => x=" << ref::str( x ) << " K=" << ref::str( K ) << " P=" << ref::str( P ) );
        PBT_CHECK( c, within( K, s.K, s.eK ), "gain after update " << n << ": got " << ref::str( K ) << " want " << ref::str( s.K ) << " +/- " << ref::str( s.eK ) << " model " << m.str() );
        PBT_CHECK( c, within( x, s.x, s.ex ), "state after update " << n << ": got " << ref::str( x ) << " want " << ref::str( s.x ) << " +/- " << ref::str( s.ex ) << " model " << m.str() );
        PBT_CHECK( c, within( P, s.P, s.eP ), "covariance after update " << n << ": got " << ref::str( P ) << " want " << ref::str( s.P ) << " +/- " << ref::str( s.eP ) << " model " << m.str() );
        if ( s.zero ) { for ( auto v : K.a ) PBT_CHECK( c, v == 0, "gain must be zero when the innovation covariance is zero, got " << ref::str( K ) ); }
        ++steps;
    }
    c.nontriv( steps >= 2 && ref::maxabs( from( m.P ) ) + ref::maxabs( from( m.Q ) ) > 0 );
    c.cls( "0 updates", n == 0 ); c.cls( "1 update", steps == 1 ); c.cls( "2-9 updates", steps >= 2 && steps < 10 );
    c.cls( "10-40 updates", steps >= 10 && steps <= 40 ); c.cls( "more than 40 updates", steps > 40 );
}

Suite pbt::suite()
{
    return { "K01",
        "random models (kinematic or general 2x2 dynamics, 1 or 2 measurements, 1 to 4 controls, float and double, semi-definite covariances incl. zero) driven by random control/measurement histories; after every update state, gain and covariance are compared with a long-double textbook step from the previously observed state, within a first-order rounding bound. Non-trivial: at least two checked updates and P or Q not zero.",
        {
            { "double 1 measurement 1 control", 4, recursion<double,1,1> },
            { "double 1 measurement 2 controls", 2, recursion<double,1,2> },
            { "double 2 measurements 1 control", 2, recursion<double,2,1> },
            { "double 2 measurements 2 controls", 3, recursion<double,2,2> },
            { "double 1 measurement 3 controls", 1, recursion<double,1,3> },
            { "float 2 measurements 4 controls", 1, recursion<float,2,4> },
            { "float 1 measurement 1 control", 2, recursion<float,1,1> },
            { "float 2 measurements 2 controls", 2, recursion<float,2,2> },
        },
        100000, 4000000,
        { "more than 40 updates", "zero innovation covariance", "kinematic model", "general model", "other units" } };
}
