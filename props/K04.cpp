// K04: time advances by one step per update; estimators are independent values.
// fuzz: quick=15000 thorough=300000
#include "fw/kalman_model.hpp"
#include <memory>

using namespace pbt;
using ref::from;
using ref::Mat;

template< typename T, int M, int U >
void values( Gen & g, Case & c )
{
    using namespace km;
    using E = typename Model<T,M,U>::K;
    using u_t = typename E::u_t;
    using z_t = typename E::z_t;
    struct Entry
    {
        Model<T,M,U> m;
        std::vector<std::pair<u_t,z_t>> history;
        std::unique_ptr<E> e;
        Mat x, P, K; T t = 0;
    };
    std::vector<Entry> pool;
    auto snap = [&]( Entry & s ) { s.x = from( s.e->system_state() ); s.P = from( s.e->estimation_error_covariance() ); s.t = s.e->time(); if ( !s.history.empty() ) s.K = from( s.e->kalman_gain() ); };
    auto same = []( Mat const & a, Mat const & b ) { for ( std::size_t i = 0; i < a.a.size(); ++i ) if ( !( a.a[i] == b.a[i] || ( a.a[i] != a.a[i] && b.a[i] != b.a[i] ) ) ) return false; return a.a.size() == b.a.size(); };
    auto check = [&]( Entry & s, char const * what )
    {
        PBT_CHECK( c, same( from( s.e->system_state() ), s.x ), "state changed by " << what << ": " << ref::str( s.x ) << " -> " << ref::str( from( s.e->system_state() ) ) );
        PBT_CHECK( c, same( from( s.e->estimation_error_covariance() ), s.P ), "covariance changed by " << what );
        PBT_CHECK( c, s.e->time() == s.t, "time changed by " << what );
        if ( !s.history.empty() ) PBT_CHECK( c, same( from( s.e->kalman_gain() ), s.K ), "gain changed by " << what );
        long double want = (long double) s.history.size() * (long double) s.m.dt, n = (long double) s.history.size();
        PBT_CHECK( c, std::fabs( (long double) s.t - want ) <= std::fabs( want ) * n * std::numeric_limits<T>::epsilon(), "time after " << s.history.size() << " updates of " << s.m.dt << " is " << s.t );
    };
    auto fresh = [&]
    {
        Entry s; s.m = gen_model<T,M,U>( g, c );
        if ( g.chance( 1, 4 ) ) { s.m.dt = (T) g.pick( { -1.0, -0.25, 0.0, 3600.0, 1e-9, 86400.5 } ); c.cls( "unusual time step" ); }
        s.e = std::make_unique<E>( s.m.make() );
        PBT_LOG( c, "\nnew " << pool.size() << ": " << s.m.str() );
        snap( s );
        PBT_CHECK( c, s.t == 0, "time does not start at zero: " << s.t );
        pool.push_back( std::move( s ) );
    };
    fresh();
    int ops = 0, updates = 0, copies = 0;
    while ( g.more( 20, ops, 120 ) )
    {
        std::size_t i = g.draw( pool.size() - 1 );
        switch ( g.draw( 5 ) )
        {
        case 0: case 1: case 2:
            {
                int burst = g.chance( 1, 10 ) ? g.irange( 2, 40 ) : 1;
                for ( int b = 0; b < burst; ++b )
                {
                    u_t u = gen_vec<T,U>( g, 10 ); z_t z = gen_vec<T,M>( g, 100 );
                    pool[i].e->update( u, z );
                    pool[i].history.push_back( { u, z } );
                    ++updates;
                }
                snap( pool[i] );
                PBT_LOG( c, "\nupdate " << i << " x" << burst );
                for ( auto & s : pool ) check( s, "an update of another estimator" );
            }
            break;
        case 3:
            if ( pool.size() < 6 )
            {
                Entry s; s.m = pool[i].m; s.history = pool[i].history;
                s.e = std::make_unique<E>( *pool[i].e );
                s.x = pool[i].x; s.P = pool[i].P; s.K = pool[i].K; s.t = pool[i].t;
                PBT_LOG( c, "\ncopy " << i );
                check( s, "copying (copy)" );
                check( pool[i], "copying (original)" );
                pool.push_back( std::move( s ) );
                ++copies;
            }
            break;
        case 4: if ( pool.size() < 6 ) fresh(); break;
        case 5:
            for ( int k = 0; k < 3; ++k ) check( pool[i], "observation" );
            break;
        }
    }
    // every estimator is what its own history alone makes of a new one
    for ( auto & s : pool )
    {
        auto e = s.m.make();
        for ( auto & h : s.history ) e.update( h.first, h.second );
        PBT_CHECK( c, same( from( e.system_state() ), s.x ) && same( from( e.estimation_error_covariance() ), s.P ) && e.time() == s.t,
            "replaying the history of an estimator on a new one gives another result: " << ref::str( s.x ) << " vs " << ref::str( from( e.system_state() ) ) );
        c.cls( "100 updates of one estimator", s.history.size() >= 100 );
    }
    c.nontriv( updates >= 2 && pool.size() >= 2 );
    c.cls( "copied", copies > 0 );
}

Suite pbt::suite()
{
    return { "K04",
        "pool of up to 6 estimators driven by random interleavings of update, bursts of updates, copy, construction and observation; after each operation every estimator is compared bit for bit with its snapshot, its time with n*dt, and at the end with a new estimator given the same history. Non-trivial: at least two estimators and two updates.",
        { { "double 1x1", 2, values<double,1,1> }, { "double 2x2", 2, values<double,2,2> }, { "float 2x1", 1, values<float,2,1> }, { "float 1x2", 1, values<float,1,2> }, { "double 2x3", 1, values<double,2,3> } },
        60000, 2000000,
        { "copied", "100 updates of one estimator", "unusual time step" } };
}
