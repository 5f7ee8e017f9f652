// K03: the estimate is the least-squares estimate; exact tracking; superposition.
// fuzz: quick=6000 thorough=100000
#include "fw/kalman_model.hpp"

using namespace pbt;
using ref::from;
using ref::L;
using ref::Mat;

// accumulated first-order deviations of the computed state and covariance from the exact ones
struct Dev
{
    Mat E{ 2, 2 }, e{ 2, 1 };

    template< typename M >
    void step( M const & m, km::Step const & s, Mat const & z )
    {
        using namespace ref;
        Mat H = from( m.H ), A = from( m.A );
        Mat F = abs( mul( sub( eye( 2 ), mul( s.K, H ) ), A ) );
        Mat Si( s.S.n, s.S.n ), inn = abs( sub( z, mul( H, s.xp ) ) );
        if ( inverse( s.S, Si ) )
            e = add( mul( F, e ), scl( mul( mul( mul( mul( F, E ), tr( abs( A ) ) ), tr( abs( H ) ) ), mul( abs( Si ), add( inn, mul( mul( abs( H ), abs( A ) ), e ) ) ) ), 1.2L ) );
        e = add( e, s.ex );
        E = add( scl( mul( mul( F, E ), tr( F ) ), 1.1L ), s.eP );
    }
};

template< typename T, int M, int U >
void batch( Gen & g, Case & c )
{
    using namespace km;
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    Opt o; o.degenerate = false; o.rmin = 0.05;
    auto m = gen_model<T,M,U>( g, c, o );
    // positive definite process noise and initial covariance, for the batch problem
    for ( int i = 0; i < 2; ++i ) { m.Q( i, i ) += (T) g.pick( { 0.1, 0.01, 1.0 } ); m.P( i, i ) += (T) g.pick( { 0.5, 0.05, 5.0 } ); }
    PBT_LOG( c, m.str() );
    auto e = m.make();
    Mat A = from( m.A ), B = from( m.B ), H = from( m.H ), Qi( 2, 2 ), Pi( 2, 2 ), Ri( M, M );
    if ( !ref::inverse( from( m.Q ), Qi ) || !ref::inverse( from( m.P ), Pi ) || !ref::inverse( from( m.R ), Ri ) ) throw Discard();
    int n = g.chance( 1, 6 ) ? g.irange( 8, 40 ) : g.irange( 1, 7 );
    std::vector<Mat> us, zs;
    Dev d;
    for ( int k = 0; k < n; ++k )
    {
        auto u = gen_vec<T,U>( g, 10 );
        auto z = gen_vec<T,M>( g, 100 );
        us.push_back( from( u ) ); zs.push_back( from( z ) );
        auto s = ref_step( m, from( e.system_state() ), from( e.estimation_error_covariance() ), from( u ), from( z ), eps, 64, tiny );
        e.update( u, z );
        if ( !s.ok ) throw Discard();
        d.step( m, s, from( z ) );
    }
    // minimise over the trajectory x_0 .. x_n
    int N = 2 * ( n + 1 );
    Mat J( N, N ), r( N, 1 );
    auto block = [&]( int i, int j, Mat const & b, L f ) { for ( int p = 0; p < b.n; ++p ) for ( int q = 0; q < b.m; ++q ) J( 2 * i + p, 2 * j + q ) += f * b( p, q ); };
    auto rhs = [&]( int i, Mat const & b, L f ) { for ( int p = 0; p < 2; ++p ) r( 2 * i + p, 0 ) += f * b( p, 0 ); };
    block( 0, 0, Pi, 1 ); rhs( 0, ref::mul( Pi, from( m.x ) ), 1 );
    for ( int k = 1; k <= n; ++k )
    {
        Mat At = ref::tr( A ), Bu = ref::mul( B, us[k - 1] ), Ht = ref::tr( H );
        block( k, k, Qi, 1 ); block( k, k - 1, ref::mul( Qi, A ), -1 ); block( k - 1, k, ref::mul( At, Qi ), -1 ); block( k - 1, k - 1, ref::mul( ref::mul( At, Qi ), A ), 1 );
        rhs( k, ref::mul( Qi, Bu ), 1 ); rhs( k - 1, ref::mul( ref::mul( At, Qi ), Bu ), -1 );
        block( k, k, ref::mul( ref::mul( Ht, Ri ), H ), 1 ); rhs( k, ref::mul( ref::mul( Ht, Ri ), zs[k - 1] ), 1 );
    }
    Mat Ji( N, N );
    if ( !ref::inverse( J, Ji ) ) throw Discard();
    L cond = ref::maxabs( J ) * ref::maxabs( Ji ) * N;
    Mat sol = ref::mul( Ji, r );
    L slackP = cond * 1e-17L * ref::maxabs( Ji ), slackx = cond * 1e-17L * ( ref::maxabs( sol ) + ref::maxabs( Ji ) * ref::maxabs( r ) );
    L dE = 2 * ref::maxabs( d.E ) + slackP, de = 2 * ref::maxabs( d.e ) + slackx;
    auto x = from( e.system_state() ), P = from( e.estimation_error_covariance() );
    if ( !( dE < 0.02L * ref::maxabs( P ) ) ) throw Discard();
    for ( int i = 0; i < 2; ++i )
    {
        PBT_CHECK( c, std::fabs( x( i, 0 ) - sol( 2 * n + i, 0 ) ) <= de, "state " << i << " after " << n << " updates is " << ref::str( x ) << ", least squares gives [" << sol( 2 * n, 0 ) << "; " << sol( 2 * n + 1, 0 ) << "], bound " << de << ", model " << m.str() );
        for ( int j = 0; j < 2; ++j )
            PBT_CHECK( c, std::fabs( P( i, j ) - Ji( 2 * n + i, 2 * n + j ) ) <= dE, "covariance(" << i << "," << j << ") after " << n << " updates is " << ref::str( P ) << ", batch gives " << Ji( 2 * n + i, 2 * n + j ) << " bound " << dE << ", model " << m.str() );
    }
    c.nontriv( de < 0.01L * ( ref::maxabs( x ) + 1 ) );
    c.cls( "batch n=1", n == 1 ); c.cls( "batch n>=4", n >= 4 ); c.cls( "batch n>=16", n >= 16 );
}

template< typename T, int M, int U >
void tracking( Gen & g, Case & c )
{
    using namespace km;
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    Opt o; o.degenerate = false; o.amax = 1.0;
    auto m = gen_model<T,M,U>( g, c, o );
    PBT_LOG( c, m.str() );
    auto e = m.make();
    Mat A = from( m.A ), B = from( m.B ), H = from( m.H ), truth = from( m.x ), dev( 2, 1 );
    int n = 0, steps = 0;
    while ( g.more( 15, n, 60 ) )
    {
        auto u = gen_vec<T,U>( g, 10 );
        truth = ref::add( ref::mul( A, truth ), ref::mul( B, from( u ) ) );
        Mat zt = ref::mul( H, truth );
        typename Model<T,M,U>::K::z_t z( (T) 0 );
        for ( int i = 0; i < M; ++i ) z( i, 0 ) = (T) zt( i, 0 );
        auto s = ref_step( m, from( e.system_state() ), from( e.estimation_error_covariance() ), from( u ), from( z ), eps, 64, tiny );
        e.update( u, z );
        if ( !s.ok ) break;
        Mat F = ref::abs( ref::mul( ref::sub( ref::eye( 2 ), ref::mul( s.K, H ) ), A ) );
        dev = ref::add( ref::add( ref::mul( F, dev ), s.ex ), ref::scl( ref::mul( ref::abs( s.K ), ref::abs( zt ) ), 2 * eps ) );
        if ( ref::maxabs( dev ) > 1e-2L * ( ref::maxabs( truth ) + 1e-3L ) ) break;
        auto x = from( e.system_state() );
        PBT_CHECK( c, within( x, truth, dev ), "started at the true state with exact measurements, update " << n << " gives " << ref::str( x ) << ", truth " << ref::str( truth ) << " +/- " << ref::str( dev ) << ", model " << m.str() );
        ++steps;
    }
    c.nontriv( steps >= 2 ); c.cls( "tracking 10 or more updates", steps >= 10 );
}

template< typename T, int M, int U >
void superposition( Gen & g, Case & c )
{
    using namespace km;
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    auto m = gen_model<T,M,U>( g, c );
    PBT_LOG( c, m.str() );
    int al = g.irange( -3, 3 ), be = g.irange( -3, 3 );
    auto dy = [&]( double lim ) { return (T)( (double) g.range( -(int64_t)( lim * 16 ), (int64_t)( lim * 16 ) ) / 16.0 ); };
    auto m1 = m, m2 = m, m3 = m;
    for ( int i = 0; i < 2; ++i ) { m1.x( i, 0 ) = dy( 50 ); m2.x( i, 0 ) = dy( 50 ); m3.x( i, 0 ) = (T) al * m1.x( i, 0 ) + (T) be * m2.x( i, 0 ); }
    auto e1 = m1.make(), e2 = m2.make(), e3 = m3.make();
    Mat dev( 2, 1 );
    int n = 0, steps = 0;
    while ( g.more( 12, n, 60 ) )
    {
        typename Model<T,M,U>::K::u_t u1( (T) 0 ), u2( (T) 0 ), u3( (T) 0 );
        typename Model<T,M,U>::K::z_t z1( (T) 0 ), z2( (T) 0 ), z3( (T) 0 );
        for ( int i = 0; i < U; ++i ) { u1( i, 0 ) = dy( 5 ); u2( i, 0 ) = dy( 5 ); u3( i, 0 ) = (T) al * u1( i, 0 ) + (T) be * u2( i, 0 ); }
        for ( int i = 0; i < M; ++i ) { z1( i, 0 ) = dy( 99 ); z2( i, 0 ) = dy( 99 ); z3( i, 0 ) = (T) al * z1( i, 0 ) + (T) be * z2( i, 0 ); }
        Mat total( 2, 1 ), F;
        bool ok = true;
        auto one = [&]( auto & e, auto const & u, auto const & z, int f )
        {
            auto s = ref_step( m, from( e.system_state() ), from( e.estimation_error_covariance() ), from( u ), from( z ), eps, 64, tiny );
            e.update( u, z );
            if ( !s.ok ) { ok = false; return; }
            F = ref::abs( ref::mul( ref::sub( ref::eye( 2 ), ref::mul( s.K, from( m.H ) ) ), from( m.A ) ) );
            total = ref::add( total, s.ex, std::abs( f ) );
        };
        one( e1, u1, z1, al ); one( e2, u2, z2, be ); one( e3, u3, z3, 1 );
        if ( !ok ) break;
        dev = ref::add( ref::mul( F, dev ), total );
        Mat x1 = from( e1.system_state() ), x2 = from( e2.system_state() ), x3 = from( e3.system_state() );
        Mat want = ref::add( ref::scl( x1, al ), x2, be );
        if ( ref::maxabs( dev ) > 1e-2L * ( ref::maxabs( ref::abs( x1 ) ) + ref::maxabs( x2 ) + 1e-3L ) ) break;
        PBT_CHECK( c, within( x3, want, dev ), "superposition fails at update " << n << ": " << al << "*" << ref::str( x1 ) << " + " << be << "*" << ref::str( x2 ) << " vs " << ref::str( x3 ) << " +/- " << ref::str( dev ) << ", model " << m.str() );
        ++steps;
    }
    c.nontriv( steps >= 2 && al && be ); c.cls( "superposition 10 or more updates", steps >= 10 );
}

Suite pbt::suite()
{
    return { "K03",
        "batch: random positive definite models and 1..7 (at times up to 40) random updates, compared with the least-squares solution over the whole trajectory (normal equations, long double); tracking: started at the truth with exact measurements; superposition: three histories combined with small integer factors. Non-trivial: the comparison bound is below 1% (batch); at least two checked updates (others; both factors non-zero).",
        {
            { "double 1x1 batch", 3, batch<double,1,1> }, { "double 2x2 batch", 3, batch<double,2,2> }, { "float 1x2 batch", 1, batch<float,1,2> }, { "double 2x1 batch", 1, batch<double,2,1> }, { "double 1x3 batch", 1, batch<double,1,3> },
            { "double 1x1 tracking", 2, tracking<double,1,1> }, { "double 2x2 tracking", 2, tracking<double,2,2> }, { "float 2x1 tracking", 1, tracking<float,2,1> },
            { "double 1x2 superposition", 2, superposition<double,1,2> }, { "double 2x2 superposition", 2, superposition<double,2,2> },
        },
        60000, 2000000,
        { "batch n>=4", "batch n>=16", "tracking 10 or more updates", "superposition 10 or more updates" } };
}
