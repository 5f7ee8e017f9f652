// K02: the error covariance stays a covariance, never depends on the data, and is monotone.
// fuzz: quick=8000 thorough=150000
#include "fw/kalman_model.hpp"
#include <cstring>
#include <memory>

using namespace pbt;
using ref::from;
using ref::L;
using ref::Mat;

// accumulated first-order deviation of the computed covariance from the exact one
struct Dev
{
    Mat E{ 2, 2 };
    bool ok = true;

    template< typename M >
    void step( M const & m, km::Step const & s )
    {
        using namespace ref;
        Mat F = abs( mul( sub( eye( 2 ), mul( s.K, from( m.H ) ) ), from( m.A ) ) );
        E = add( scl( mul( mul( F, E ), tr( F ) ), 1.1L ), s.eP );
        ok = ok && maxabs( E ) < 1e-3L * ( maxabs( s.P ) + 1e-30L );
    }
};

template< typename T, int M, int U >
void covariance( Gen & g, Case & c )
{
    using namespace km;
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    auto m = gen_model<T,M,U>( g, c );
    double const big = g.chance( 1, 4 ) ? std::ldexp( 1.0, g.irange( 10, 30 ) ) : 1000;      // size of the other data
    PBT_LOG( c, m.str() << " " );
    auto e = m.make();

    auto m2 = m; for ( auto & v : m2.x ) v = (T) g.real( -big, big );
    auto other = m2.make();

    Dev d;
    int n = 0, steps = 0, max = g.chance( 1, 30 ) ? 300 : 40;
    while ( g.more( max > 40 ? 200 : 10, n, max ) )
    {
        auto u = gen_vec<T,U>( g, 10 ), u2 = gen_vec<T,U>( g, big );
        auto z = gen_vec<T,M>( g, 200 ), z2 = gen_vec<T,M>( g, 5 * big );
        auto P0 = from( e.estimation_error_covariance() );
        auto s = ref_step( m, Mat( 2, 1 ), P0, Mat( U, 1 ), Mat( M, 1 ), eps, 64, tiny );
        e.update( u, z );
        other.update( u2, z2 );
        if ( !s.ok ) { c.cls( "ill-conditioned: stopped" ); break; }
        auto P = from( e.estimation_error_covariance() ), K = from( e.kalman_gain() );
        auto P2 = from( other.estimation_error_covariance() ), K2 = from( other.kalman_gain() );
        if ( !std::isfinite( (double) ref::maxabs( P ) ) || !std::isfinite( (double) ref::maxabs( K ) ) ) break;
        PBT_LOG( c, "\nstep " << n << " P=" << ref::str( P ) );
        PBT_CHECK( c, P.a == P2.a && K.a == K2.a, "gain or covariance depend on the data after update " << n << ": " << ref::str( P ) << " / " << ref::str( P2 ) << ", " << ref::str( K ) << " / " << ref::str( K2 ) << " model " << m.str() );
        d.step( m, s );
        if ( !d.ok ) { c.cls( "bound too wide: stopped" ); break; }
        L w = ref::maxabs( d.E ) * 2 + tiny;
        PBT_CHECK( c, std::fabs( P( 0, 1 ) - P( 1, 0 ) ) <= d.E( 0, 1 ) + d.E( 1, 0 ) + w, "covariance not symmetric after update " << n << ": " << ref::str( P ) << " model " << m.str() );
        PBT_CHECK( c, ref::min_eig2( P ) >= -w, "covariance not positive semi-definite after update " << n << ": " << ref::str( P ) << " smallest eigenvalue " << ref::min_eig2( P ) << " bound " << w << " model " << m.str() );
        auto A = from( m.A );
        auto pred = ref::add( ref::mul( ref::mul( A, P0 ), ref::tr( A ) ), from( m.Q ) );
        L wp = w + 2 * ref::maxabs( s.ePp ) + 2 * ref::maxabs( s.eP );
        // the previous covariance may itself be off by the accumulated deviation
        PBT_CHECK( c, ref::min_eig2( ref::sub( pred, P ) ) >= -wp - 4 * w, "the measurement added uncertainty at update " << n << ": predicted " << ref::str( pred ) << " corrected " << ref::str( P ) << " model " << m.str() );
        ++steps;
    }
    c.nontriv( steps >= 2 && ref::maxabs( from( m.P ) ) + ref::maxabs( from( m.Q ) ) > 0 );
    c.cls( "3 or more updates", steps >= 3 ); c.cls( "more than 40 updates", steps > 40 );
}

template< typename T, int M, int U >
void monotone( Gen & g, Case & c )
{
    using namespace km;
    L eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
    Opt o; o.degenerate = false;
    auto a = gen_model<T,M,U>( g, c, o );
    auto b = a;
    auto extra = [&]( auto & dst )
    {
        auto x = dst;
        gen_psd<T>( g, x, g.pick( { 0.0, 0.3, 3.0 } ), 0 );
        for ( int i = 0; i < dst.rows(); ++i ) for ( int j = 0; j < dst.columns(); ++j ) dst( i, j ) += x( i, j );
        return ref::maxabs( from( x ) ) > 0;
    };
    bool bp = extra( b.P ), bq = extra( b.Q ), br = extra( b.R );
    c.cls( "larger P", bp ); c.cls( "larger Q", bq ); c.cls( "larger R", br );
    PBT_LOG( c, "smaller: " << a.str() << "\nlarger: " << b.str() );
    auto ea = a.make(), eb = b.make();
    Dev da, db;
    int n = 0, steps = 0;
    typename Model<T,M,U>::K::u_t u( (T) 0 );
    typename Model<T,M,U>::K::z_t z( (T) 0 );
    // the difference of the two rounded starting covariances is semi-definite up to rounding
    da.E = ref::scl( ref::abs( from( b.P ) ), 4 * eps ); db.E = da.E;
    while ( g.more( 10, n, 40 ) )
    {
        auto sa = ref_step( a, Mat( 2, 1 ), from( ea.estimation_error_covariance() ), Mat( U, 1 ), Mat( M, 1 ), eps, 64, tiny );
        auto sb = ref_step( b, Mat( 2, 1 ), from( eb.estimation_error_covariance() ), Mat( U, 1 ), Mat( M, 1 ), eps, 64, tiny );
        ea.update( u, z ); eb.update( u, z );
        if ( !sa.ok || !sb.ok ) break;
        da.step( a, sa ); db.step( b, sb );
        if ( !da.ok || !db.ok ) break;
        auto Pa = from( ea.estimation_error_covariance() ), Pb = from( eb.estimation_error_covariance() );
        L w = 4 * ( ref::maxabs( da.E ) + ref::maxabs( db.E ) );
        PBT_CHECK( c, ref::min_eig2( ref::sub( Pb, Pa ) ) >= -w, "larger covariances gave a smaller error covariance at update " << n << ": " << ref::str( Pa ) << " vs " << ref::str( Pb )
            << " smaller: " << a.str() << " larger: " << b.str() );
        ++steps;
    }
    c.nontriv( steps >= 1 && ( bp || bq || br ) );
}

Suite pbt::suite()
{
    return { "K02",
        "random models with exactly symmetric semi-definite covariances and random histories; after every update: symmetric, no negative eigenvalue, not above the predicted covariance (within the accumulated rounding bound), bitwise equal gain and covariance for a second estimator with other data; and pairs of models with ordered covariances keep that order. Non-trivial: at least two checked updates and P or Q not zero; for ordered pairs at least one checked update and a strict increase.",
        {
            { "double 1x1 covariance", 3, covariance<double,1,1> },
            { "double 2x2 covariance", 3, covariance<double,2,2> },
            { "double 2x1 covariance", 1, covariance<double,2,1> },
            { "float 1x2 covariance", 1, covariance<float,1,2> },
            { "float 2x2 covariance", 1, covariance<float,2,2> },
            { "double 1x1 monotone", 2, monotone<double,1,1> },
            { "double 2x2 monotone", 2, monotone<double,2,2> },
        },
        80000, 3000000,
        { "more than 40 updates", "larger P", "larger Q", "larger R" } };
}
