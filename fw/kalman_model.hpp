// Generator of Kalman models and the reference step with its rounding-error bound.
#ifndef KALMAN_MODEL_HPP
#define KALMAN_MODEL_HPP

#include "fw/pbt.hpp"
#include "fw/ref.hpp"
#ifndef KM_OTHER_ESTIMATOR
#include "dsp/kalman.hpp"
#endif

namespace km {

using ref::L;
using ref::Mat;

template< typename T, int M, int U >
struct Model
{
    using K = num::kalman<T,2,M,U>;
    T dt = 1;
    typename K::A_t A{}; typename K::B_t B{}; typename K::H_t H{};
    typename K::Q_t Q{}; typename K::R_t R{}; typename K::P_t P{};
    typename K::xhat_t x{};
    double unit = 1;                // of states, controls and measurements
    K make() const { return K( dt, A, B, H, Q, R, P, x ); }
    std::string str() const
    {
        using ref::from; using ref::str;
        return "dt=" + std::to_string( (double) ref::real_of( dt ) ) + " A=" + str( from( A ) ) + " B=" + str( from( B ) ) + " H=" + str( from( H ) ) + " Q=" + str( from( Q ) )
             + " R=" + str( from( R ) ) + " P=" + str( from( P ) ) + " x=" + str( from( x ) );
    }
};

// symmetric positive semi-definite n x n, plus d on the diagonal; exactly symmetric in T
template< typename T, typename MT >
void gen_psd( pbt::Gen & g, MT & m, double scale, double d )
{
    int n = m.rows();
    double l[2][2] = {};
    for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) l[i][j] = g.chance( 1, 4 ) ? 0.0 : g.real( -2, 2 ) * scale;
    for ( int i = 0; i < n; ++i ) for ( int j = 0; j <= i; ++j )
    {
        double s = 0; for ( int k = 0; k < n; ++k ) s += l[i][k] * l[j][k];
        if ( i == j ) s += d;
        m( i, j ) = (T) s; m( j, i ) = (T) s;
    }
}

struct Opt { double amax = 1.5; double rmin = 0; bool degenerate = true; double xmax = 100; bool scales = false; };

template< typename T, int M, int U >
Model<T,M,U> gen_model( pbt::Gen & g, pbt::Case & c, Opt o = Opt() )
{
    Model<T,M,U> m;
    m.dt = (T) g.pick( { 1.0, 0.5, 0.1, 0.25, 2.0, 1e-3, 0.75 } );
    if ( g.coin() )
    {
        // position/velocity kinematics, as in the examples
        double dt = (double) ref::real_of( m.dt );
        m.A = { (T) 1, (T) dt, (T) 0, (T) 1 };
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < U; ++j ) m.B( i, j ) = (T)( i == 0 ? dt * dt / 2 : dt ) * (T)( j + 1 );
        c.cls( "kinematic model" );
    }
    else
    {
        for ( auto & v : m.A ) v = (T) g.real( -o.amax, o.amax );
        for ( auto & v : m.B ) v = (T) g.real( -2, 2 );
        c.cls( "general model" );
    }
    if ( M == 1 && g.coin() ) { m.H = { (T) 1, (T) 0 }; }
    else for ( auto & v : m.H ) v = (T) g.real( -2, 2 );
    double qs = g.pick( { 0.2, 0.0, 1.0, 0.01 } ), ps = g.pick( { 1.0, 0.0, 10.0, 0.1 } ), rs = g.pick( { 1.0, 0.1, 3.0 } );
    gen_psd<T>( g, m.Q, qs, 0 );
    gen_psd<T>( g, m.P, ps, 0 );
    gen_psd<T>( g, m.R, rs, M == 2 ? 0.25 * rs * rs + o.rmin : o.rmin );
    if ( o.degenerate && M == 1 && g.chance( 1, 16 ) )
    {
        m.R = typename Model<T,M,U>::K::R_t( (T) 0 );
        if ( g.coin() ) { m.H = typename Model<T,M,U>::K::H_t( (T) 0 ); }
        else { m.P = typename Model<T,M,U>::K::P_t( (T) 0 ); m.Q = typename Model<T,M,U>::K::Q_t( (T) 0 ); }
        c.cls( "zero innovation covariance" );
    }
    for ( auto & v : m.x ) v = (T) g.real( -o.xmax, o.xmax );
    if ( o.scales && g.chance( 1, 5 ) )
    {
        // other units: covariances far from one, down to what single precision can hold
        double s = std::ldexp( 1.0, g.irange( -40, 30 ) ), t = std::ldexp( 1.0, g.irange( -30, 40 ) );
        for ( auto & v : m.Q ) v = v * (T) s;
        for ( auto & v : m.P ) v = v * (T) s;
        for ( auto & v : m.R ) v = v * (T) s;
        for ( auto & v : m.x ) v = v * (T) t;
        m.unit = t;
        c.cls( "other units" );
    }
    return m;
}

// One textbook predict/correct step in long double, with entrywise bounds on what
// any correct evaluation in arithmetic of unit roundoff u may differ by.
struct Step
{
    Mat x, P, K, Pp, xp, S;
    Mat ex, eP, eK, ePp;
    bool ok = true;          // well-conditioned enough to say anything
    bool zero = false;       // innovation covariance is exactly zero
};

template< typename T, int M, int U >
L largest( Model<T,M,U> const & m, Mat const & x0, Mat const & P0, Mat const & u, Mat const & z, Step const & s );

template< typename T, int M, int U >
Step ref_step( Model<T,M,U> const & m, Mat const & x, Mat const & P, Mat const & u, Mat const & z, L eps, L c = 64, L floor_abs = 0 )
{
    using namespace ref;
    Mat A = from( m.A ), B = from( m.B ), H = from( m.H ), Q = from( m.Q ), R = from( m.R );
    auto aA = abs( A ), aB = abs( B ), aH = abs( H );
    L cu = c * eps;
    Step s;
    auto fl = [&]( Mat const & e ) { return add( e, ones( e.n, e.m, floor_abs ) ); };
    s.xp = add( mul( A, x ), mul( B, u ) );
    Mat exp_ = fl( scl( add( mul( aA, abs( x ) ), mul( aB, abs( u ) ) ), cu ) );
    s.Pp = add( mul( mul( A, P ), tr( A ) ), Q );
    Mat ePp = fl( scl( add( mul( mul( aA, abs( P ) ), tr( aA ) ), abs( Q ) ), cu ) );
    ePp = add( ePp, scl( mul( ones( 2, 2, floor_abs ), tr( aA ) ), 1 ) );
    s.ePp = ePp;
    s.S = add( mul( mul( H, s.Pp ), tr( H ) ), R );
    Mat aPp = abs( s.Pp );
    Mat eS = add( mul( mul( aH, ePp ), tr( aH ) ), fl( scl( add( mul( mul( aH, aPp ), tr( aH ) ), abs( R ) ), cu ) ) );
    eS = add( eS, mul( ones( M, 2, floor_abs ), tr( aH ) ) );
    Mat Si( M, M ), eSi( M, M );
    if ( maxabs( s.S ) == 0 )
    {
        s.zero = true;
        if ( M != 1 || maxabs( mul( mul( aH, aPp ), tr( aH ) ) ) + maxabs( R ) != 0 ) { s.ok = false; return s; }
    }
    else if ( M == 1 )
    {
        L v = s.S( 0, 0 );
        if ( !( v > 0 ) || eS( 0, 0 ) > 0.05L * v ) { s.ok = false; return s; }
        Si( 0, 0 ) = 1 / v;
        eSi( 0, 0 ) = 1.2L * eS( 0, 0 ) / ( v * v ) + cu / v + floor_abs;
    }
    else
    {
        L ad = s.S( 0, 0 ) * s.S( 1, 1 ), bc = s.S( 0, 1 ) * s.S( 1, 0 ), det = ad - bc;
        L edet = eS( 0, 0 ) * std::fabs( s.S( 1, 1 ) ) + eS( 1, 1 ) * std::fabs( s.S( 0, 0 ) ) + eS( 0, 1 ) * std::fabs( s.S( 1, 0 ) ) + eS( 1, 0 ) * std::fabs( s.S( 0, 1 ) )
               + cu * ( std::fabs( ad ) + std::fabs( bc ) ) + floor_abs;
        if ( !( det > 0 ) || edet > 0.05L * det || !inverse( s.S, Si ) ) { s.ok = false; return s; }
        // 1/det and each entry, entrywise
        L eid = 1.2L * edet / ( det * det ) + cu / det + floor_abs;
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j )
        {
            // entry uses S(1-i,1-j) (or its mirror: S is symmetric up to its own error)
            L v = std::max( std::fabs( s.S( 1 - i, 1 - j ) ), std::fabs( s.S( 1 - j, 1 - i ) ) );
            L ev = std::max( eS( 1 - i, 1 - j ), eS( 1 - j, 1 - i ) ) + std::fabs( s.S( 0, 1 ) - s.S( 1, 0 ) );
            eSi( i, j ) = eid * v + ( 1 / det ) * ev + cu * v / det + floor_abs;
        }
    }
    Mat PH = mul( s.Pp, tr( H ) ), aPH = mul( aPp, tr( aH ) );
    s.K = mul( PH, Si );
    s.eK = add( add( mul( mul( ePp, tr( aH ) ), add( abs( Si ), eSi ) ), mul( aPH, eSi ) ), fl( scl( mul( aPH, abs( Si ) ), cu ) ) );
    s.eK = add( s.eK, mul( ones( 2, M, floor_abs ), abs( Si ) ) );
    Mat inn = sub( z, mul( H, s.xp ) );
    Mat einn = add( mul( aH, exp_ ), fl( scl( add( abs( z ), mul( aH, abs( s.xp ) ) ), cu ) ) );
    Mat aK = add( abs( s.K ), s.eK );
    s.x = add( s.xp, mul( s.K, inn ) );
    s.ex = add( exp_, mul( s.eK, add( abs( inn ), einn ) ) );
    s.ex = add( s.ex, mul( aK, einn ) );
    s.ex = add( s.ex, fl( scl( add( abs( s.xp ), mul( aK, abs( inn ) ) ), cu ) ) );
    Mat IKH = add( eye( 2 ), mul( aK, aH ) );
    s.P = mul( sub( eye( 2 ), mul( s.K, H ) ), s.Pp );
    s.eP = add( add( mul( mul( s.eK, aH ), aPp ), mul( IKH, ePp ) ), fl( scl( mul( IKH, aPp ), cu ) ) );
    s.eP = add( s.eP, mul( ones( 2, 2, floor_abs ), aPp ) );
    if ( !std::isfinite( (double) maxabs( s.x ) ) || !std::isfinite( (double) maxabs( s.P ) ) || maxabs( s.P ) > 1e25L || maxabs( s.x ) > 1e25L ) s.ok = false;
    // products on the way (a determinant, say) must stay representable, too:
    if constexpr ( std::numeric_limits<T>::is_iec559 )
        if ( s.ok && !s.zero && largest( m, x, P, u, z, s ) > (L) std::numeric_limits<T>::max() / 64 ) s.ok = false;
    return s;
}

// bound on the magnitude of every intermediate value of the step s
template< typename T, int M, int U >
L largest( Model<T,M,U> const & m, Mat const & x0, Mat const & P0, Mat const & u, Mat const & z, Step const & s )
{
    using ref::from; using ref::abs; using ref::mul; using ref::add; using ref::tr;
    Mat A = from( m.A ), B = from( m.B ), H = from( m.H ), Q = from( m.Q ), R = from( m.R );
    L big = 0;
    auto see = [&]( Mat const & x ) { big = std::max( big, ref::maxabs( x ) ); };
    see( add( mul( abs( A ), abs( x0 ) ), mul( abs( B ), abs( u ) ) ) );
    see( mul( abs( A ), abs( P0 ) ) );
    see( add( mul( mul( abs( A ), abs( P0 ) ), tr( abs( A ) ) ), abs( Q ) ) );
    Mat aPp = add( abs( s.Pp ), s.ePp );
    see( add( mul( mul( abs( H ), aPp ), tr( abs( H ) ) ), abs( R ) ) );
    see( mul( aPp, tr( abs( H ) ) ) );
    Mat Si( M, M );
    if ( !ref::inverse( s.S, Si ) ) return HUGE_VALL;
    see( ref::scl( Si, 2 ) );
    if ( M == 2 )
    {
        L ad = s.S( 0, 0 ) * s.S( 1, 1 ), bc = s.S( 0, 1 ) * s.S( 1, 0 );
        big = std::max( { big, std::fabs( ad ), std::fabs( bc ), 2 / std::fabs( ad - bc ) } );
    }
    see( mul( mul( aPp, tr( abs( H ) ) ), abs( Si ) ) );
    Mat aK = add( abs( s.K ), s.eK ), ainn = add( abs( z ), mul( abs( H ), abs( s.xp ) ) );
    see( ainn ); see( add( abs( s.xp ), mul( aK, ainn ) ) );
    Mat IKH = add( ref::eye( 2 ), mul( aK, abs( H ) ) );
    see( IKH ); see( mul( IKH, aPp ) );
    return big;
}

inline bool within( Mat const & got, Mat const & want, Mat const & err )
{
    for ( std::size_t i = 0; i < got.a.size(); ++i )
        if ( !( std::fabs( got.a[i] - want.a[i] ) <= err.a[i] + 1e-300L ) ) return false;
    return true;
}

template< typename T, int N >
num::matrix<T,N,1> gen_vec( pbt::Gen & g, double lim )
{
    num::matrix<T,N,1> v( (T) 0 );
    for ( auto & e : v ) e = (T) g.real( -lim, lim );
    return v;
}

} // namespace km

#endif
