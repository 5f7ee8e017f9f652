// A02: matrix and estimator results on the microcontroller match the desktop.
// plain
// flags: -Wno-narrowing
// device: a02_i16_O2 avr/A02.cpp -O2 -DELEM=0
// device: a02_i16_Os avr/A02.cpp -Os -DELEM=0
// device: a02_i32_O2 avr/A02.cpp -O2 -DELEM=1
// device: a02_i32_Os avr/A02.cpp -Os -DELEM=1
// device: a02_x32_O2 avr/A02.cpp -O2 -DELEM=2
// device: a02_x32_Os avr/A02.cpp -Os -DELEM=2
// device: a02_flt_O2 avr/A02.cpp -O2 -DELEM=3
// device: a02_flt_Os avr/A02.cpp -Os -DELEM=3
// device: a02_x16_O2 avr/A02.cpp -O2 -DELEM=4
// device: a02_x16_Os avr/A02.cpp -Os -DELEM=4
// fuzz: quick=6000 thorough=200000
#include "avr/A02_ops.hpp"
#include "fw/device.hpp"
#include "fw/fixed_as_real.hpp"
#include "fw/kalman_model.hpp"

using namespace pbt;
using ref::L; using ref::Mat; using ref::from;
using X32 = num::fixed_point<std::int32_t,15>;
using X16 = num::fixed_point<std::int16_t,7>;

template< typename T > char const * elem();
template<> char const * elem<std::int16_t>() { return "i16"; }
template<> char const * elem<std::int32_t>() { return "i32"; }
template<> char const * elem<X32>() { return "x32"; }
template<> char const * elem<X16>() { return "x16"; }
template<> char const * elem<float>() { return "flt"; }

template< typename T > Device & device( bool small )
{
    static Device * d[2];
    if ( !d[small] ) d[small] = new Device( std::string( "a02_" ) + elem<T>() + ( small ? "_Os" : "_O2" ) );
    return *d[small];
}

template< typename T > void give_to( Device & d, T const * in, int n ) { std::memcpy( d.cpu.data + d.image.at( "m_in" ), in, n * sizeof( T ) ); }
template< typename T > void take_from( Device & d, T * out, int n ) { std::memcpy( out, d.cpu.data + d.image.at( "m_out" ), n * sizeof( T ) ); }

template< typename T > struct Limit { static constexpr double cubic = 15, square = 90, linear = 4000; };
template<> struct Limit<std::int32_t> { static constexpr double cubic = 700, square = 20000, linear = 5e8; };
template<> struct Limit<X32> { static constexpr double cubic = 18, square = 90, linear = 8000; };
template<> struct Limit<X16> { static constexpr double cubic = 2.5, square = 5.5, linear = 60; };
template<> struct Limit<float> { static constexpr double cubic = 1e4, square = 1e6, linear = 1e9; };

template< typename T > void operation( Gen & g, Case & c )
{
    int which = (int) g.draw( op_count - 1 );
    bool const inv2 = which == 61, inv1 = which == 59;
    double lim = ( which >= 54 && which <= 58 ) ? Limit<T>::cubic : ( which >= 19 && which <= 29 && which != 21 && which != 22 ) || ( which >= 39 && which <= 50 ) || ( which >= 70 && which <= 74 ) || inv2 ? Limit<T>::square : Limit<T>::linear;
    T in[max_in], want[max_out], got[max_out];
    std::fill( in, in + max_in, (T) 0 );
    int const shape = (int) g.draw( 3 );
    for ( int i = 0; i < 20; ++i )
        in[i] = shape == 0 ? (T) (int) g.range( -2, 2 ) : std::is_integral<T>::value && shape < 3 ? (T) (int) g.range( (std::int64_t) -lim, (std::int64_t) lim ) : shape == 3 && g.chance( 1, 8 ) ? (T) (int)( g.coin() ? lim : -lim ) : (T) g.uniform( -lim, lim );
    if ( which == 11 && g.coin() ) for ( int i = 0; i < 6; ++i ) in[6 + i] = in[i];
    if ( inv1 && from( matrix<T,1,1>( in[0] ) )( 0, 0 ) != 0 && std::fabs( from( matrix<T,1,1>( in[0] ) )( 0, 0 ) ) < 0.02L ) throw Discard();
    if ( inv2 )
    {
        T const * p = in; Mat m = from( take<T,2,2>( p ) );
        L det = m( 0, 0 ) * m( 1, 1 ) - m( 0, 1 ) * m( 1, 0 ), s = std::fabs( m( 0, 0 ) * m( 1, 1 ) ) + std::fabs( m( 0, 1 ) * m( 1, 0 ) );
        if ( std::fabs( det ) < 0.5L || ( std::is_floating_point<T>::value && std::fabs( det ) < 0.01L * s ) ) throw Discard();
    }
    std::fill( want, want + max_out, (T) 77 ); std::fill( got, got + max_out, (T) 78 );
    { std::ostringstream os; os << elem<T>() << " operation " << which << " on"; for ( int i = 0; i < 20; ++i ) os << " " << (double) from( matrix<T,1,1>( in[i] ) )( 0, 0 ); PBT_LOG( c, os.str() ); }
    matrix_op<T>( (std::uint8_t) which, in, want );
    Device & d = device<T>( g.coin() );
    d.reset();
    // the results area of the device is filled with the same value, so that what an operation leaves alone compares equal
    std::uint32_t o = d.image.at( "_ZL4out_" ), e = d.image.at( "_ZL3in_" ); (void) e;
    { T fill = (T) 77; for ( int i = 0; i < max_out; ++i ) std::memcpy( d.cpu.data + o + i * sizeof( T ), &fill, sizeof( T ) ); }
    give_to( d, in, max_in );
    d.call( c, "op", { { (std::uint64_t) which, 1 } } );
    take_from( d, got, max_out );
    L scale = 0; for ( int i = 0; i < 20; ++i ) scale = std::max( scale, std::fabs( from( matrix<T,1,1>( in[i] ) )( 0, 0 ) ) );
    L bound = 0; for ( int i = 0; i < max_out; ++i ) bound = std::max( bound, std::fabs( from( matrix<T,1,1>( want[i] ) )( 0, 0 ) ) );
    if ( lim == Limit<T>::square && !inv2 ) scale = 3 * scale * scale;
    if ( lim == Limit<T>::cubic ) scale = 4 * scale * scale * scale + scale;
    if ( inv2 ) scale = 100 * bound;
    for ( int i = 0; i < max_out; ++i )
    {
        L w = from( matrix<T,1,1>( want[i] ) )( 0, 0 ), h = from( matrix<T,1,1>( got[i] ) )( 0, 0 );
        bool same = std::is_floating_point<T>::value ? std::fabs( w - h ) <= 8 * (L) std::numeric_limits<float>::epsilon() * scale : std::memcmp( &want[i], &got[i], sizeof( T ) ) == 0;
        PBT_CHECK( c, same, d.name << ": result " << i << " of operation " << which << " is " << (double) h << ", on the desktop " << (double) w );
    }
    bool any = false; for ( int i = 0; i < max_out; ++i ) any = any || from( matrix<T,1,1>( want[i] ) )( 0, 0 ) != 77;
    c.nontriv( any && scale > 0 );
    c.cls( "construction and access", which < 15 ); c.cls( "1x1 and scalars", which >= 15 && which < 26 ); c.cls( "vectors", which >= 26 && which < 36 ); c.cls( "matrices", which >= 36 && which < 54 );
    c.cls( "estimator expressions", which >= 54 && which < 59 ); c.cls( "2x2 inverse", inv2 ); c.cls( "library stand-ins", which >= 62 && which < 66 ); c.cls( "more than 255 elements", which >= 66 && which < 70 ); c.cls( "not square", which >= 70 );
}

inline bool differs( float a, float b ) { return std::memcmp( &a, &b, 4 ) != 0; }

template< typename T, int M, int U > void estimator( Gen & g, Case & c )
{
    using namespace km;
    bool const fixed = !std::is_floating_point<T>::value;
    L const ulp = std::ldexp( 1.0L, -16 );
    Opt o; if ( fixed ) { o.degenerate = false; o.amax = 1.25; o.rmin = 0.25; o.xmax = 30; }
    auto m = gen_model<T,M,U>( g, c, o );
    PBT_LOG( c, m.str() );
    auto e = m.make();
    Device & d = device<T>( g.coin() );
    d.reset();
    T in[max_in], out[max_out]; T * p = in;
    std::fill( in, in + max_in, (T) 0 );
    give( p, m.dt ); give( p, m.A ); give( p, m.B ); give( p, m.H ); give( p, m.Q ); give( p, m.R ); give( p, m.P ); give( p, m.x );
    std::string const fn = "est_" + std::to_string( M ) + std::to_string( U );
    give_to( d, in, max_in );
    d.call( c, fn, { { 0, 1 } } );
    take_from( d, out, max_out );
    T t = out[0]; T const * q = out + 1; auto x = take<T,2,1>( q ); auto P = take<T,2,2>( q );
    auto exact = [&]( T const * a, T const * b, int n ) { return std::memcmp( a, b, n * sizeof( T ) ) == 0; };
    PBT_CHECK( c, exact( &x.at( 0 ), &m.x.at( 0 ), 2 ) && exact( &P.at( 0 ), &m.P.at( 0 ), 4 ), d.name << ": initial state " << ref::str( from( x ) ) << " and covariance " << ref::str( from( P ) ) << " are not the given ones, model " << m.str() );
    int n = 0, steps = 0;
    while ( g.more( 6, n, 40 ) )
    {
        auto u = gen_vec<T,U>( g, fixed ? 2 : 10 ); auto z = gen_vec<T,M>( g, fixed ? o.xmax : 200 );
        Mat x0 = from( x ), P0 = from( P );
        auto s = fixed ? ref_step( m, x0, P0, from( u ), from( z ), 0, 0, 4 * ulp ) : ref_step( m, x0, P0, from( u ), from( z ), (L) std::numeric_limits<float>::epsilon(), 64, (L) std::numeric_limits<float>::min() );
        if ( !s.ok ) { c.cls( "ill-conditioned: stopped" ); break; }
        if ( fixed && largest( m, x0, P0, from( u ), from( z ), s ) > 16384 ) { c.cls( "range limit: stopped" ); break; }
        p = in; give( p, u ); give( p, z );
        give_to( d, in, U + M );
        d.call( c, fn, { { 1, 1 } } );
        take_from( d, out, max_out );
        q = out + 1; x = take<T,2,1>( q ); P = take<T,2,2>( q ); auto K = take<T,2,M>( q ); t = out[0];
        e.update( u, z );
        PBT_LOG( c, "\nstep " << n << " u=" << ref::str( from( u ) ) << " z=" << ref::str( from( z ) ) << " => x=" << ref::str( from( x ) ) << " K=" << ref::str( from( K ) ) << " P=" << ref::str( from( P ) ) );
        if ( fixed )
        {
            auto ex = e.system_state(); auto eP = e.estimation_error_covariance(); auto eK = e.kalman_gain();
            PBT_CHECK( c, exact( &x.at( 0 ), &ex.at( 0 ), 2 ), d.name << ": state after update " << n << " is " << ref::str( from( x ) ) << ", on the desktop " << ref::str( from( ex ) ) << " model " << m.str() );
            PBT_CHECK( c, exact( &P.at( 0 ), &eP.at( 0 ), 4 ), d.name << ": covariance after update " << n << " is " << ref::str( from( P ) ) << ", on the desktop " << ref::str( from( eP ) ) << " model " << m.str() );
            PBT_CHECK( c, exact( &K.at( 0 ), &eK.at( 0 ), 2 * M ), d.name << ": gain after update " << n << " is " << ref::str( from( K ) ) << ", on the desktop " << ref::str( from( eK ) ) << " model " << m.str() );
            T et = e.time();
            PBT_CHECK( c, exact( &t, &et, 1 ), d.name << ": time after update " << n << " is " << (double) ref::real_of( t ) << ", on the desktop " << (double) ref::real_of( et ) );
        }
        else
        {
            PBT_CHECK( c, within( from( K ), s.K, s.eK ), d.name << ": gain after update " << n << " is " << ref::str( from( K ) ) << " want " << ref::str( s.K ) << " +/- " << ref::str( s.eK ) << " model " << m.str() );
            PBT_CHECK( c, within( from( x ), s.x, s.ex ), d.name << ": state after update " << n << " is " << ref::str( from( x ) ) << " want " << ref::str( s.x ) << " +/- " << ref::str( s.ex ) << " model " << m.str() );
            PBT_CHECK( c, within( from( P ), s.P, s.eP ), d.name << ": covariance after update " << n << " is " << ref::str( from( P ) ) << " want " << ref::str( s.P ) << " +/- " << ref::str( s.eP ) << " model " << m.str() );
            L want = (L) (float) ref::real_of( m.dt ) * n, tol = (L) n * n * std::numeric_limits<float>::epsilon() * std::fabs( ref::real_of( m.dt ) );
            PBT_CHECK( c, std::fabs( (L) ref::real_of( t ) - want ) <= tol, d.name << ": time after update " << n << " is " << (double) ref::real_of( t ) << ", want " << (double) want );
        }
        ++steps;
    }
    c.nontriv( steps >= 2 );
    c.cls( "estimator: 2 or more updates", steps >= 2 ); c.cls( "estimator: 10 or more updates", steps >= 10 );
}

Suite pbt::suite()
{
    return { "A02",
        "the same operations compiled by avr-g++ (-O2 and -Os), run in an instruction-set simulator of the microcontroller, and compiled for the desktop: 76 matrix, vector and library operations on random in-range operands of five element types, and estimator histories in 15.16 fixed point and float. Integer and fixed-point results are compared bit by bit with the desktop, float results within a rounding bound. Non-trivial: an operation with results on operands not all zero, or a history of at least two updates.",
        {
            { "int16 matrices", 3, operation<std::int16_t> }, { "int32 matrices", 2, operation<std::int32_t> }, { "15.16 matrices", 3, operation<X32> }, { "7.8 matrices", 2, operation<X16> }, { "float matrices", 3, operation<float> },
            { "15.16 estimator 1x1", 1, estimator<X32,1,1> }, { "15.16 estimator 1x2", 1, estimator<X32,1,2> }, { "15.16 estimator 2x1", 1, estimator<X32,2,1> }, { "15.16 estimator 2x2", 1, estimator<X32,2,2> }, { "15.16 estimator 1x3", 1, estimator<X32,1,3> },
            { "float estimator 1x1", 1, estimator<float,1,1> }, { "float estimator 1x2", 1, estimator<float,1,2> }, { "float estimator 2x1", 1, estimator<float,2,1> }, { "float estimator 2x2", 1, estimator<float,2,2> }, { "float estimator 1x3", 1, estimator<float,1,3> },
        },
        60000, 2000000,
        { "construction and access", "1x1 and scalars", "vectors", "matrices", "estimator expressions", "2x2 inverse", "library stand-ins", "more than 255 elements", "not square", "estimator: 2 or more updates", "estimator: 10 or more updates" } };
}
