// K06: what the timing program times is the update of the estimator, once per blink.
// flags: -I{ROOT}/fw/host
// device: K06_du_O2 repo:time/avr-kalman-time.cpp -O2 -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_du_Os repo:time/avr-kalman-time.cpp -Os -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_df_O2 repo:time/avr-kalman-time.cpp -O2 -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_df_Os repo:time/avr-kalman-time.cpp -Os -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_fu_O2 repo:time/avr-kalman-time.cpp -O2 -DKE_NUMERIC_TYPE=fp32_t -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_fu_Os repo:time/avr-kalman-time.cpp -Os -DKE_NUMERIC_TYPE=fp32_t -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_ff_O2 repo:time/avr-kalman-time.cpp -O2 -DKE_NUMERIC_TYPE=fp32_t -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_ff_Os repo:time/avr-kalman-time.cpp -Os -DKE_NUMERIC_TYPE=fp32_t -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_du_O2_ref avr/K06.cpp -O2 -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_du_Os_ref avr/K06.cpp -Os -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_df_O2_ref avr/K06.cpp -O2 -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_df_Os_ref avr/K06.cpp -Os -DKE_NUMERIC_TYPE=double -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_fu_O2_ref avr/K06.cpp -O2 -DKE_NUMERIC_TYPE=num::fixed_point<std20::int32_t,15> -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_fu_Os_ref avr/K06.cpp -Os -DKE_NUMERIC_TYPE=num::fixed_point<std20::int32_t,15> -DKE_UPDATE_KALMAN_GAIN=1
// device: K06_ff_O2_ref avr/K06.cpp -O2 -DKE_NUMERIC_TYPE=num::fixed_point<std20::int32_t,15> -DKE_UPDATE_KALMAN_GAIN=0
// device: K06_ff_Os_ref avr/K06.cpp -Os -DKE_NUMERIC_TYPE=num::fixed_point<std20::int32_t,15> -DKE_UPDATE_KALMAN_GAIN=0
// fuzz: quick=4000 thorough=50000
#include <avr/io.h>
#define main timing_main
#include "../time/avr-kalman-time.cpp"
#undef KE_UPDATE_KALMAN_GAIN
#define KE_UPDATE_KALMAN_GAIN 0
namespace fixed_gain {
namespace num { using namespace ::num; }
#include "../time/avr-kalman-time.cpp"
}
#undef main
#define KM_OTHER_ESTIMATOR
#include "fw/kalman_model.hpp"
#include "fw/mcu_io.hpp"
#include <new>

using namespace pbt;
using ref::from;
using ref::L;

// with updated gain: the textbook step
template< typename T, int M, int U >
void updating( Gen & g, Case & c )
{
    using namespace km;
    Opt o; o.scales = true;
    auto m = gen_model<T,M,U>( g, c, o );
    PBT_LOG( c, m.str() << " " );
    auto e = m.make();
    PBT_CHECK( c, within( from( e.system_state() ), from( m.x ), ref::Mat( 2, 1 ) ), "initial state is not the given one" );
    PBT_CHECK( c, within( from( e.estimation_error_covariance() ), from( m.P ), ref::Mat( 2, 2 ) ), "initial covariance is not the given one" );
    int n = 0, steps = 0;
    while ( g.more( 8, n, 40 ) )
    {
        auto u = gen_vec<T,U>( g, 10 * m.unit );
        auto z = gen_vec<T,M>( g, 200 * m.unit );
        auto x0 = from( e.system_state() ), P0 = from( e.estimation_error_covariance() );
        auto s = ref_step( m, x0, P0, from( u ), from( z ), (L) std::numeric_limits<T>::epsilon(), 64, (L) std::numeric_limits<T>::min() );
        e.update( u, z );
        if ( !s.ok ) { c.cls( "ill-conditioned: stopped" ); break; }
        auto x = from( e.system_state() ), P = from( e.estimation_error_covariance() ), K = from( e.kalman_gain() );
        PBT_LOG( c, "\nstep " << n << " u=" << ref::str( from( u ) ) << " z=" << ref::str( from( z ) ) << " => x=" << ref::str( x ) << " K=" << ref::str( K ) << " P=" << ref::str( P ) );
        PBT_CHECK( c, within( K, s.K, s.eK ), "gain after update " << n << ": got " << ref::str( K ) << " want " << ref::str( s.K ) << " +/- " << ref::str( s.eK ) << " model " << m.str() );
        PBT_CHECK( c, within( x, s.x, s.ex ), "state after update " << n << ": got " << ref::str( x ) << " want " << ref::str( s.x ) << " +/- " << ref::str( s.ex ) << " model " << m.str() );
        PBT_CHECK( c, within( P, s.P, s.eP ), "covariance after update " << n << ": got " << ref::str( P ) << " want " << ref::str( s.P ) << " +/- " << ref::str( s.eP ) << " model " << m.str() );
        ++steps;
    }
    c.cls( "gain updated", steps >= 2 );
    c.nontriv( steps >= 2 && ref::maxabs( from( m.P ) ) + ref::maxabs( from( m.Q ) ) > 0 );
}

// the constructor leaves the gain as it finds it on the desktop: give the memory contents first
template< typename E, typename M > __attribute__((noinline,noipa)) E * build( void * p, M const & m ) { return new ( p ) E( m.dt, m.A, m.B, m.H, m.Q, m.R, m.P, m.x ); }

// with fixed gain: prediction and correction with the gain there is; gain and covariance stay
template< typename T, int M, int U >
void fixed_gain_update( Gen & g, Case & c )
{
    using namespace km;
    using E = fixed_gain::num::kalman<T,2,M,U>;
    auto m = gen_model<T,M,U>( g, c );
    T const gain = (T) g.real( -2, 2 );
    PBT_LOG( c, m.str() << " all gains " << (double) gain << " " );
    alignas( 16 ) unsigned char room[ sizeof( E ) ];
    for ( std::size_t i = 0; i + sizeof( T ) <= sizeof room; i += sizeof( T ) ) std::memcpy( room + i, &gain, sizeof( T ) );
    E & e = *build<E>( room, m );
    auto K0 = from( e.kalman_gain() );
    for ( auto v : K0.a ) if ( !( std::fabs( v ) < 1e6L ) ) throw Discard();
    int n = 0; L moved = 0;
    while ( g.more( 8, n, 40 ) )
    {
        using namespace ref;
        auto u = gen_vec<T,U>( g, 10 ); auto z = gen_vec<T,M>( g, 200 );
        Mat x0 = from( e.system_state() ), A = from( m.A ), B = from( m.B ), H = from( m.H ), uu = from( u ), zz = from( z );
        L cu = 64 * (L) std::numeric_limits<T>::epsilon(), tiny = (L) std::numeric_limits<T>::min();
        Mat xp = add( mul( A, x0 ), mul( B, uu ) ), axp = add( mul( abs( A ), abs( x0 ) ), mul( abs( B ), abs( uu ) ) );
        Mat want = add( xp, mul( K0, sub( zz, mul( H, xp ) ) ) );
        Mat err = scl( add( axp, mul( abs( K0 ), add( abs( zz ), mul( abs( H ), axp ) ) ) ), cu );
        for ( auto & v : err.a ) v += 64 * tiny;
        e.update( u, z );
        if ( maxabs( want ) > 1e25L ) break;
        auto x = from( e.system_state() );
        PBT_LOG( c, "\nstep " << n << " u=" << str( uu ) << " z=" << str( zz ) << " => x=" << str( x ) );
        PBT_CHECK( c, within( x, want, err ), "state after update " << n << " with gain " << str( K0 ) << ": got " << str( x ) << " want " << str( want ) << " +/- " << str( err ) << " model " << m.str() );
        PBT_CHECK( c, from( e.kalman_gain() ).a == K0.a, "the fixed gain changed" );
        PBT_CHECK( c, from( e.estimation_error_covariance() ).a == from( m.P ).a, "the covariance changed though the gain is fixed" );
        moved = std::max( moved, maxabs( K0 ) * maxabs( sub( x, x0 ) ) );
    }
    c.cls( "gain fixed", n >= 2 );
    c.nontriv( n >= 2 && moved > 0 );
}

Device & device( std::string const & n )
{
    static std::map<std::string,Device *> d;
    auto & p = d[n];
    if ( !p ) p = new Device( n );
    return *p;
}

// on the microcontroller: the LED toggles once per update, whatever the settings
void blinking( Gen & g, Case & c )
{
    static char const * const names[] = { "K06_du_O2", "K06_du_Os", "K06_df_O2", "K06_df_Os", "K06_fu_O2", "K06_fu_Os", "K06_ff_O2", "K06_ff_Os" };
    std::string const name = names[g.draw( 7 )];
    Device & d = device( name ); Device & r = device( name + "_ref" );
    int const want = g.irange( 3, 12 );
    PBT_LOG( c, name << ", " << want << " periods" );
    std::vector<std::uint64_t> took;
    r.reset();
    r.call( c, "set_up" );
    for ( int i = 0; i < want; ++i ) { r.call( c, "one_update" ); took.push_back( r.cpu.steps ); }

    d.reset();
    Io io( d.cpu );
    io.randomize( g );
    unsigned char before[0x100]; std::memcpy( before, d.cpu.data, sizeof before );
    std::vector<std::uint64_t> at;
    std::string bad;
    std::uint8_t const LED = 0x20;
    auto plain = d.cpu.on_write;
    d.cpu.on_write = [&]( std::uint16_t a, std::uint8_t v, int bit )
    {
        std::uint8_t was = d.cpu.data[0x25];
        if ( a == 0x23 ) d.cpu.data[0x25] ^= bit >= 0 ? v & 1u << bit : v; else plain( a, v, bit );
        std::uint8_t const now = d.cpu.data[0x25];
        if ( a != 0x23 && a != 0x24 && a != 0x25 ) bad = "writes register " + hex( a );
        if ( ( was ^ now ) & LED && d.cpu.data[0x24] & LED ) at.push_back( d.cpu.steps );
        io.trace.clear();
    };
    d.cpu.limit = 100000000;
    d.cpu.start( d.image.at( "main" ) );
    std::uint64_t most = 200000; for ( auto t : took ) most += 3 * t + 1000;
    try { while ( bad.empty() && (int) at.size() < want + 1 && d.cpu.steps < most ) { d.cpu.step(); if ( d.cpu.pc == avr::Cpu::STOP ) bad = "stops"; } }
    catch ( avr::Fault const & e ) { c.fail( name + ": " + e.what() ); }
    PBT_CHECK( c, bad.empty(), name << ": " << bad );
    PBT_CHECK( c, (int) at.size() == want + 1, name << ": " << at.size() << " changes of the LED in " << d.cpu.steps << " instructions, an update takes about " << took.back() );
    PBT_CHECK( c, ( d.cpu.data[0x24] | LED ) == ( before[0x24] | LED ) && d.cpu.data[0x24] & LED, name << ": direction of the port changed from " << hex( before[0x24] ) << " to " << hex( d.cpu.data[0x24] ) );
    // the first change may be the initialisation
    for ( int i = 1; i < want; ++i )
    {
        std::uint64_t const p = at[i + 1] - at[i];
        PBT_LOG( c, " " << p << "/" << took[i] );
        PBT_CHECK( c, p * 2 >= took[i] && p <= took[i] * 2 + 400, name << ": period " << i << " of the LED takes " << p << " instructions, the update itself " << took[i] );
    }
    for ( auto n : names ) c.cls( n, name == n );
    c.nontriv( true );
}

Suite pbt::suite()
{
    return { "K06",
        "the estimator of time/avr-kalman-time.cpp, built for the desktop with updated and with fixed gain, on random models and histories (as K01), against the textbook step; and the program itself, in its eight settings, in the simulator with random port contents: one LED change per update, timed against the same update called by itself. Non-trivial: at least two updates with non-zero covariance or gain; every simulator run.",
        {
            { "updating double 1 measurement", 4, updating<double,1,1> },
            { "updating float 1 measurement", 2, updating<float,1,1> },
            { "updating double 2 measurements", 2, updating<double,2,2> },
            { "fixed gain double 1 measurement", 3, fixed_gain_update<double,1,1> },
            { "fixed gain float 2 measurements", 2, fixed_gain_update<float,2,1> },
            { "blinking", 1, blinking },
        },
        10000, 300000,
        { "gain updated", "gain fixed", "K06_du_O2", "K06_du_Os", "K06_df_O2", "K06_df_Os", "K06_fu_O2", "K06_fu_Os", "K06_ff_O2", "K06_ff_Os" } };
}
