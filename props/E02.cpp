// E02: the desktop examples print what they compute, for any filter, design and noise.
// fuzz: quick=3000 thorough=60000
#include "fw/pbt.hpp"
#include "num/fixed-point-io.hpp"
#include "num/matrix-io.hpp"
#include "core/core.hpp"
#include "core/range.hpp"
#include "core/text.hpp"
#include "core/vector-io.hpp"
#include "dsp/kalman.hpp"
#include "dsp/kalman-io.hpp"
#include "dsp/filter-design.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-design.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/onepole-design.hpp"
#include <algorithm>
#include <complex>
#include <random>
#include <sstream>
#include <string>
#include <vector>

// the examples as they are, each in a namespace of its own
#define main main_() { body_(); return 0; } void body_     // a renamed main has to return a value
namespace ex_biquad {
void body_();
#include "../example/desktop/biquad.e.cpp"
}
namespace ex_cascade {
void body_();
#include "../example/desktop/biquad-cascade.e.cpp"
}
namespace ex_design {
void body_();
#include "../example/desktop/biquad-design.e.cpp"
}
#undef STRINGIFY
#undef STRINGIFY_
#undef BIQUAD_LPF
#undef BIQUAD_HPF
namespace ex_onepole {
void body_();
#include "../example/desktop/onepole.e.cpp"
}
namespace ex_onepole_design {
void body_();
#include "../example/desktop/onepole-design.e.cpp"
}
#undef STRINGIFY
#undef STRINGIFY_
namespace ex_cheby {
void body_();
#include "../example/desktop/chebyshev-design.e.cpp"
}
namespace ex_kalman {
void body_();
#include "../example/desktop/kalman-sim.e.cpp"
}
namespace ex_kalman_fixed {
void body_();
#define KE_NUMERIC_TYPE fp32_t
#include "../example/desktop/kalman-sim.e.cpp"
}
#undef main

using namespace pbt;
using L = long double;
using V = std::vector<L>;

struct Capture
{
    std::ostringstream os; std::streambuf * old;
    Capture() : old( std::cout.rdbuf( os.rdbuf() ) ) {}
    ~Capture() { std::cout.rdbuf( old ); }
};

template< typename F > std::string printed( F f ) { Capture c; f(); return c.os.str(); }

// the numbers of "name = [ ... ]", from a position on
V list( Case & c, std::string const & t, std::string const & name, std::size_t & pos )
{
    auto p = t.find( "\n" + name + " = [", pos );
    PBT_CHECK( c, p != std::string::npos, "there is no " << name << " in the text:\n" << t.substr( pos, 600 ) );
    p += name.size() + 5;
    auto e = t.find( ']', p );
    PBT_CHECK( c, e != std::string::npos, name << " does not end" );
    V v; std::string s = t.substr( p, e - p );
    for ( char const * q = s.c_str(); ; )
    {
        char * r; L x = std::strtold( q, &r );
        if ( r == q ) { while ( *q == ' ' ) ++q; PBT_CHECK( c, !*q, name << " contains " << q ); break; }
        v.push_back( x ); q = r;
    }
    pos = e;
    return v;
}

struct Section { L b0, b1, b2, a1, a2; };

// the magnitude of the response and its uncertainty in double precision
void magnitude( std::vector<Section> const & ss, L f, L eps, L & y, L & dy )
{
    using C = std::complex<L>;
    static L const pi = std::acos( -1.0L );
    C z = std::polar( 1.0L, -2 * pi * f ), h = 1;
    L rel = 0; bool zero = false;
    for ( auto & s : ss )
    {
        C n = s.b0 + z * ( s.b1 + z * s.b2 ), d = 1.0L + z * ( s.a1 + z * s.a2 );
        L un = eps * ( std::fabs( s.b0 ) + std::fabs( s.b1 ) + std::fabs( s.b2 ) ), ud = eps * ( 1 + std::fabs( s.a1 ) + std::fabs( s.a2 ) );
        un *= 16 * ( 1 + std::fabs( f ) ); ud *= 16 * ( 1 + std::fabs( f ) );
        h *= n / d;
        if ( std::abs( n ) < 8 * un || std::abs( d ) < 8 * ud ) zero = true; else rel += un / std::abs( n ) + ud / std::abs( d );
    }
    y = std::abs( h ); dy = zero ? -1 : y * ( rel + eps );
}

// the three lists of a response
int lists( Case & c, std::string const & t, std::size_t & pos, std::vector<double> const & fs, std::vector<Section> const & ss, L eps, std::string const & what )
{
    auto fn = list( c, t, "fn", pos ), y = list( c, t, "y", pos ), db = list( c, t, "ydbV", pos );
    PBT_CHECK( c, fn.size() == fs.size() && y.size() == fs.size() && db.size() == fs.size(), what << ": " << fs.size() << " frequencies give " << fn.size() << " frequencies, " << y.size() << " magnitudes and " << db.size() << " in dB" );
    int sure = 0;
    for ( std::size_t i = 0; i < fs.size(); ++i )
    {
        PBT_CHECK( c, std::fabs( fn[i] - fs[i] ) <= 5.1e-6L * std::fabs( fs[i] ), what << ": frequency " << i << " is " << (double) fn[i] << ", want " << fs[i] );
        L m, dm; magnitude( ss, fs[i], eps, m, dm );
        if ( dm < 0 || dm > 0.01L * m || m < 1e-290L ) continue;
        ++sure;
        PBT_CHECK( c, std::fabs( y[i] - m ) <= 5.1e-6L * m + dm, what << ": magnitude at " << fs[i] << " is " << (double) y[i] << ", want " << (double) m );
        L w = 20 * std::log10( m );
        PBT_CHECK( c, std::fabs( db[i] - w ) <= 5.1e-6L * std::fabs( w ) + 9 * dm / m + 1e-6L * ( eps > 1e-10L ) + 1e-13L, what << ": " << (double) m << " at " << fs[i] << " is " << (double) db[i] << " dB, want " << (double) w );
    }
    return sure;
}

std::vector<double> frequencies( Gen & g )
{
    std::vector<double> f; int n = 0;
    if ( g.coin() ) { int k = g.irange( 2, 101 ); double step = 0.5 / ( k - 1 ); for ( double x : core::range( 0.0, 0.5 + step, step ) ) f.push_back( x ); }
    else while ( g.more( 12, n, 80 ) ) f.push_back( g.coin() ? g.uniform( 0, 0.5 ) : g.uniform( -2, 2 ) );
    return f;
}

// both ways of giving frequencies: as they are or as a range
template< typename F >
std::string with_range( Gen & g, std::vector<double> & fs, F f )
{
    if ( g.coin() )
    {
        int k = g.irange( 2, 101 ); double step = 0.5 / ( k - 1 );
        auto r = core::range( 0.0, 0.5 + step, step );
        fs.clear(); for ( double x : r ) fs.push_back( x );
        return printed( [&]{ f( r ); } );
    }
    fs = frequencies( g );
    return printed( [&]{ f( fs ); } );
}

Section section( Gen & g )
{
    auto v = [&]( double m ) { return g.chance( 1, 8 ) ? 0.0 : g.uniform( -m, m ); };
    L a2 = v( 0.95 ), a1 = v( 0.98 ) * ( 1 + a2 );
    Section s{ (L) v( 2 ), (L) v( 2 ), (L) v( 2 ), (L)(double) a1, a2 };
    if ( g.chance( 1, 4 ) ) { s.b2 = s.b0; }
    return s;
}

void has( Case & c, std::string const & t, std::string const & s, std::size_t & pos, std::string const & what )
{
    auto p = t.find( s, pos );
    PBT_CHECK( c, p != std::string::npos, what << ": \"" << s << "\" is missing from the text:\n" << t.substr( pos, 1500 ) );
    pos = p + s.size();
}

std::string name( Gen & g )
{
    static char const * const w[] = { "[b,a] = cheby1(6,3,0.4)", "x", "[b,a] = butter(2,0.1)", "OnePole{ { 0.05 }, { -0.95 } }", "f( g(h) ), k", "" };
    return std::string( w[g.irange( 0, 5 )] ) + ( g.coin() ? std::to_string( g.irange( 0, 99 ) ) : "" );
}

template< typename A, typename B > std::vector<Section> sections( A const & a, B const & b ) { return { { (L) b.b0, (L) b.b1, (L) b.b2, (L) a.a1, (L) a.a2 } }; }

void biquad( Gen & g, Case & c )
{
    auto s = section( g ); auto n = name( g ), title = name( g );
    std::vector<double> fs;
    auto t = with_range( g, fs, [&]( auto r ) { ex_biquad::print( r, title.c_str(), n.c_str(), ex_biquad::BiQuad{ { (double) s.b0, (double) s.b1, (double) s.b2 }, { (double) s.a1, (double) s.a2 } } ); } );
    PBT_LOG( c, "biquad " << n << ", " << fs.size() << " frequencies" );
    std::size_t pos = 0;
    has( c, t, "\n" + title + " " + n + ":\n", pos, "biquad" );
    has( c, t, "BiQuad is stable", pos, "biquad" );
    int k = lists( c, t, pos, fs, { s }, 2e-16L, "biquad" );
    has( c, t, "\npkg load signal\n" + n + "\n", pos, "biquad" );
    c.nontriv( k > 1 ); c.cls( "biquad", k > 1 );
}

void cascade( Gen & g, Case & c )
{
    std::vector<Section> ss; int n = 0;
    dsp::BiQuadCascadeT<double,7> q;
    while ( g.more( 3, n, 7 ) ) { auto s = section( g ); ss.push_back( s ); q.append( ex_cascade::BiQuad{ { (double) s.b0, (double) s.b1, (double) s.b2 }, { (double) s.a1, (double) s.a2 } } ); }
    auto m = name( g ), title = name( g );
    std::vector<double> fs;
    auto t = with_range( g, fs, [&]( auto r ) { auto k = q; ex_cascade::print( r, title.c_str(), m.c_str(), std::move( k ) ); } );
    PBT_LOG( c, "cascade of " << ss.size() << ", " << fs.size() << " frequencies" );
    std::size_t pos = 0;
    has( c, t, "\n" + title + " " + m + ":\n", pos, "cascade" );
    has( c, t, std::to_string( ss.size() ) + " entries out of 7, stable:", pos, "cascade" );
    int k = lists( c, t, pos, fs, ss, 2e-16L, "cascade" );
    has( c, t, "\npkg load signal\n" + m + "\n", pos, "cascade" );
    c.nontriv( k > 1 && ss.size() > 1 ); c.cls( "cascade", k > 1 && ss.size() > 1 );
}

void onepole( Gen & g, Case & c )
{
    double b0 = g.uniform( -2, 2 ), a1 = g.uniform( -0.98, 0.98 ); auto n = name( g ), title = name( g );
    std::vector<double> fs;
    auto t = with_range( g, fs, [&]( auto r ) { ex_onepole::print( r, title.c_str(), n.c_str(), ex_onepole::OnePole{ { b0 }, { a1 } } ); } );
    PBT_LOG( c, "one pole " << b0 << " " << a1 << ", " << fs.size() << " frequencies" );
    std::size_t pos = 0;
    has( c, t, "\n" + title + " " + n + ":\n", pos, "one pole" );
    int k = lists( c, t, pos, fs, { { b0, 0, 0, a1, 0 } }, 2e-16L, "one pole" );
    has( c, t, "\npkg load signal\n" + n + "\n", pos, "one pole" );
    c.nontriv( k > 1 ); c.cls( "one pole", k > 1 );
}

std::string shown( double v ) { std::ostringstream s; s << v; return s.str(); }

void designs( Gen & g, Case & c )
{
    using dsp::FilterResponse;
    int kind = g.irange( 0, 6 ); double f = g.irange( 1, 49 ), Q = g.irange( 1, 80 ) / 8.0, dB = g.irange( -24, 24 ) / 2.0; int fsmp = 100;
    static char const * const names[] = { "low_pass  ", "high_pass ", "low_shelf ", "high_shelf", "band_pass ", "band_stop ", "peak_band_eq" };
    std::string args = "( " + shown( dB ) + ", " + shown( f ) + ", 100, " + shown( Q ) + " )", text = std::string( "(dsp::biquad_design<FilterResponse::" ) + names[kind] + ">" + args + ")";
    std::string want = names[kind] + args;
    std::vector<double> fs; std::vector<Section> ss; int k = 0; std::size_t pos = 0;
    auto run = [&]( auto co )
    {
        auto t = with_range( g, fs, [&]( auto r ) { ex_design::print( r, "Bi-quad filter design", text.c_str(), co ); } );
        auto q = dsp::make_biquad( co );
        has( c, t, "\nBi-quad filter design '" + text + "':\n", pos, text );
        k = lists( c, t, pos, fs, sections( q.coeff_a(), q.coeff_b() ), 2e-16L, text );
        has( c, t, "\npkg load signal\n" + want + "\n", pos, text );
    };
    PBT_LOG( c, text );
    switch ( kind )
    {
    case 0: run( dsp::biquad_design<FilterResponse::low_pass>( dB, f, fsmp, Q ) ); break;
    case 1: run( dsp::biquad_design<FilterResponse::high_pass>( dB, f, fsmp, Q ) ); break;
    case 2: run( dsp::biquad_design<FilterResponse::low_shelf>( dB, f, fsmp, Q ) ); break;
    case 3: run( dsp::biquad_design<FilterResponse::high_shelf>( dB, f, fsmp, Q ) ); break;
    case 4: run( dsp::biquad_design<FilterResponse::band_pass>( dB, f, fsmp, Q ) ); break;
    case 5: run( dsp::biquad_design<FilterResponse::band_stop>( dB, f, fsmp, Q ) ); break;
    case 6: run( dsp::biquad_design<FilterResponse::peak_band_eq>( dB, f, fsmp, Q ) ); break;
    }
    c.nontriv( k > 1 ); c.cls( "biquad design", k > 1 );
}

void onepole_designs( Gen & g, Case & c )
{
    using dsp::FilterResponse;
    bool lo = g.coin(); double f = g.irange( 1, 490 ) / 10.0;
    std::string head = lo ? "low_pass  " : "high_pass ", args = "(  " + shown( f ) + ", 100 )", text = "(dsp::onepole_design<FilterResponse::" + head + ">" + args + ")", want = head + args;
    std::vector<double> fs; int k = 0; std::size_t pos = 0;
    auto run = [&]( auto co )
    {
        auto t = with_range( g, fs, [&]( auto r ) { ex_onepole_design::print( r, "design", text.c_str(), co ); } );
        auto q = dsp::make_onepole( co );
        has( c, t, "\ndesign '" + text + "':\n", pos, text );
        k = lists( c, t, pos, fs, { { (L) q.coeff_b().b0, 0, 0, (L) q.coeff_a().a1, 0 } }, 2e-16L, text );
        has( c, t, "\npkg load signal\n" + want + "\n", pos, text );
    };
    PBT_LOG( c, text );
    if ( lo ) run( dsp::onepole_design<FilterResponse::low_pass>( f, 100 ) ); else run( dsp::onepole_design<FilterResponse::high_pass>( f, 100 ) );
    c.nontriv( k > 1 ); c.cls( "one-pole design", k > 1 );
}

void chebyshev( Gen & g, Case & c )
{
    bool one = g.coin(), lo = g.coin(); double p = g.irange( 5, 35 ), st = p + g.irange( 3, 12 ), A = g.irange( 1, 12 ) / 4.0, B = g.irange( 5, 40 );
    if ( !lo ) std::swap( p, st );
    std::string args = ", 100, " + shown( p ) + ", " + shown( st ) + ", " + shown( A ) + ", " + shown( B ) + " )";
    std::string text = std::string( "dsp::chebyshev" ) + ( one ? "1" : "2" ) + "_lp_hp( dsp::FilterResponse::" + ( lo ? "low_pass" : "high_pass" ) + args;
    std::string want = std::string( "lhcheb" ) + ( one ? "1" : "2" ) + "( " + ( lo ? "1" : "-1" ) + args;
    auto r = lo ? dsp::FilterResponse::low_pass : dsp::FilterResponse::high_pass;
    auto co = one ? dsp::chebyshev1_lp_hp( r, 100, p, st, A, B ) : dsp::chebyshev2_lp_hp( r, 100, p, st, A, B );
    if ( co.a.size() > 7 ) throw Discard();
    PBT_LOG( c, text );
    std::vector<Section> ss;
    auto q = dsp::make_biquad_cascade<7>( co );
    for ( auto const & s : q ) ss.push_back( sections( s.coeff_a(), s.coeff_b() )[0] );
    std::vector<double> fs; std::size_t pos = 0;
    auto t = with_range( g, fs, [&]( auto rg ) { ex_cheby::print_pass( rg, "design", text.c_str(), co ); } );
    has( c, t, "\ndesign '" + text + "':\n", pos, text );
    int k = lists( c, t, pos, fs, ss, 2e-16L, text );
    // a recorded finding: of two occurrences of "dsp::" only the first is taken out, so that the command is not one of Octave
    auto left = want; left.insert( left.find( '(' ) + 2, "dsp::" );
    if ( t.find( "\n[A,B,P] = " + left + "\n", pos ) != std::string::npos ) c.finding( "chebyshev-command-namespace", text + " prints the Octave command " + left );
    else has( c, t, "\n[A,B,P] = " + want + "\n", pos, text );
    c.nontriv( k > 1 ); c.cls( "Chebyshev design", k > 1 );
}

// the simulation: 50 readings of one run
template< typename F >
void simulation( Gen & g, Case & c, F run, bool fixed )
{
    unsigned seed = (unsigned) g.draw( 0x7ffffffe ) + 1;
    PBT_LOG( c, ( fixed ? "fixed-point" : "double" ) << " simulation, seed " << seed );
    auto t = printed( [&]{ run( seed ); } );
    std::size_t pos = 0;
    auto get = [&]( char const * n ) { std::size_t p = pos; auto v = list( c, t, n, p ); PBT_CHECK( c, v.size() == 50, n << " has " << v.size() << " readings, want one for each of the 50 s" ); return v; };
    auto p = get( "pos" ), z = get( "posmeas" ), ph = get( "poshat" ), pk = get( "posgain" ), pc = get( "posecov" ), v = get( "vel" ), vh = get( "velhat" ), vk = get( "velgain" ), vc = get( "velecov" );
    L P00 = 0.01L, P01 = 0.02L, P11 = 0.04L, R = 100, q = fixed ? 1.0L / 65536 : 0;
    L lp = 0, lv = 0, lph = 0, lvh = 0, lpt = 0;
    auto tol = [&]( L x ) { return 5.1e-6L * std::fabs( x ); };
    for ( int k = 0; k < 50; ++k )
    {
        auto check = [&]( char const * n, L got, L want, L bound ) { PBT_CHECK( c, std::fabs( got - want ) <= bound, n << " after " << k + 1 << " s is " << (double) got << ", want " << (double) want << " +/- " << (double) bound << ", seed " << seed ); };
        // the simulated system: constant acceleration 1, noise of at most seven standard deviations
        check( "position", p[k], lp + lv + 0.5L, 0.7L + lpt + tol( p[k] ) + tol( lv ) + 4 * q );
        check( "velocity", v[k], lv + 1, 1.4L + tol( lv ) + tol( v[k] ) + 4 * q );
        check( "measured position", z[k], p[k], 70 + tol( p[k] ) + tol( z[k] ) );
        // one step of the estimator with the readings printed
        L xp = lph + lvh + 0.5L, xv = lvh + 1, in = z[k] - xp, e = tol( lph ) + tol( lvh ), ein = e + tol( z[k] );
        check( "estimated position", ph[k], xp + pk[k] * in, e + std::fabs( pk[k] ) * ein + tol( pk[k] ) * std::fabs( in ) + tol( ph[k] ) + 8 * q );
        check( "estimated velocity", vh[k], xv + vk[k] * in, tol( lvh ) + std::fabs( vk[k] ) * ein + tol( vk[k] ) * std::fabs( in ) + tol( vh[k] ) + 8 * q );
        // gain and covariance follow from the model alone
        L a = P00 + 2 * P01 + P11 + 0.01L, b = P01 + P11 + 0.02L, d = P11 + 0.04L, S = a + R, K0 = a / S, K1 = b / S;
        P00 = ( 1 - K0 ) * a; P01 = ( 1 - K0 ) * b; P11 = d - K1 * b;
        L f = fixed ? 0.03L : 1e-5L, o = fixed ? 2e-3L : 0;
        check( "position gain", pk[k], K0, f * K0 + o ); check( "velocity gain", vk[k], K1, f * K1 + o );
        check( "position covariance", pc[k], P00, f * P00 + o ); check( "covariance of position and velocity", vc[k], P01, f * P01 + o );
        lp = p[k]; lv = v[k]; lph = ph[k]; lvh = vh[k]; lpt = tol( lp );
    }
    bool spread = false; for ( int k = 0; k < 50; ++k ) spread |= std::fabs( z[k] - p[k] ) > 5;
    PBT_CHECK( c, spread, "measurement noise of 10 m leaves all measurements within 5 m, seed " << seed );
    c.nontriv(); c.cls( fixed ? "fixed-point simulation" : "simulation" );
}

void sim_double( Gen & g, Case & c ) { simulation( g, c, []( unsigned s ) { ex_kalman::generator.seed( s ); ex_kalman::main_(); }, false ); }
void sim_fixed( Gen & g, Case & c ) { simulation( g, c, []( unsigned s ) { ex_kalman_fixed::generator.seed( s ); ex_kalman_fixed::main_(); }, true ); }

// the examples as they are: all lists have the same length and agree with each other
void mains( Gen & g, Case & c )
{
    int which = g.irange( 0, 5 );
    int ( * const f[] )() = { ex_biquad::main_, ex_cascade::main_, ex_design::main_, ex_onepole::main_, ex_onepole_design::main_, ex_cheby::main_ };
    int const plots[] = { 2, 2, 10, 2, 2, 3 };
    auto t = printed( [&]{ f[which](); } );
    PBT_LOG( c, "example " << which << ": " << t.size() << " characters" );
    int n = 0; std::size_t pos = 0;
    while ( t.find( "\nfn = [", pos ) != std::string::npos )
    {
        auto fn = list( c, t, "fn", pos ), y = list( c, t, "y", pos ), db = list( c, t, "ydbV", pos );
        PBT_CHECK( c, fn.size() == y.size() && fn.size() == db.size() && fn.size() >= 99 && fn.size() <= 202, "example " << which << " plots " << fn.size() << " frequencies, " << y.size() << " magnitudes, " << db.size() << " in dB" );
        for ( std::size_t i = 0; i < y.size(); ++i )
        {
            PBT_CHECK( c, y[i] >= 0 && ( !i || fn[i] > fn[i - 1] ), "example " << which << ": response at " << (double) fn[i] << " is " << (double) y[i] );
            if ( y[i] > 1e-6L ) PBT_CHECK( c, std::fabs( db[i] - 20 * std::log10( y[i] ) ) <= 6e-5L + 5.1e-6L * std::fabs( db[i] ), "example " << which << ": " << (double) y[i] << " is " << (double) db[i] << " dB" );
        }
        ++n;
    }
    PBT_CHECK( c, n == plots[which], "example " << which << " makes " << n << " plots, want " << plots[which] );
    c.nontriv(); c.cls( "example as it is" );
}

Suite pbt::suite()
{
    return { "E02",
        "the desktop examples (example/desktop), compiled as they are, with generated sections, cascades, designs and lists of frequencies or ranges given to their printing functions, whose output is read back and compared with the response in long double; the simulation with generated seeds of its noise, whose readings are compared with one run of system and estimator; the programs as they are. Non-trivial: at least two magnitudes are away from a zero or pole (cascade: at least two sections); every simulation.",
        { { "biquad", 3, biquad }, { "cascade", 3, cascade }, { "one pole", 2, onepole }, { "biquad designs", 4, designs }, { "one-pole designs", 2, onepole_designs }, { "Chebyshev designs", 4, chebyshev },
          { "simulation", 3, sim_double }, { "fixed-point simulation", 3, sim_fixed }, { "examples", 1, mains } },
        20000, 600000, { "biquad", "cascade", "one pole", "biquad design", "one-pole design", "Chebyshev design", "simulation", "fixed-point simulation", "example as it is" } };
}
