// A05: filter sections on the microcontroller filter as they do on the desktop.
// plain
// device: a05_O2 avr/A05.cpp -O2
// device: a05_Os avr/A05.cpp -Os
// fuzz: quick=4000 thorough=100000
#include "avr/A05_ops.hpp"
#include "fw/biquad_gen.hpp"
#include "fw/device.hpp"
#include "fw/fixed_as_real.hpp"

using namespace pbt;
using namespace bq;
using X = num::fixed_point<std::int32_t,15>;
using S5 = std::vector<Sec<float>>;

Device & device( bool small )
{
    static Device * d[2];
    if ( !d[small] ) d[small] = new Device( small ? "a05_Os" : "a05_O2" );
    return *d[small];
}

std::string str( S5 const & s ) { std::string r; for ( auto & e : s ) r += e.str() + " "; return r; }
void give( Device & d, S5 const & s )
{
    for ( std::size_t i = 0; i < s.size(); ++i ) { float k[] = { s[i].b0, s[i].b1, s[i].b2, s[i].a1, s[i].a2 }; for ( int j = 0; j < 5; ++j ) d.put<float>( "f_k", k[j], 5 * (int) i + j ); }
    d.put<std::uint8_t>( "m_sections", (std::uint8_t) s.size() );
}

// steps of float sections: the difference equation within rounding
void steps( Gen & g, Case & c )
{
    int const kind = (int) g.draw( 3 );
    Device & d = device( g.coin() );
    S5 s( kind == 1 ? 1 + g.draw( a05_max - 1 ) : 1 );
    for ( auto & e : s )
    {
        e = kind == 1 || g.chance( 3, 4 ) ? gen_stable<float>( g, 0.98 ) : gen_any<float>( g );
        if ( kind == 2 ) e.b1 = e.b2 = e.a2 = 0;
        if ( kind == 3 ) { e.b0 = (float) g.irange( -5, 5 ); e.b1 = (float) g.irange( -5, 5 ); e.b2 = (float) g.irange( -5, 5 ); e.a1 = (float) g.irange( -1, 1 ); e.a2 = (float) g.irange( -1, 1 ); }
    }
    std::uint8_t how = kind == 2 ? 0 : (std::uint8_t) g.draw( 2 );
    int const n = g.irange( 1, a05_len ), at = g.chance( 1, 3 ) ? g.irange( 0, n - 1 ) : -1;
    float x[a05_len];
    for ( int i = 0; i < n; ++i ) switch ( g.draw( 4 ) ) { case 0: x[i] = 0; break; case 1: x[i] = 1; break; case 2: x[i] = i ? x[i - 1] : -1; break; case 3: x[i] = (float) g.range( -100, 100 ); break; default: x[i] = (float) g.real( -50, 50 ); }
    PBT_LOG( c, d.name << " kind " << kind << " realisation " << (int) how << " reset before " << at << " " << str( s ) );
    d.reset(); give( d, s );
    for ( int i = 0; i < n; ++i ) d.put<float>( "f_x", x[i], i );
    for ( int i = 0; kind == 3 && i < 5; ++i ) d.put<std::int32_t>( "x_k", (std::int32_t) d.get<float>( "f_k", i ), i );
    d.put<std::uint8_t>( "m_n", (std::uint8_t) n ); d.put<std::uint8_t>( "m_how", how ); d.put<std::int8_t>( "m_at", (std::int8_t) at );
    d.call( c, "run", { { (std::uint64_t) kind, 1 } } );
    std::vector<Ref<float>> r; for ( auto & e : s ) r.emplace_back( e );
    L amp = 0; int live = 0;      // bound on the error of the input of a section
    for ( int i = 0; i < n; ++i )
    {
        if ( i == at ) { r.clear(); for ( auto & e : s ) r.emplace_back( e ); amp = 0; }
        L v = x[i], e = 0;
        for ( auto & q : r ) { v = q.step( v ); e = e * q.gain * q.s.bsum() + q.tol(); if ( q.wild() ) { c.cls( "grew out of range: stopped" ); c.nontriv( live >= 3 ); return; } }
        // errors of earlier samples enter as well
        amp = std::max( amp, e );
        if ( amp > 1e-2L * ( r.back().Y + r.back().X + 1e-30L ) ) { c.cls( "bound too wide: stopped" ); break; }
        float got = d.get<float>( "f_y", i );
        PBT_CHECK( c, std::fabs( got - v ) <= amp, d.name << ": kind " << kind << " realisation " << (int) how << ": sample " << i << " is " << got << " want " << (double) v << " +/- " << (double) amp << " for " << str( s ) );
        live += v != 0;
    }
    c.nontriv( live >= 3 );
    c.cls( "section", kind == 0 ); c.cls( "cascade of two or more", kind == 1 && s.size() > 1 ); c.cls( "one-pole section", kind == 2 ); c.cls( "integer coefficients", kind == 3 ); c.cls( "reset", at > 0 );
}

// the same fixed-point filter on both machines: the same bits
void fixed( Gen & g, Case & c )
{
    int const kind = (int) g.draw( 2 );
    Device & d = device( g.coin() );
    S5 s( kind == 1 ? 1 + g.draw( a05_max - 1 ) : 1 );
    for ( auto & e : s ) { e = gen_stable<float>( g, 0.95 ); if ( kind == 2 ) e.b1 = e.b2 = e.a2 = 0; }
    std::uint8_t how = kind == 2 ? 0 : (std::uint8_t) g.draw( 2 );
    int const n = g.irange( 1, a05_len ), at = g.chance( 1, 3 ) ? g.irange( 0, n - 1 ) : -1;
    X k[5 * a05_max], x[a05_len], y[a05_len], st[2 * a05_max];
    for ( auto & v : k ) v = X( 0 ); for ( auto & v : st ) v = X( 0 ); for ( auto & v : y ) v = X( 0 );
    std::vector<Ref<float>> r;
    for ( std::size_t i = 0; i < s.size(); ++i )
    {
        auto & e = s[i]; X * p = k + 5 * i;
        p[0] = X( e.b0 ); p[1] = X( e.b1 ); p[2] = X( e.b2 ); p[3] = X( e.a1 ); p[4] = X( e.a2 );
        r.emplace_back( e );
    }
    double lim = g.pick( { 0.01, 1.0, 30.0 } );
    L Z = 1;
    for ( int i = 0; i < n; ++i )
    {
        x[i] = X( g.uniform( -lim, lim ) );
        L v = x[i].as_double();
        for ( auto & q : r ) { v = q.step( v ); Z = std::max( Z, ( 1 + q.s.bsum() ) * ( q.X + q.s.asum() * q.W ) + q.s.asum() * ( q.s.bsum() * q.X + q.s.asum() * q.Y ) ); }
    }
    if ( Z > 12000 ) throw Discard();
    PBT_LOG( c, d.name << " fixed-point kind " << kind << " realisation " << (int) how << " reset before " << at << " " << str( s ) );
    switch ( kind ) { case 0: run_section<X>( k, how, at, n, x, y, st ); break; case 1: run_cascade<X>( k, (int) s.size(), how, at, n, x, y, st ); break; case 2: run_onepole<X>( k, at, n, x, y, st ); break; }
    d.reset();
    d.put<std::uint8_t>( "m_sections", (std::uint8_t) s.size() ); d.put<std::uint8_t>( "m_n", (std::uint8_t) n ); d.put<std::uint8_t>( "m_how", how ); d.put<std::int8_t>( "m_at", (std::int8_t) at );
    for ( int i = 0; i < 5 * a05_max; ++i ) d.put<std::int32_t>( "x_k", k[i].underlying_value(), i );
    for ( int i = 0; i < n; ++i ) d.put<std::int32_t>( "x_x", x[i].underlying_value(), i );
    d.call( c, "run_fixed", { { (std::uint64_t) kind, 1 } } );
    int live = 0;
    for ( int i = 0; i < n; ++i ) { auto got = d.get<std::int32_t>( "x_y", i ); PBT_CHECK( c, got == y[i].underlying_value(), d.name << ": fixed-point kind " << kind << " realisation " << (int) how << ": sample " << i << " is " << got << ", on the desktop " << y[i].underlying_value() << " for " << str( s ) ); live += got != 0; }
    for ( int i = 0; i < ( kind == 2 ? 1 : 2 * (int) s.size() ); ++i ) { auto got = d.get<std::int32_t>( "x_s", i ); PBT_CHECK( c, got == st[i].underlying_value(), d.name << ": fixed-point kind " << kind << " realisation " << (int) how << ": state " << i << " is " << got << ", on the desktop " << st[i].underlying_value() << " for " << str( s ) ); }
    c.nontriv( live >= 3 ); c.cls( "fixed point", true ); c.cls( "fixed-point cascade", kind == 1 && s.size() > 1 );
}

void roots( Case & c, CL u, CL v, L p, L q, char const * what, std::string const & of )
{
    L eps = std::numeric_limits<float>::epsilon(), m = std::fabs( p ) + std::sqrt( std::fabs( q ) );
    PBT_CHECK( c, std::abs( u + v + p ) <= 32 * eps * m + 1e-30L && std::abs( u * v - q ) <= 64 * eps * m * m + 1e-30L, what << " " << str( u ) << " and " << str( v ) << " do not solve x^2 + " << p << " x + " << q << " of " << of );
}

// response, poles, zeros, stability and zero-pole-gain construction of float sections
void observers( Gen & g, Case & c )
{
    int const kind = (int) g.draw( 3 );
    Device & d = device( g.coin() );
    auto z = [&]( int at ) { return CL( d.get<float>( "f_q", at ), d.get<float>( "f_q", at + 1 ) ); };
    d.reset();
    L const eps = std::numeric_limits<float>::epsilon();
    if ( kind == 3 )
    {
        float q[8]; L zp[2], zq[2], m[2];
        for ( int i = 0; i < 2; ++i )
        {
            float * p = q + 4 * i;
            if ( g.coin() ) { p[0] = (float) g.real( -1.5, 1.5 ); p[1] = (float) g.real( -1.5, 1.5 ); if ( p[1] == 0 ) p[1] = 0.5f; p[2] = p[0]; p[3] = -p[1]; zp[i] = -2 * (L) p[0]; zq[i] = (L) p[0] * p[0] + (L) p[1] * p[1]; }
            else { p[0] = (float) g.real( -1.5, 1.5 ); p[2] = (float) g.real( -1.5, 1.5 ); p[1] = p[3] = 0; zp[i] = -( (L) p[0] + p[2] ); zq[i] = (L) p[0] * p[2]; }
            m[i] = std::abs( CL( p[0], p[1] ) ) + std::abs( CL( p[2], p[3] ) );
        }
        float k = (float) g.real( -5, 5 ); if ( std::fabs( k ) < 1e-3f ) k = 1;
        for ( int i = 0; i < 8; ++i ) d.put<float>( "f_q", q[i], i );
        d.put<float>( "f_f", k );
        std::ostringstream os; os << d.name << " zeros"; for ( int i = 0; i < 4; ++i ) os << " " << q[i]; os << " poles"; for ( int i = 4; i < 8; ++i ) os << " " << q[i]; os << " gain " << k;
        PBT_LOG( c, os.str() );
        d.call( c, "query", { { 3, 1 } } );
        L want[5] = { k, k * zp[0], k * zq[0], zp[1], zq[1] }, scale[5] = { 0, std::fabs( k ) * m[0], std::fabs( k ) * m[0] * m[0], m[1], m[1] * m[1] };
        for ( int i = 0; i < 5; ++i ) { L got = d.get<float>( "f_q", 8 + i ); PBT_CHECK( c, std::fabs( got - want[i] ) <= 16 * eps * ( std::fabs( want[i] ) + scale[i] ) + 1e-35L, "coefficient " << i << " is " << (double) got << ", want " << (double) want[i] << ": " << os.str() ); }
        c.nontriv( m[0] > 0 && m[1] > 0 ); c.cls( "zero-pole-gain", true );
        return;
    }
    S5 s( kind == 1 ? 1 + g.draw( a05_max - 1 ) : 1 );
    for ( auto & e : s ) { e = gen_any<float>( g ); if ( g.chance( 1, 3 ) ) e = gen_stable<float>( g, 0.98 ); if ( kind == 2 ) e.b1 = e.b2 = e.a2 = 0; }
    float f = g.chance( 1, 5 ) ? g.pick( { 0.0f, 0.25f, 0.5f } ) : (float) g.uniform( -1, 1 );
    std::ostringstream os; os << d.name << " kind " << kind << " f=" << f << " " << str( s );
    PBT_LOG( c, os.str() );
    CL want = 1; L rel = 0;
    for ( auto & e : s ) { if ( !off_pole( e, f ) ) throw Discard(); CL t = transfer( e, f ); L tol = 2 * transfer_tol( e, f ); if ( std::abs( t ) < 100 * tol ) throw Discard(); want *= t; rel += 2 * tol / std::abs( t ) + 8 * eps; if ( std::abs( want ) > 1e15L || std::abs( want ) < 1e-15L ) throw Discard(); }
    give( d, s ); d.put<float>( "f_f", f );
    d.call( c, "query", { { (std::uint64_t) kind, 1 } } );
    PBT_CHECK( c, std::abs( z( 0 ) - want ) <= rel * std::abs( want ), "response is " << str( z( 0 ) ) << " want " << str( want ) << ": " << os.str() );
    L radius = 0, margin = 0;
    for ( auto & e : s )
    {
        L p = e.a1, q = e.a2, disc = p * p - 4 * q, sep = std::sqrt( std::fabs( disc ) ), dd = 64 * eps * ( 1 + p * p + std::fabs( q ) );
        L r = disc < 0 ? std::sqrt( q ) : ( std::fabs( p ) + std::sqrt( disc ) ) / 2;
        radius = std::max( radius, r ); margin = std::max( margin, sep > 0 ? std::min( std::sqrt( dd ), dd / sep ) : std::sqrt( dd ) );
    }
    if ( std::fabs( radius - 1 ) > 2 * margin )
    {
        PBT_CHECK( c, d.get<std::uint8_t>( "m_stable" ) == ( radius < 1 ), "largest pole radius " << (double) radius << ", reported " << ( d.get<std::uint8_t>( "m_stable" ) ? "stable" : "unstable" ) << ": " << os.str() );
        c.cls( "stable", radius < 1 ); c.cls( "unstable", radius > 1 );
    }
    if ( kind == 0 )
    {
        roots( c, z( 2 ), z( 4 ), s[0].a1, s[0].a2, "poles", os.str() );
        if ( std::fabs( s[0].b0 ) > 1e-3 ) roots( c, z( 6 ), z( 8 ), (L) s[0].b1 / s[0].b0, (L) s[0].b2 / s[0].b0, "zeros", os.str() );
    }
    if ( kind == 2 ) PBT_CHECK( c, z( 2 ) == CL( -(L) s[0].a1 ), "pole is " << str( z( 2 ) ) << ": " << os.str() );
    c.nontriv( f != 0 ); c.cls( "response of a cascade", kind == 1 && s.size() > 1 ); c.cls( "response of a one-pole section", kind == 2 );
}

Suite pbt::suite()
{
    return { "A05",
        "random sections, cascades of up to 3 and one-pole sections in float, 32-bit fixed point and with integer coefficients, compiled by avr-g++ and run in the simulator on up to 24 samples with and without a reset: float outputs against a long-double difference equation within a rounding bound, fixed-point outputs and states bit by bit against the desktop; response, poles, zeros, stability and zero-pole-gain construction against long double. Non-trivial: three non-zero outputs; frequency not zero.",
        { { "steps", 3, steps }, { "fixed point", 2, fixed }, { "observers", 2, observers } },
        60000, 1500000,
        { "section", "cascade of two or more", "one-pole section", "integer coefficients", "reset", "fixed point", "fixed-point cascade", "zero-pole-gain", "stable", "unstable", "response of a cascade", "response of a one-pole section" } };
}
