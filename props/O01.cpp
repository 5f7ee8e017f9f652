// O01: a one-pole section computes its recursion and reports its response and pole.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"
#include "dsp/onepole.hpp"

using namespace pbt;
using bq::L; using bq::CL;

template< typename T >
struct Model
{
    T b0 = 0, a1 = 0;
    L y = 0, Y = 0, X = 0;
    long n = 0;
    L step( L x ) { y = (L) b0 * x - (L) a1 * y; Y = std::max( Y, std::fabs( y ) ); X = std::max( X, std::fabs( x ) ); ++n; return y; }
    L gain() const { return std::fabs( (L) a1 ) < 1 ? 1 / ( 1 - std::fabs( (L) a1 ) ) : 0; }
    L tol() const
    {
        L g = std::min<L>( gain() + n * ( std::fabs( (L) a1 ) >= 1 ), 1 + n );
        L eps = std::numeric_limits<T>::epsilon();
        return 4 * g * ( eps * ( std::fabs( (L) b0 ) * X + ( 1 + std::fabs( (L) a1 ) ) * Y ) + std::numeric_limits<T>::min() );
    }
};

template< typename T >
Model<T> gen_model( Gen & g )
{
    Model<T> m;
    switch ( g.draw( 4 ) )
    {
    case 0: m.a1 = 0; break;
    case 1: m.a1 = (T) g.uniform( -0.9, 0.9 ); break;
    case 2: m.a1 = (T) -g.uniform( 0.9, 0.999 ); break;
    case 3: m.a1 = (T) g.uniform( 0.9, 0.999 ); break;
    default: m.a1 = (T) g.real( -0.99, 0.99 ); break;
    }
    m.b0 = g.chance( 1, 4 ) ? T( 1 ) - std::fabs( m.a1 ) : (T) g.real( -3, 3 );
    return m;
}

template< typename T >
void history( Gen & g, Case & c )
{
    using P = dsp::OnePoleT<T>;
    struct Entry { P p; Model<T> m; };
    std::vector<Entry> pool;
    auto make = [&]
    {
        auto m = gen_model<T>( g );
        PBT_LOG( c, "new(b0=" << m.b0 << " a1=" << m.a1 << ") " );
        return Entry{ P( typename P::B{ m.b0 }, typename P::A{ m.a1 } ), m };
    };
    auto verify = [&]( Entry const & e, std::size_t i )
    {
        PBT_CHECK( c, e.p.coeff_a().a1 == e.m.a1 && e.p.coeff_b().b0 == e.m.b0, "coefficients of section " << i << " are b0=" << e.p.coeff_b().b0 << " a1=" << e.p.coeff_a().a1 << ", want b0=" << e.m.b0 << " a1=" << e.m.a1 );
        PBT_CHECK( c, std::fabs( (L) e.p.state().v1 - e.m.y ) <= e.m.tol(), "state of section " << i << " is " << e.p.state().v1 << ", its last output is " << (double) e.m.y );
    };
    pool.push_back( make() );
    int ops = 0, steps = 0, resets = 0, swaps = 0, copies = 0;
    do
    {
        std::size_t k = g.draw( pool.size() - 1 );
        switch ( g.draw( 11 ) )
        {
        case 8: pool[k].p.reset(); pool[k].m.y = 0; pool[k].m.Y = 0; pool[k].m.X = 0; pool[k].m.n = 0; PBT_CHECK( c, pool[k].p.state().v1 == 0, "not at rest after reset" ); PBT_LOG( c, "reset" << k << " " ); resets += steps > 0; break;
        case 9: if ( pool.size() < 4 ) { if ( g.coin() ) { Entry e = pool[k]; pool.push_back( e ); PBT_LOG( c, "copy" << k << " " ); ++copies; } else pool.push_back( make() ); } break;
        case 10: { std::size_t j = g.draw( pool.size() - 1 ); PBT_LOG( c, "swap" << j << k << " " ); pool[j].p.swap( pool[k].p ); std::swap( pool[j].m, pool[k].m ); swaps += j != k; } break;
        case 11: { std::size_t j = g.draw( pool.size() - 1 ); PBT_LOG( c, "assign" << j << k << " " ); Entry e = pool[k]; pool[j].p = e.p; pool[j].m = e.m; ++copies; } break;
        default:
            {
                T x = g.coin() ? (T) g.range( -5, 5 ) : (T) g.real( -50, 50 );
                T y = pool[k].p.step( x ); L w = pool[k].m.step( x );
                PBT_LOG( c, k << ":" << x << "->" << y << " " );
                PBT_CHECK( c, std::fabs( (L) y - w ) <= pool[k].m.tol(), "section " << k << " answers " << y << ", want " << (double) w << " (bound " << (double) pool[k].m.tol() << ")" );
                PBT_CHECK( c, pool[k].p.state().v1 == y, "state " << pool[k].p.state().v1 << " is not the last output " << y );
                ++steps;
            }
        }
        for ( std::size_t i = 0; i < pool.size(); ++i ) verify( pool[i], i );
    } while ( g.more( 25, ops, 200 ) );
    // a default constructed section is silent
    if ( g.chance( 1, 10 ) ) { P p; PBT_CHECK( c, p.step( T( 3 ) ) == 0 && p.state().v1 == 0, "default section is not silent" ); }
    c.nontriv( steps >= 3 );
    c.cls( "reset", resets > 0 ); c.cls( "swap", swaps > 0 ); c.cls( "copy", copies > 0 );
}

template< typename T >
void spectrum( Gen & g, Case & c )
{
    using P = dsp::OnePoleT<T>;
    auto m = gen_model<T>( g );
    if ( std::fabs( m.a1 ) > 0.97 ) m.a1 = (T) std::copysign( 0.97, m.a1 );
    P const p( typename P::B{ m.b0 }, typename P::A{ m.a1 } );
    L eps = std::numeric_limits<T>::epsilon();
    auto pole = p.poles();
    PBT_LOG( c, "b0=" << m.b0 << " a1=" << m.a1 << " pole " << pole.s0.real() );
    PBT_CHECK( c, pole.s0.real() == -m.a1 && pole.s0.imag() == 0, "pole is " << bq::str( bq::cl( pole.s0 ) ) << ", want " << -m.a1 );
    // impulse response of the real section
    P q( p );
    std::vector<L> h; L sum = 0;
    int n = 0;
    for ( ; n < 3000; ++n )
    {
        T y = q.step( n == 0 ? T( 1 ) : T( 0 ) );
        h.push_back( y ); sum += std::fabs( (L) y );
        if ( std::fabs( (L) y ) < 1e-3L * eps * std::fabs( (L) m.b0 ) ) break;
    }
    T f = g.chance( 1, 5 ) ? T( 0 ) : g.chance( 1, 5 ) ? T( 0.5 ) : (T) g.uniform( -1.5, 1.5 );
    L w = 2 * 3.14159265358979323846264338327950288L * (L) f;
    CL F = 0;
    for ( std::size_t i = 0; i < h.size(); ++i ) F += h[i] * CL( std::cos( w * i ), -std::sin( w * i ) );
    CL z( std::cos( w ), -std::sin( w ) ), H = (L) m.b0 / ( CL( 1 ) + (L) m.a1 * z );
    CL R = bq::cl( response( p, f ) );
    L ad = std::abs( CL( 1 ) + (L) m.a1 * z ), t = ( 16 + 60 * std::fabs( (L) f ) ) * eps * ( std::fabs( (L) m.b0 ) + 2 * std::abs( H ) ) / ad;
    PBT_CHECK( c, std::abs( R - H ) <= t, "response at " << f << " is " << bq::str( R ) << ", transfer function " << bq::str( H ) );
    PBT_CHECK( c, std::abs( R - F ) <= t + 8 * eps * sum / ( 1 - std::fabs( (L) m.a1 ) ), "response at " << f << " is " << bq::str( R ) << ", Fourier transform of the impulse response " << bq::str( F ) );
    PBT_CHECK( c, p.state().v1 == 0 && p.coeff_a().a1 == m.a1 && p.coeff_b().b0 == m.b0, "observing changed the section" );
    PBT_CHECK( c, p.is_stable(), "pole " << -m.a1 << " inside the unit circle, reported unstable" );
    // stability
    T a = g.coin() ? (T) g.uniform( -3, 3 ) : (T)( g.coin() ? 1.0 : -1.0 ) + (T) g.real( -0.01, 0.01 );
    if ( std::fabs( (L) a ) != 1 )
        PBT_CHECK( c, P( typename P::B{ T( 1 ) }, typename P::A{ a } ).is_stable() == ( std::fabs( a ) < 1 ), "pole " << -a << " reported " << ( std::fabs( a ) < 1 ? "unstable" : "stable" ) );
    c.cls( "response", m.b0 != 0 ); c.cls( "negative frequency", f < 0 ); c.cls( "pole outside", std::fabs( a ) > 1 );
    c.nontriv( m.b0 != 0 && m.a1 != 0 );
}

// constructed from a pole and a gain (the zero is in the origin); samples of type T, coefficients of type S
template< typename T, typename S >
void zpk( Gen & g, Case & c )
{
    using P = dsp::OnePoleT<T,S>; using C = typename P::complex_t;
    using E = typename std::conditional< ( sizeof( T ) < sizeof( S ) ), T, S >::type;
    L eps = std::numeric_limits<E>::epsilon();
    T k = (T) g.real( -5, 5 ), r = g.chance( 1, 6 ) ? T( g.irange( -1, 1 ) ) : (T) g.real( -1.5, 1.5 );
    typename P::Solution z{}, p{ C( r ) };
    P s( z, p, k );
    PBT_LOG( c, "pole " << r << " gain " << k );
    PBT_CHECK( c, std::fabs( (L) s.coeff_b().b0 - k ) <= eps * std::fabs( (L) k ) && std::fabs( (L) s.coeff_a().a1 + r ) <= eps * std::fabs( (L) r ), "pole " << r << " gain " << k << " gives b0=" << s.coeff_b().b0 << " a1=" << s.coeff_a().a1 );
    auto back = s.poles(); auto zero = s.zeros();
    PBT_CHECK( c, back.s0.real() == -s.coeff_a().a1 && back.s0.imag() == 0, "pole " << r << " reads back as " << bq::str( bq::cl( back.s0 ) ) );
    PBT_CHECK( c, zero.s0.real() == 0 && zero.s0.imag() == 0, "the zero is not in the origin but " << bq::str( bq::cl( zero.s0 ) ) );
    if ( std::fabs( (L) r ) > 1 + 2 * eps || std::fabs( (L) r ) < 1 - 2 * eps || r == 1 || r == -1 ) PBT_CHECK( c, s.is_stable() == ( std::fabs( r ) <= 1 ), "pole " << r << " reported " << ( s.is_stable() ? "stable" : "unstable" ) );
    L a1 = s.coeff_a().a1, b0 = s.coeff_b().b0;
    T f = (T) g.uniform( -0.5, 0.5 );
    L w = 2 * 3.14159265358979323846264338327950288L * (L) f;
    CL d = CL( 1 ) + a1 * CL( std::cos( w ), -std::sin( w ) );
    if ( std::abs( d ) > 1e-2L )
    {
        CL R = bq::cl( response( s, f ) ), H = b0 / d;
        PBT_CHECK( c, std::abs( R - H ) <= 64 * eps * ( std::fabs( b0 ) + 2 * std::abs( H ) ) / std::abs( d ), "response at " << f << " is " << bq::str( R ) << ", want " << bq::str( H ) );
        c.cls( "response, separate types", sizeof( T ) != sizeof( S ) );
    }
    // dividing the coefficients
    S by = (S) g.pick( { 2.0, 0.5, 3.0, -7.0, 10.0 } );
    auto a = s.coeff_a() / by; auto b = s.coeff_b() / by;
    PBT_CHECK( c, std::fabs( (L) a.a1 - a1 / by ) <= eps * std::fabs( a1 ) && std::fabs( (L) b.b0 - b0 / by ) <= 2 * eps * std::fabs( b0 ), "coefficients divided by " << by << " are a1=" << a.a1 << " b0=" << b.b0 << " for a1=" << (double) a1 << " b0=" << (double) b0 );
    // its steps
    L y = 0;
    for ( int n = 0; n < 6; ++n )
    {
        T x = (T) g.range( -5, 5 );
        T got = s.step( x ); L want = b0 * x - a1 * y;
        PBT_CHECK( c, std::fabs( got - want ) <= 16 * eps * ( std::fabs( b0 * x ) + std::fabs( a1 * y ) ), "sample " << n << " is " << got << " want " << (double) want );
        y = got;
    }
    c.nontriv( k != 0 && r != 0 ); c.cls( "pole and gain", k != 0 && r != 0 );
}

Suite pbt::suite()
{
    return { "O01",
        "pools of one-pole sections driven by random steps, resets, copies, assignments and swaps against a long-double recursion per section; response against transfer function and the Fourier transform of the stepped impulse response; pole and stability. Non-trivial: at least three steps, or neither coefficient zero.",
        { { "history double", 2, history<double> }, { "history float", 1, history<float> }, { "spectrum double", 2, spectrum<double> }, { "spectrum float", 1, spectrum<float> }, { "pole and gain double", 1, zpk<double,double> }, { "pole and gain float", 1, zpk<float,float> }, { "pole and gain float, coefficients double", 1, zpk<float,double> }, { "pole and gain double, coefficients float", 1, zpk<double,float> } },
        100000, 3000000, { "reset", "swap", "copy", "response", "negative frequency", "pole outside", "pole and gain", "response, separate types" } };
}
