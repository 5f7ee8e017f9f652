// Chebyshev specifications: generation, analog magnitude, reference sections and rounding bounds
#ifndef CHEB_GEN_HPP
#define CHEB_GEN_HPP
#include "fw/design_gen.hpp"
#include "dsp/chebyshev-design.hpp"

namespace ch {

using ds::L; using ds::CL; using ds::PI; using ds::R;
typedef std::array<L,5> Co;

inline L tcheb( int N, L x )
{
    L a = std::fabs( x );
    return a <= 1 ? std::cos( N * std::acos( a ) ) : std::cosh( N * std::acosh( a ) );
}

struct Parm { L Wp, Ws, ep, es; };

// reference sections from the poles and zeros of the analog filter; s = +1 low-pass, -1 high-pass
inline std::vector<Co> sections( int type, int N, L s, Parm const & p )
{
    std::vector<Co> v;
    L a = std::asinh( type == 1 ? 1 / p.ep : p.es ) / N;
    if ( N % 2 )
    {
        L w = type == 1 ? p.Wp * std::sinh( a ) : p.Ws / std::sinh( a );          // real pole at -w
        L G = w / ( w + 1 );
        v.push_back( { G, s * G, 0, s * ( w - 1 ) / ( w + 1 ), 0 } );
    }
    for ( int k = 1; k <= N / 2; ++k )
    {
        L t = PI * ( 2 * k - 1 ) / ( 2 * N );
        CL q( -std::sinh( a ) * std::sin( t ), std::cosh( a ) * std::cos( t ) );  // pole of the unit type 1 filter
        CL pole = type == 1 ? p.Wp * q : p.Ws / q;
        L c1 = -2 * pole.real(), c0 = std::norm( pole );                          // S^2 + c1 S + c0
        L n2 = 0, n0 = c0;
        if ( type == 2 ) { L z = p.Ws / std::cos( t ); n2 = c0 / ( z * z ); }
        L D = 1 + c1 + c0;
        L g = type == 1 && N % 2 == 0 && k == 1 ? 1 / std::sqrt( 1 + p.ep * p.ep ) : 1;
        v.push_back( { g * ( n2 + n0 ) / D, g * s * 2 * ( n0 - n2 ) / D, g * ( n2 + n0 ) / D, s * 2 * ( c0 - 1 ) / D, ( 1 - c1 + c0 ) / D } );
    }
    return v;
}

template< typename T >
struct Ref
{
    int type, N; L s; Parm p; L Nex;
    std::vector<Co> sec, tol;
    Ref( int type_, bool low, L fs, L fpass, L fstop, L Apass, L Astop, int N_ = 0 )
    : type( type_ ), s( low ? 1 : -1 )
    {
        L xp = PI * fpass / fs, xs = PI * fstop / fs, eps = std::numeric_limits<T>::epsilon();
        p.Wp = low ? std::tan( xp ) : 1 / std::tan( xp ); p.Ws = low ? std::tan( xs ) : 1 / std::tan( xs );
        L gp = std::pow( 10.0L, Apass / 10 ), gs = std::pow( 10.0L, Astop / 10 );
        p.ep = std::sqrt( gp - 1 ); p.es = std::sqrt( gs - 1 );
        Nex = std::acosh( p.es / p.ep ) / std::acosh( p.Ws / p.Wp );
        N = N_ ? N_ : (int) std::ceil( Nex );
        if ( N < 1 || N > 200 ) return;
        sec = sections( type, N, s, p );
        tol.resize( sec.size() );
        for ( std::size_t i = 0; i < sec.size(); ++i )
            for ( int k = 0; k < 5; ++k ) tol[i][k] = 24 * eps * ( k < 3 ? std::max( std::fabs( sec[i][0] ), std::fabs( sec[i][1] ) ) : 2 ) + std::numeric_limits<T>::min();
        L d[4] = { eps * ( 8 + 4 * xp / ( std::sin( xp ) * std::cos( xp ) ) ), eps * ( 8 + 4 * xs / ( std::sin( xs ) * std::cos( xs ) ) ),
                   eps * ( 8 + ( 2 + 2 * Apass ) * gp / ( gp - 1 ) ), eps * ( 8 + ( 2 + 2 * Astop ) * gs / ( gs - 1 ) ) };
        for ( int q = 0; q < 4; ++q )
            for ( int sg : { -1, 1 } )
            {
                Parm u = p; L * m[] = { &u.Wp, &u.Ws, &u.ep, &u.es };
                *m[q] *= 1 + sg * d[q];
                auto w = sections( type, N, s, u );
                for ( std::size_t i = 0; i < sec.size(); ++i ) for ( int k = 0; k < 5; ++k ) tol[i][k] += std::fabs( w[i][k] - sec[i][k] );
            }
    }
    // rounding of the computed exact order
    L slack() const
    {
        L eps = std::numeric_limits<T>::epsilon(), gp = 1 + p.ep * p.ep, k = p.Ws / p.Wp, m = p.es / p.ep;
        return Nex * eps * ( 64 + 64 * gp / ( gp - 1 ) / std::acosh( m ) * m / std::sqrt( m * m - 1 ) + 400 / std::acosh( k ) * k / std::sqrt( k * k - 1 ) );
    }
    bool near_integer() const { return std::fabs( Nex - std::round( Nex ) ) <= slack(); }
    // magnitude of the analog filter at the warped frequency
    L mag( L f ) const
    {
        L w = PI * f, W = s > 0 ? std::sin( w ) / std::cos( w ) : std::cos( w ) / std::sin( w );
        if ( f >= 0.5L ) W = s > 0 ? 1e30L : 0;
        if ( f <= 0 ) W = s > 0 ? 0 : 1e30L;
        if ( type == 1 ) { L t = tcheb( N, W / p.Wp ) * p.ep; return 1 / std::sqrt( 1 + t * t ); }
        if ( W == 0 ) return 1;
        L t = tcheb( N, p.Ws / W );
        return std::fabs( t ) / std::sqrt( t * t + p.es * p.es );
    }
    CL H( L f ) const { CL h = 1; for ( auto & c : sec ) h *= ds::eval( c, f ); return h; }
    // error bound of the magnitude at f; < 0: cannot be decided
    L htol( L f, bool evaluated = false ) const
    {
        L eps = std::numeric_limits<T>::epsilon();
        std::vector<L> h, e;
        for ( std::size_t i = 0; i < sec.size(); ++i )
        {
            CL d; L m = std::abs( ds::eval( sec[i], f, &d ) ), ad = std::abs( d );
            L ta = tol[i][3] + tol[i][4], tb = tol[i][0] + tol[i][1] + tol[i][2];
            if ( evaluated )
            {
                L k = 12 * eps * ( 2 + 13 * std::fabs( f ) );
                ta += k * ( 1 + std::fabs( sec[i][3] ) + std::fabs( sec[i][4] ) ); tb += k * ( std::fabs( sec[i][0] ) + std::fabs( sec[i][1] ) + std::fabs( sec[i][2] ) );
            }
            if ( ta > 0.02L * ad ) return -1;
            h.push_back( m ); e.push_back( 1.1L * ( tb + ta * m ) / ad );
        }
        L t = 0;
        for ( std::size_t i = 0; i < sec.size(); ++i )
        {
            L q = e[i];
            for ( std::size_t j = 0; j < sec.size(); ++j ) if ( j != i ) q *= h[j] + e[j];
            t += q;
        }
        return t + 8 * eps * std::abs( H( f ) );
    }
    bool decided( L t ) const { return t >= 0 && t < 0.01L; }
};

// a specification
template< typename S, typename F, typename A >
struct Spec
{
    using T = std::common_type_t<float,S,F,A>;
    bool low; S fs; F fpass, fstop; A Apass, Astop;
    Spec( pbt::Gen & g, int maxN )
    {
        low = g.coin();
        // attenuations
        double ap, as;
        if ( std::is_integral<A>::value ) { ap = (double) g.range( 1, 6 ); as = ap + (double) g.range( 1, 60 ); }
        else
        {
            static const double up[] = { 1, 0.5, 0.1, 3, 0.05 };
            ap = g.coin() ? up[ g.draw( 4 ) ] : std::pow( 10.0, g.uniform( -2, 1 ) );
            as = g.coin() ? ap + g.uniform( 0.5, 20 ) : ap + g.uniform( 3, maxN > 16 ? 200 : 90 );
        }
        Apass = (A) ap; Astop = (A) as;
        // order and pass-band edge, then the stop-band edge that needs it
        double ep = std::sqrt( std::pow( 10.0, (double) Apass / 10 ) - 1 ), es = std::sqrt( std::pow( 10.0, (double) Astop / 10 ) - 1 );
        int N = g.chance( 1, 2 ) ? g.irange( 1, std::min( maxN, 6 ) ) : g.irange( 1, maxN );
        double Nex = N - g.uniform( 0.02, 0.98 );
        if ( Nex < 0.05 ) Nex = 0.05;
        double k = std::cosh( std::acosh( es / ep ) / Nex );
        double r = sizeof( T ) == 4 ? g.uniform( 0.05, 0.45 ) : g.chance( 1, 4 ) ? std::pow( 10.0, g.uniform( -3, -1 ) ) : g.uniform( 0.01, 0.49 );
        double W = std::tan( 3.14159265358979 * r ), q = std::atan( W * k ) / 3.14159265358979;
        if ( !( q < 0.495 ) ) { q = g.uniform( 0.3, 0.495 ); W = std::tan( 3.14159265358979 * q ) / k; r = std::atan( W ) / 3.14159265358979; }
        if ( !( r > 0.0005 ) ) throw pbt::Discard();
        if ( !low ) { r = 0.5 - r; q = 0.5 - q; }
        double n;
        if ( std::is_integral<S>::value || std::is_integral<F>::value ) n = (double) g.range( 50, 48000 );
        else { static const double usual[] = { 1, 2, 44100, 8000, 50 }; n = g.coin() ? usual[ g.draw( 4 ) ] : std::pow( 10.0, g.uniform( -3, 6 ) ); }
        fs = (S) n;
        double rn = r * (double) fs, qn = q * (double) fs;
        fpass = (F)( std::is_integral<F>::value ? std::round( rn ) : rn ); fstop = (F)( std::is_integral<F>::value ? std::round( qn ) : qn );
        L hi = 0.4995L * fs, lo = 0.0004L * fs;
        if ( !( fpass > lo && fstop > lo && fpass < hi && fstop < hi && ( low ? fpass < fstop : fpass > fstop ) ) ) throw pbt::Discard();
        Ref<T> t = ref( 1 );
        if ( !( t.Nex > 0 && t.Nex < maxN + 0.5 ) ) throw pbt::Discard();
    }
    Ref<T> ref( int type, int N = 0 ) const { return Ref<T>( type, low, (L) fs, (L) fpass, (L) fstop, (L) Apass, (L) Astop, N ); }
    R kind() const { return low ? R::low_pass : R::high_pass; }
    template< int type > auto design() const
    {
        if constexpr ( type == 1 ) return dsp::chebyshev1_lp_hp( kind(), fs, fpass, fstop, Apass, Astop );
        else return dsp::chebyshev2_lp_hp( kind(), fs, fpass, fstop, Apass, Astop );
    }
    std::string str() const { std::ostringstream os; os.precision( 17 ); os << ( low ? "low-pass" : "high-pass" ) << " fs=" << fs << " fpass=" << fpass << " fstop=" << fstop << " Apass=" << Apass << " Astop=" << Astop << ( sizeof( T ) == 4 ? " (float)" : " (double)" ); return os.str(); }
};

template< typename C > CL total( C const & c, L f )
{
    CL h = 1;
    for ( std::size_t i = 0; i < c.b.size(); ++i ) h *= ds::eval( Co{ (L) c.b[i].b0, (L) c.b[i].b1, (L) c.b[i].b2, (L) c.a[i].a1, (L) c.a[i].a2 }, f );
    return h;
}

template< typename C > std::string scoef( C const & c )
{
    std::ostringstream os; os.precision( 12 );
    for ( std::size_t i = 0; i < c.b.size(); ++i ) os << "[" << c.b[i].b0 << " " << c.b[i].b1 << " " << c.b[i].b2 << " / 1 " << c.a[i].a1 << " " << c.a[i].a2 << "]";
    return os.str();
}

// frequencies (of the sampling rate) in [a, b], ends included
inline std::vector<L> band( pbt::Gen & g, L a, L b, int grid )
{
    std::vector<L> v;
    for ( int i = 0; i <= grid; ++i ) v.push_back( a + ( b - a ) * i / grid );
    for ( int i = 0; i < 4; ++i ) v.push_back( a + ( b - a ) * g.unit() );
    return v;
}

// the design meets the specification, is stable and has the magnitude of the analog filter
template< int type, typename S, typename F, typename A >
void meets( pbt::Gen & g, pbt::Case & c, int maxN )
{
    using Sp = Spec<S,F,A>; using T = typename Sp::T;
    Sp q( g, maxN );
    auto ref = q.ref( type );
    auto co = q.template design<type>();
    static_assert( std::is_same<typename decltype( co )::value_type,T>::value, "common type" );
    PBT_LOG( c, "type " << type << " " << q.str() << ": order " << co.info.N << " " << scoef( co ) << "\n" );

    // smallest order, decided when the exact order is not within rounding of an integer
    int N = co.info.N;
    L eps = std::numeric_limits<T>::epsilon();
    L slack = ref.slack();
    bool edge = ref.near_integer();
    if ( edge )
    {
        PBT_CHECK( c, std::fabs( N - ref.Nex ) <= 1 + slack, "order " << N << " where " << (double) ref.Nex << " is needed: " << q.str() );
        if ( N != ref.N ) ref = q.ref( type, N );
    }
    else PBT_CHECK( c, N == ref.N, "order " << N << " where " << (double) ref.Nex << " is needed: " << q.str() );
    int degree = 0;
    for ( std::size_t i = 0; i < co.size(); ++i ) degree += co.a[i].a2 != 0 || co.b[i].b2 != 0 ? 2 : co.a[i].a1 != 0 || co.b[i].b1 != 0 ? 1 : 0;
    PBT_CHECK( c, degree == N, "the sections have degree " << degree << ", the order is " << N << ": " << q.str() << " " << scoef( co ) );

    auto cas = dsp::make_biquad_cascade<40>( co );
    // stability
    bool sure = true, vsure = true;
    for ( std::size_t i = 0; i < ref.sec.size(); ++i )
    {
        L margin = std::min( 1 - std::fabs( ref.sec[i][4] ), 1 + ref.sec[i][4] - std::fabs( ref.sec[i][3] ) );
        if ( !( margin > 4 * ( ref.tol[i][3] + ref.tol[i][4] ) ) ) sure = false;
        if ( !( margin * margin > 1e4L * eps ) ) vsure = false;
    }
    if ( sure ) for ( std::size_t i = 0; i < co.size(); ++i )
        PBT_CHECK( c, ds::jury( Co{ 0, 0, 0, (L) co.a[i].a1, (L) co.a[i].a2 } ), "unstable section " << i << ": " << q.str() << " " << scoef( co ) );
    if ( sure && vsure ) PBT_CHECK( c, is_stable( cas ), "design reported unstable: " << q.str() << " " << scoef( co ) );

    // bands
    L fp = (L) q.fpass / (L) q.fs, fst = (L) q.fstop / (L) q.fs;
    L least = std::pow( 10.0L, -(L) q.Apass / 20 ), most = std::pow( 10.0L, -(L) q.Astop / 20 );
    int dec = 0, ev = 0;
    auto look = [&]( L f, int where )
    {
        L t = ref.htol( f ), h = std::abs( total( co, f ) ), w = ref.mag( f );
        if ( ref.decided( t ) )
        {
            PBT_CHECK( c, std::fabs( h - w ) <= t, "magnitude at " << (double) f << " of the sampling rate is " << (double) h << ", the analog filter has " << (double) w << " (bound " << (double) t << "): " << q.str() << " " << scoef( co ) );
            if ( where == 1 ) PBT_CHECK( c, h >= least - t && h <= 1 + t, "pass-band magnitude " << (double) h << " at " << (double) f << " outside [" << (double) least << ", 1]: " << q.str() );
            if ( where == 2 ) PBT_CHECK( c, h <= most + t, "stop-band magnitude " << (double) h << " at " << (double) f << " above " << (double) most << ": " << q.str() );
            ++dec;
        }
        T fT = (T) f;
        t = ref.htol( (L) fT, true );
        if ( ref.decided( t ) )
        {
            h = std::abs( bq::cl( response( cas, fT ) ) ); w = ref.mag( (L) fT );
            PBT_CHECK( c, std::fabs( h - w ) <= t, "reported magnitude at " << fT << " is " << (double) h << ", the analog filter has " << (double) w << " (bound " << (double) t << "): " << q.str() );
            ++ev;
        }
    };
    for ( L f : q.low ? band( g, 0, fp, 16 ) : band( g, fp, 0.5L, 16 ) ) look( f, 1 );
    for ( L f : q.low ? band( g, fst, 0.5L, 16 ) : band( g, 0, fst, 16 ) ) look( f, 2 );
    for ( L f : band( g, std::min( fp, fst ), std::max( fp, fst ), 4 ) ) look( f, 0 );

    // 3 dB frequency (any of them when the ripple exceeds 3 dB)
    if ( type == 1 ? std::fabs( ref.p.ep - 1 ) > 0.05L : ref.p.es > 1.05L )
    {
        L f3 = (L) co.info.f3 / (L) q.fs, d = 1e4L * eps;
        if ( f3 > 0 && f3 < 0.4999L )
        {
            L h = ref.mag( f3 ), t = std::fabs( ref.mag( f3 * ( 1 + d ) ) - h ) + std::fabs( ref.mag( f3 * ( 1 - d ) ) - h ) + 100 * eps;
            if ( t < 0.05L ) { PBT_CHECK( c, std::fabs( h - std::sqrt( 0.5L ) ) <= t, "the magnitude at the reported 3 dB frequency is " << (double) h << ": f3=" << co.info.f3 << " " << q.str() ); c.cls( "3 dB frequency" ); c.cls( "3 dB frequency in the ripple", type == 1 && ref.p.ep > 1 ); }
        }
        else PBT_CHECK( c, q.low ? f3 > 0.499L : f3 < 0.0001L || f3 > 0.499L, "3 dB frequency " << co.info.f3 << " out of range: " << q.str() );
    }
    c.nontriv( dec >= 10 && N >= 2 );
    c.cls( "low-pass", q.low ); c.cls( "high-pass", !q.low ); c.cls( "odd order", N % 2 && N > 1 ); c.cls( "even order", N % 2 == 0 ); c.cls( "first order", N == 1 );
    c.cls( "high order", N > 8 ); c.cls( "very high order", N > 30 ); c.cls( "order within rounding of an integer", edge ); c.cls( "evaluated", ev >= 10 ); c.cls( "all frequencies decided", dec >= 51 );
}

} // namespace ch
#endif
