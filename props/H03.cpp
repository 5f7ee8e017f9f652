// H03: designs are realised section by section, mirrored and scale-free.
// fuzz: quick=4000 thorough=80000
#include "fw/cheb_gen.hpp"

using namespace pbt;
using namespace ch;

template< typename C > bool same_sec( C const & co, std::size_t i, dsp::BiQuadT<typename C::value_type> const & s )
{
    auto a = s.coeff_a(); auto b = s.coeff_b();
    return b.b0 == co.b[i].b0 && b.b1 == co.b[i].b1 && b.b2 == co.b[i].b2 && a.a1 == co.a[i].a1 && a.a2 == co.a[i].a2;
}

// make_biquad_cascade keeps number, order and values; the cascade filters like the sections in series
template< typename T, int type >
void realised( Gen & g, Case & c )
{
    Spec<T,T,T> q( g, 16 );
    auto co = q.template design<type>();
    PBT_LOG( c, "type " << type << " " << q.str() << ": " << scoef( co ) << "\n" );
    auto cas = dsp::make_biquad_cascade<12>( co );
    PBT_CHECK( c, (std::size_t) cas.size() == co.b.size() && co.a.size() == co.b.size() && co.size() == co.b.size(), "cascade of " << cas.size() << " sections from " << co.b.size() << " coefficient sets" );
    std::vector<dsp::BiQuadT<T>> sep; std::vector<bq::Ref<T>> ref;
    int i = 0;
    for ( auto const & s : cas )
    {
        PBT_CHECK( c, same_sec( co, i, s ), "section " << i << " has other coefficients than the design" );
        PBT_CHECK( c, s.state().v1 == 0 && s.state().v2 == 0, "section " << i << " is not at rest" );
        bq::Sec<T> z; z.b0 = co.b[i].b0; z.b1 = co.b[i].b1; z.b2 = co.b[i].b2; z.a1 = co.a[i].a1; z.a2 = co.a[i].a2;
        sep.push_back( z.make() ); ref.push_back( bq::Ref<T>( z ) );
        ++i;
    }
    auto x = bq::gen_input<T>( g, 10, 60 );
    int k = 0;
    for ( auto v : x )
    {
        T got = step( cas, v ), in = v;
        for ( std::size_t j = 0; j < sep.size(); ++j )
        {
            T out = sep[j].step( in );
            ref[j].step( in );
            in = out;
        }
        if ( !( std::fabs( (double) in ) < 1e20 ) ) break;
        PBT_LOG( c, v << "->" << got << " " );
        // the last section's rounding bound covers a different but equivalent realisation of all sections
        L t = 0, gain = 1;
        for ( std::size_t j = sep.size(); j-- > 0; ) { t += gain * ref[j].tol(); gain *= ref[j].gain * ref[j].s.bsum(); }
        PBT_CHECK( c, std::fabs( (L) got - (L) in ) <= t, "sample " << k << ": cascade answers " << got << ", its sections in series " << in );
        ++k;
    }
    c.nontriv( sep.size() >= 2 && k >= 3 );
    c.cls( "four or more sections", sep.size() >= 4 ); c.cls( "realised", k >= 3 );
}

template< typename Q, typename P, typename CQ, typename CP, typename F >
void compare( Gen & g, Case & c, Q const & rq, P const & rp, CQ const & a, CP const & b, F map, std::string const & what )
{
    int dec = 0;
    for ( int i = 0; i < 12; ++i )
    {
        L f = i == 0 ? 0 : i == 1 ? 0.5L : (L) g.uniform( 0, 0.5 );
        L t1 = rq.htol( f ), t2 = rp.htol( map( f ) );
        if ( !rq.decided( t1 ) || !rp.decided( t2 ) ) continue;
        L h1 = std::abs( total( a, f ) ), h2 = std::abs( total( b, map( f ) ) );
        PBT_CHECK( c, std::fabs( h1 - h2 ) <= t1 + t2, what << ": magnitude " << (double) h1 << " at " << (double) f << ", " << (double) h2 << " at " << (double) map( f ) << " " << scoef( a ) << " and " << scoef( b ) );
        ++dec;
    }
    c.nontriv( dec >= 6 );
}

// the high-pass design for mirrored edges is the mirrored low-pass design
template< typename T, int type >
void mirrored( Gen & g, Case & c )
{
    Spec<T,T,T> q( g, sizeof( T ) == 4 ? 6 : 16 ), p( q );
    p.low = !q.low; p.fpass = q.fs / 2 - q.fpass; p.fstop = q.fs / 2 - q.fstop;
    auto rq = q.ref( type ), rp = p.ref( type );
    // what subtracting rounded away must not matter
    if ( std::fabs( rp.p.Wp / rq.p.Wp - 1 ) > 16 * std::numeric_limits<T>::epsilon() || std::fabs( rp.p.Ws / rq.p.Ws - 1 ) > 16 * std::numeric_limits<T>::epsilon() ) throw Discard();
    if ( rq.near_integer() ) throw Discard();
    auto a = q.template design<type>(); auto b = p.template design<type>();
    PBT_LOG( c, "type " << type << " " << q.str() << " and " << p.str() );
    PBT_CHECK( c, a.size() == b.size() && a.info.N == b.info.N, "orders differ: " << q.str() << " " << a.info.N << ", " << p.str() << " " << b.info.N );
    rq = q.ref( type, a.info.N ); rp = p.ref( type, b.info.N );
    compare( g, c, rq, rp, a, b, []( L f ) { return 0.5L - f; }, "design is not mirrored, " + q.str() + " and " + p.str() );
    c.cls( "mirrored" );
}

// only ratios of frequencies matter
template< typename T, int type >
void scaled( Gen & g, Case & c )
{
    Spec<T,T,T> q( g, sizeof( T ) == 4 ? 6 : 16 ), p( q );
    double k = g.coin() ? std::ldexp( 1.0, g.irange( -12, 12 ) ) : std::pow( 10.0, g.uniform( -3, 3 ) );
    p.fs = (T)( q.fs * k ); p.fpass = (T)( q.fpass * k ); p.fstop = (T)( q.fstop * k );
    if ( !( p.fstop < p.fs / 2 && p.fpass < p.fs / 2 ) ) throw Discard();
    auto rq = q.ref( type ), rp = p.ref( type );
    if ( rq.near_integer() ) throw Discard();
    auto a = q.template design<type>(); auto b = p.template design<type>();
    PBT_LOG( c, "type " << type << " " << q.str() << " scaled by " << k );
    PBT_CHECK( c, a.size() == b.size() && a.info.N == b.info.N, "orders differ: " << q.str() << " " << a.info.N << ", " << p.str() << " " << b.info.N );
    PBT_CHECK( c, std::fabs( (L) b.info.f3 / (L) a.info.f3 / (L) k - 1 ) < 1e-2L || a.info.f3 == 0 || rq.p.ep > 0.95L || rq.p.es < 1.05L, "3 dB frequency does not scale: " << a.info.f3 << " " << b.info.f3 );
    compare( g, c, rq, rp, a, b, []( L f ) { return f; }, "design depends on more than frequency ratios, " + q.str() + " and " + p.str() );
    c.cls( "scaled" );
}

// the same values in other types
template< typename S, typename F, typename A, int type >
void mixed( Gen & g, Case & c )
{
    using Sp = Spec<S,F,A>; using T = typename Sp::T;
    Sp q( g, 6 );
    auto a = q.template design<type>();
    auto b = [&] { if constexpr ( type == 1 ) return dsp::chebyshev1_lp_hp( q.kind(), (T) q.fs, (T) q.fpass, (T) q.fstop, (T) q.Apass, (T) q.Astop );
                   else return dsp::chebyshev2_lp_hp( q.kind(), (T) q.fs, (T) q.fpass, (T) q.fstop, (T) q.Apass, (T) q.Astop ); }();
    PBT_LOG( c, "type " << type << " " << q.str() );
    PBT_CHECK( c, ( std::is_same<typename decltype( a )::value_type,T>::value ), "type of the coefficients is not the common type" );
    auto r = q.ref( type );
    if ( r.near_integer() ) throw Discard();
    PBT_CHECK( c, a.size() == b.size(), "argument types change the number of sections: " << q.str() );
    compare( g, c, r, r, a, b, []( L f ) { return f; }, "argument types change the design, " + q.str() );
    c.cls( "mixed types" );
}

template< int type >
void subs( std::vector<Prop> & v, std::string n )
{
    v.push_back( { n + " realised double", 2, realised<double,type> } ); v.push_back( { n + " realised float", 1, realised<float,type> } );
    v.push_back( { n + " mirrored double", 2, mirrored<double,type> } ); v.push_back( { n + " mirrored float", 1, mirrored<float,type> } );
    v.push_back( { n + " scaled double", 2, scaled<double,type> } ); v.push_back( { n + " scaled float", 1, scaled<float,type> } );
    v.push_back( { n + " iii", 1, mixed<int,int,int,type> } ); v.push_back( { n + " iid", 1, mixed<int,int,double,type> } ); v.push_back( { n + " fdi", 1, mixed<float,double,int,type> } );
}

Suite pbt::suite()
{
    std::vector<Prop> v;
    subs<1>( v, "type 1" ); subs<2>( v, "type 2" );
    return { "H03",
        "Chebyshev specifications of order 1 to 16: the cascade made from a design against its coefficients and against its sections stepped in series; mirrored low-pass/high-pass pairs, scaled frequencies and mixed argument types compared at 12 frequencies. Non-trivial: two sections and three samples, or six comparisons decided within the rounding bound.",
        v, 60000, 1500000, { "realised", "four or more sections", "mirrored", "scaled", "mixed types" } };
}
