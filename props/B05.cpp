// B05: fixed-point filter sections follow the difference equation within their resolution.
// fuzz: quick=10000 thorough=200000
#include "fw/biquad_gen.hpp"
#include "fw/fixed_gen.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"

using namespace pbt;
using namespace bq;

// error bound of a section on the desktop and the microcontroller: products are rounded down by less than one unit, sums are exact
struct Model
{
    Ref<double> r; bool whole; L unit; int how;
    Model( Sec<double> const & s, L u, int h ) : r( s ), whole( true ), unit( u ), how( h )
    {
        for ( double v : { s.b0, s.b1, s.b2, s.a1, s.a2 } ) whole = whole && v == std::floor( v );
    }
    // own error; realisations: 0 direct form 2, 1 transposed, 2 one-pole
    L own() const { return whole ? 0 : how == 0 ? ( r.s.bsum() * 2 * r.gain + 3 ) * unit : how == 1 ? 5 * r.gain * unit : 2 * r.gain * unit; }
    L through( L e ) const { return e * r.gain * r.s.bsum() + own(); }
    // largest intermediate value of any realisation, error included
    L peak() const { auto & s = r.s; return ( 1 + s.bsum() ) * ( r.X + s.asum() * r.W ) + s.asum() * ( s.bsum() * r.X + s.asum() * r.Y ) + r.X + r.W + r.Y + ( 1 + s.asum() + s.bsum() ) * ( own() + 2 * unit * r.gain ); }
};

template< typename Fx >
Fx gen_sections( Gen & g, Case & c, std::vector<Sec<double>> & s, std::vector<std::vector<Fx>> & k, std::size_t n, int kind )
{
    using M = fx::Fmt<Fx>;
    L const unit = std::ldexp( 1.0L, -M::F ), top = M::hi * unit;
    for ( std::size_t i = 0; i < n; ++i )
    {
        Sec<double> e = gen_stable<double>( g, g.pick( { 0.5, 0.9, 0.98 } ) );
        if ( g.chance( 1, 6 ) ) { e.b0 = g.irange( -2, 2 ); e.b1 = g.irange( -2, 2 ); e.b2 = g.irange( -2, 2 ); e.a1 = g.irange( -1, 1 ); e.a2 = g.irange( -1, 1 ); }
        if ( g.chance( 1, 3 ) ) { e.b0 *= 0.25; e.b1 *= 0.25; e.b2 *= 0.25; }
        if ( kind == 2 ) { if ( std::fabs( e.a1 ) > 1 ) e.a1 /= 2; e.b1 = e.b2 = e.a2 = 0; }
        std::vector<Fx> q;
        for ( double * v : { &e.b0, &e.b1, &e.b2, &e.a1, &e.a2 } )
        {
            L raw = std::floor( *v / unit + 0.5L );
            if ( raw > M::hi || raw < M::lo ) throw Discard();
            q.push_back( fx::make<Fx>( (std::int64_t) raw ) );
            *v = (double)( raw * unit );
        }
        s.push_back( e ); k.push_back( q );
        PBT_LOG( c, e.str() << " " );
    }
    (void) top;
    return Fx{};
}

template< typename Fx >
void format( Gen & g, Case & c )
{
    using M = fx::Fmt<Fx>;
    using Q = dsp::BiQuadT<Fx>; using O = dsp::OnePoleT<Fx>; using K = dsp::BiQuadCascadeT<Fx,3>;
    L const unit = std::ldexp( 1.0L, -M::F ), top = M::hi * unit;
    int const kind = (int) g.draw( 2 );               // section, cascade, one-pole
    int const how = (int) g.draw( 2 );                // step, step_df2, step_df2_transposed
    std::vector<Sec<double>> s; std::vector<std::vector<Fx>> k;
    PBT_LOG( c, M::name() << " kind " << kind << " realisation " << how << " " );
    gen_sections<Fx>( g, c, s, k, kind == 1 ? 1 + g.draw( 2 ) : 1, kind );
    std::vector<Model> m;
    for ( auto & e : s ) m.emplace_back( e, unit, kind == 2 ? 2 : how == 2 ? 1 : 0 );
    Q q; O o; K cas;
    auto make = [&]( std::vector<Fx> const & v ) { return Q( typename Q::B{ v[0], v[1], v[2] }, typename Q::A{ v[3], v[4] } ); };
    if ( kind == 0 ) q = make( k[0] );
    if ( kind == 1 ) for ( auto & v : k ) cas.append( make( v ) );
    if ( kind == 2 ) o = O( typename O::B{ k[0][0] }, typename O::A{ k[0][3] } );
    double lim = (double) top * g.pick( { 0.001, 0.02, 0.1, 0.3 } );
    int n = 0, live = 0, resets = 0; L worst = 0; bool exact = true; Fx last{};
    while ( g.more( g.chance( 1, 10 ) ? 200 : 20, n, 1000 ) )
    {
        if ( g.chance( 1, 40 ) )
        {
            if ( kind == 0 ) q.reset(); if ( kind == 1 ) reset( cas ); if ( kind == 2 ) o.reset();
            for ( auto & e : m ) e.r = Ref<double>( e.r.s );
            ++resets; PBT_LOG( c, "reset " );
        }
        L raw = 0;
        switch ( g.draw( 3 ) ) { case 0: break; case 1: raw = std::floor( std::min( (L) 1, top / 8 ) / unit ); break; case 2: raw = last.underlying_value(); break; default: raw = std::floor( g.uniform( -lim, lim ) / unit ); }
        Fx x = last = fx::make<Fx>( (std::int64_t) raw );
        L v = raw * unit, e = 0; exact = true;
        bool stop = false;
        for ( auto & f : m ) { v = f.r.step( v ); e = f.through( e ); exact = exact && f.whole; if ( f.r.wild() || f.peak() + e * ( 1 + f.r.s.bsum() + f.r.s.asum() ) >= 0.95L * top ) { stop = true; break; } }
        if ( stop ) { c.cls( "next sample may leave the range: stopped" ); break; }
        Fx y = kind == 2 ? Fx( o.step( x ) )
             : kind == 1 ? Fx( how == 0 ? step( cas, x ) : how == 1 ? step_df2( cas, x ) : step_df2_transposed( cas, x ) )
             : Fx( how == 0 ? q.step( x ) : how == 1 ? q.step_df2( x ) : q.step_df2_transposed( x ) );
        L got = y.underlying_value() * unit;
        PBT_LOG( c, (double)( raw * unit ) << "->" << (double) got << " " );
        PBT_CHECK( c, std::fabs( got - v ) <= e, M::name() << ( kind == 0 ? " section" : kind == 1 ? " cascade" : " one-pole section" ) << ", realisation " << how << ": sample " << n << " is " << (double) got << " want " << (double) v << " +/- " << (double) e << " for " << s[0].str() );
        worst = std::max( worst, e ); ++n; live += std::fabs( v ) > 4 * e && v != 0;
    }
    auto same = [&]( Q const & b, std::vector<Fx> const & v ) { auto cb = b.coeff_b(); auto ca = b.coeff_a(); return cb.b0 == v[0] && cb.b1 == v[1] && cb.b2 == v[2] && ca.a1 == v[3] && ca.a2 == v[4]; };
    if ( kind == 0 ) PBT_CHECK( c, same( q, k[0] ), "coefficients changed while stepping" );
    if ( kind == 2 ) PBT_CHECK( c, o.coeff_b().b0 == k[0][0] && o.coeff_a().a1 == k[0][3], "coefficients of the one-pole section changed while stepping" );
    if ( kind == 1 ) for ( std::size_t i = 0; i < k.size(); ++i ) PBT_CHECK( c, cas.coeff_b( (int) i ).b0 == k[i][0] && cas.coeff_a( (int) i ).a2 == k[i][4], "coefficients of the cascade changed while stepping" );
    c.nontriv( live >= 3 );
    c.cls( "8-bit", sizeof( typename M::rep ) == 1 && live >= 3 ); c.cls( "16-bit", sizeof( typename M::rep ) == 2 && live >= 3 ); c.cls( "32-bit", sizeof( typename M::rep ) == 4 && live >= 3 );
    c.cls( "section", kind == 0 ); c.cls( "cascade of two or more", kind == 1 && k.size() > 1 ); c.cls( "one-pole", kind == 2 ); c.cls( "transposed", how == 2 && kind < 2 );
    c.cls( "whole coefficients: exact", exact && n > 2 ); c.cls( "100 or more samples", n >= 100 ); c.cls( "reset", resets > 0 );
}

void sections( Gen & g, Case & c ) { fx::formats( g, [&]( auto f ) { format<decltype( f )>( g, c ); } ); }
void usual( Gen & g, Case & c ) { switch ( g.draw( 3 ) ) { case 0: format<num::fixed_point<std::int32_t,15>>( g, c ); break; case 1: format<num::fixed_point<std::int32_t,11>>( g, c ); break; case 2: format<num::fixed_point<std::int16_t,5>>( g, c ); break; default: format<num::fixed_point<std::int32_t,8>>( g, c ); } }

Suite pbt::suite()
{
    return { "B05",
        "random sections, cascades of up to 3 sections and one-pole sections in 23 fixed-point formats of 8, 16 and 32 bits, stepped in each realisation over random inputs with resets in between; every output within the bound that rounding each product down by one unit allows, computed from the impulse response of the recursive part in long double (exactly equal when all coefficients are whole numbers); a case ends before an intermediate value could leave the range. Non-trivial: three outputs at least four times larger than the bound.",
        { { "all formats", 1, sections }, { "usual formats", 2, usual } },
        200000, 6000000, { "8-bit", "16-bit", "32-bit", "section", "cascade of two or more", "one-pole", "transposed", "whole coefficients: exact", "100 or more samples", "reset" } };
}
