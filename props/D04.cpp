// D04: filter objects and designs do not depend on units or argument types.
// fuzz: quick=8000 thorough=150000
#include "fw/design_gen.hpp"
#include "dsp/filter.hpp"

using namespace pbt;
using namespace ds;

// Lpf and Hpf against a reference filter with the design's coefficients
template< typename T, bool low >
void object( Gen & g, Case & c )
{
    Request<T,T,T,T> q( g, false );
    auto co = [&] { if constexpr ( low ) return q.template design<R::low_pass>(); else return q.template design<R::high_pass>(); }();
    Sec<T> s; s.b0 = co.b.b0; s.b1 = co.b.b1; s.b2 = co.b.b2; s.a1 = co.a.a1; s.a2 = co.a.a2;
    bq::Ref<T> ref( s ), other( s );
    using Fil = std::conditional_t<low,dsp::Lpf<T>,dsp::Hpf<T>>;
    Fil fil( q.f, q.fs, q.Q );
    Fil second( fil );                                     // an independent filter with its own history
    PBT_CHECK( c, fil.dbGain == T( 0 ), "dbGain is not 0" );
    PBT_LOG( c, q.str() << " " << s.str() << ": " );
    auto x = bq::gen_input<T>( g, 20, 200 );
    int k = 0;
    for ( auto v : x )
    {
        if ( g.chance( 1, 6 ) )
        {
            T y2 = second( v * T( 2 ) ); L w2 = other.step( v * T( 2 ) );
            if ( other.wild() ) break;
            PBT_CHECK( c, std::fabs( (L) y2 - w2 ) <= other.tol(), "second filter object answers " << y2 << ", want " << (double) w2 );
        }
        T y = fil( v );
        L w = ref.step( v );
        if ( ref.wild() ) break;
        PBT_LOG( c, v << "->" << y << " " );
        PBT_CHECK( c, std::fabs( (L) y - w ) <= ref.tol(), "sample " << k << ": filter object answers " << y << ", a section with its design " << (double) w << " (bound " << (double) ref.tol() << "), " << q.str() );
        ++k;
    }
    c.nontriv( k >= 3 );
    c.cls( low ? "Lpf" : "Hpf", k >= 3 );
}

inline bool close( std::array<L,5> const & a, std::array<L,5> const & b, std::array<L,5> const & t )
{
    for ( int i = 0; i < 5; ++i ) if ( !( std::fabs( a[i] - b[i] ) <= 2 * t[i] ) ) return false;
    return true;
}

// only f/fs matters
template< R r, typename T >
void scaled( Gen & g, Case & c )
{
    Request<T,T,T,T> q( g, true ), p( q );
    double k = g.coin() ? std::ldexp( 1.0, g.irange( -12, 12 ) ) : std::pow( 10.0, g.uniform( -3, 3 ) );
    p.f = (T)( q.f * k ); p.fs = (T)( q.fs * k );
    auto sp = q.template spec<r>();
    auto a = arr( q.template design<r>() ), b = arr( p.template design<r>() );
    PBT_LOG( c, q.str() << " scaled by " << k << ": " << sarr( a ) << " " << sarr( b ) );
    PBT_CHECK( c, close( a, b, sp.tol ), "design depends on more than f/fs: " << q.str() << " gives " << sarr( a ) << ", " << p.str() << " gives " << sarr( b ) );
    c.nontriv( k != 1 );
    c.cls( "scaled", k != 1 );
}

// the same values in other types
template< R r, typename D, typename F, typename S, typename U >
void mixed( Gen & g, Case & c )
{
    Request<D,F,S,U> q( g, true );
    using T = typename Request<D,F,S,U>::T;
    auto co = q.template design<r>();
    auto want = dsp::biquad_design<r>( (T) q.db, (T) q.f, (T) q.fs, (T) q.Q );
    PBT_CHECK( c, ( std::is_same<typename decltype( co )::value_type,T>::value ), "type of the coefficients is not the common type" );
    auto sp = q.template spec<r>();
    auto a = arr( co ), b = arr( want );
    PBT_LOG( c, q.str() << ": " << sarr( a ) << " " << sarr( b ) );
    PBT_CHECK( c, close( a, b, sp.tol ), "argument types change the design: " << q.str() << " gives " << sarr( a ) << ", in the common type " << sarr( b ) );
    c.nontriv();
    c.cls( "mixed types" );
}

template< R r >
void subs( std::vector<Prop> & v, std::string n )
{
    v.push_back( { n + " scaled double", 2, scaled<r,double> } );
    v.push_back( { n + " scaled float", 1, scaled<r,float> } );
    v.push_back( { n + " iiii", 1, mixed<r,int,int,int,int> } );
    v.push_back( { n + " iiid", 1, mixed<r,int,int,int,double> } );
    v.push_back( { n + " ifdf", 1, mixed<r,int,float,double,float> } );
    v.push_back( { n + " diii", 1, mixed<r,double,int,int,int> } );
    v.push_back( { n + " fiif", 1, mixed<r,float,int,int,float> } );
    v.push_back( { n + " long", 1, mixed<r,short,long,unsigned,double> } );
}

Suite pbt::suite()
{
    std::vector<Prop> v{ { "Lpf double", 12, object<double,true> }, { "Lpf float", 12, object<float,true> }, { "Hpf double", 12, object<double,false> }, { "Hpf float", 12, object<float,false> } };
    subs<R::low_pass>( v, "low-pass" ); subs<R::high_pass>( v, "high-pass" ); subs<R::band_pass>( v, "band-pass" ); subs<R::band_stop>( v, "band-stop" );
    subs<R::low_shelf>( v, "low shelf" ); subs<R::high_shelf>( v, "high shelf" ); subs<R::peak_band_eq>( v, "peak" );
    return { "D04",
        "Lpf/Hpf objects (two with separate histories) against a direct-form-1 filter with the coefficients of the corresponding design; designs with both frequencies scaled; designs with arguments of mixed types against the same values in their common type. Non-trivial: three or more samples, a scale other than one, or any type combination.",
        v, 600000, 10000000, { "Lpf", "Hpf", "scaled", "mixed types" } };
}
