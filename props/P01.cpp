// P01: printed values are complete, ordered and readable back.
// fuzz: quick=10000 thorough=200000
#include "fw/fixed_gen.hpp"
#include "fw/biquad_gen.hpp"
#include "core/core-io.hpp"
#include "num/matrix-io.hpp"
#include "num/fixed-point-io.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/onepole.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/chebyshev-design.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include <iomanip>

using namespace pbt;
using L = long double;

// ---- the stream and what must not change about it

struct Stream
{
    std::ostringstream os; int prec; std::ios_base::fmtflags flags; char fill;
    explicit Stream( Gen & g )
    {
        prec = (int) g.range( 1, 17 ); os.precision( prec );
        switch ( g.draw( 5 ) ) { case 0: os << std::scientific; break; case 1: os << std::fixed; break; default: break; }
        if ( g.chance( 1, 6 ) ) os << std::showpos;
        if ( g.chance( 1, 6 ) ) os << std::uppercase;
        if ( g.chance( 1, 6 ) ) os << std::left;
        if ( g.chance( 1, 6 ) ) os.fill( '*' );
        flags = os.flags(); fill = os.fill();
    }
    bool fixed() const { return ( flags & std::ios_base::floatfield ) == std::ios_base::fixed; }
    bool scientific() const { return ( flags & std::ios_base::floatfield ) == std::ios_base::scientific; }
    L tol( L v ) const
    {
        L p10 = std::pow( 10.0L, fixed() ? -prec : scientific() ? -prec : 1 - prec );
        if ( fixed() ) return p10 * 0.5000001L + std::fabs( v ) * 1e-15L;
        return std::fabs( v ) * ( p10 * 0.5000001L + 1e-15L ) + 1e-300L;
    }
    std::string str() const { return os.str(); }
};

// print one value; the stream keeps its state, several outputs can be chained
template< typename V >
std::string print( Gen & g, Case & c, Stream & s, V const & v )
{
    std::ostream & r = ( s.os << v );
    PBT_CHECK( c, &r == &s.os, "printing returns another stream" );
    PBT_CHECK( c, s.os.good(), "printing leaves the stream in a failed state" );
    PBT_CHECK( c, s.os.precision() == s.prec && s.os.flags() == s.flags && s.os.fill() == s.fill, "printing changes the format of the stream: precision " << s.prec << " -> " << s.os.precision() << ", flags " << s.flags << " -> " << s.os.flags() );
    std::string t = s.str();
    bool twice = g.chance( 1, 4 );
    if ( twice ) { s.os << "|" << v << "|"; PBT_CHECK( c, s.str() == t + "|" + t + "|", "printing the same value again gives another text:\n" << s.str() ); }
    c.cls( "printed twice", twice );
    return t;
}

// ---- the numbers in a text, in order; digits inside words do not count

std::vector<L> numbers( std::string const & t )
{
    std::vector<L> v;
    for ( std::size_t i = 0; i < t.size(); )
    {
        unsigned char ch = t[i];
        if ( std::isalpha( ch ) && !( ch == 'n' || ch == 'i' || ch == 'N' || ch == 'I' ) ) { while ( i < t.size() && ( std::isalnum( (unsigned char) t[i] ) || t[i] == '_' ) ) ++i; continue; }
        char * e; L x = std::strtold( t.c_str() + i, &e );
        std::size_t n = e - ( t.c_str() + i );
        if ( n && !std::isspace( ch ) ) { v.push_back( x ); i += n; continue; }
        if ( std::isalpha( ch ) ) { while ( i < t.size() && ( std::isalnum( (unsigned char) t[i] ) || t[i] == '_' ) ) ++i; continue; }
        ++i;
    }
    return v;
}

void compare( Case & c, Stream const & s, std::vector<L> const & got, std::vector<L> const & want, char const * what, std::string const & text )
{
    PBT_CHECK( c, got.size() == want.size(), what << ": the text has " << got.size() << " numbers, want " << want.size() << ":\n" << text );
    for ( std::size_t i = 0; i < want.size(); ++i )
    {
        if ( std::isnan( want[i] ) || std::isinf( want[i] ) ) { PBT_CHECK( c, std::isnan( want[i] ) ? std::isnan( got[i] ) : got[i] == want[i], what << ": number " << i << " of the text is " << (double) got[i] << ", want " << (double) want[i] << ":\n" << text ); continue; }
        PBT_CHECK( c, std::fabs( got[i] - want[i] ) <= s.tol( want[i] ), what << ": number " << i << " of the text is " << (double) got[i] << ", want " << (double) want[i] << " to precision " << s.prec << ":\n" << text );
    }
}

template< typename T > T value( Gen & g )
{
    if ( std::is_integral<T>::value ) return g.coin() ? (T) g.range( std::is_signed<T>::value ? -99 : 0, 99 ) : (T) g.draw( ~0ULL );
    switch ( g.draw( 3 ) ) { case 0: return (T) g.range( -9, 9 ); case 1: return (T) g.uniform( -1, 1 ); case 2: return (T) std::ldexp( g.uniform( -1, 1 ), g.irange( -60, 60 ) ); default: return (T) g.real( -1e3, 1e3 ); }
}

// ---- vectors

template< typename T >
void vectors( Gen & g, Case & c )
{
    std::vector<T> v; int n = 0; while ( g.more( 6, n, 200 ) ) v.push_back( value<T>( g ) );
    if ( g.chance( 1, 6 ) ) v.clear();
    auto const v0 = v;
    Stream s( g ); auto t = print( g, c, s, v );
    PBT_LOG( c, "vector of " << v.size() << " at " << s.prec << ": " << t.substr( 0, 200 ) );
    PBT_CHECK( c, v == v0, "printing changes the vector" );
    compare( c, s, numbers( t ), std::vector<L>( v.begin(), v.end() ), "vector", t );
    c.nontriv( v.size() > 1 ); c.cls( "empty vector", v.empty() ); c.cls( "vector", v.size() > 1 );
}

void text_vectors( Gen & g, Case & c )
{
    std::vector<std::string> v; int n = 0; while ( g.more( 5, n, 60 ) ) { std::string w( 1, (char)( 'a' + g.draw( 25 ) ) ); w += std::to_string( g.range( 0, 99 ) ); v.push_back( w ); }
    Stream s( g ); auto t = print( g, c, s, v );
    PBT_LOG( c, t );
    std::string u = t; for ( auto & ch : u ) if ( ch == '[' || ch == ']' ) ch = ' ';
    std::istringstream is( u ); std::vector<std::string> w; std::string x; while ( is >> x ) w.push_back( x );
    PBT_CHECK( c, w == v, "vector of texts of " << v.size() << " prints as " << t );
    c.nontriv( v.size() > 1 );
}

template< typename X >
void fixed_vectors( Gen & g, Case & c )
{
    std::vector<X> v; std::vector<L> want; int n = 0; while ( g.more( 5, n, 60 ) ) { auto r = fx::gen_rep<X>( g ); v.push_back( fx::make<X>( r ) ); want.push_back( std::ldexp( (L) r, -fx::Fmt<X>::F ) ); }
    Stream s( g ); auto t = print( g, c, s, v );
    PBT_LOG( c, t.substr( 0, 200 ) );
    compare( c, s, numbers( t ), want, "vector of fixed-point", t );
    c.nontriv( v.size() > 1 );
}

// ---- fixed point

void fixed_point( Gen & g, Case & c )
{
    fx::formats( g, [&]( auto x )
    {
        using X = decltype( x );
        auto r = fx::gen_rep<X>( g ); L want = std::ldexp( (L) r, -fx::Fmt<X>::F );
        X const v = fx::make<X>( r );
        Stream s( g ); auto t = print( g, c, s, v );
        PBT_LOG( c, fx::Fmt<X>::name() << " rep " << +r << ": " << t );
        compare( c, s, numbers( t ), { want }, "fixed-point", t );
        if ( s.prec == 17 && !s.fixed() ) PBT_CHECK( c, numbers( t )[0] == want || (double) numbers( t )[0] == (double) want, "fixed-point does not read back: " << t );
        c.nontriv( r != 0 ); c.cls( "fixed-point", true ); c.cls( "fraction", want != std::floor( want ) ); c.cls( "narrow", sizeof( r ) == 1 );
    } );
}

// ---- matrices

template< typename T > struct Entry { static T make( Gen & g, L & want ) { T v = value<T>( g ); want = v; return v; } };
template< typename R, int I, int F > struct Entry< num::fixed_point<R,I,F> > { using X = num::fixed_point<R,I,F>; static X make( Gen & g, L & want ) { auto r = fx::gen_rep<X>( g ); want = std::ldexp( (L) r, -fx::Fmt<X>::F ); return fx::make<X>( r ); } };

template< typename T, int N, int M >
void matrices( Gen & g, Case & c )
{
    num::matrix<T,N,M> m; std::vector<L> want;
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) { L w; m( i, j ) = Entry<T>::make( g, w ); want.push_back( w ); }
    Stream s( g ); auto t = print( g, c, s, m );
    PBT_LOG( c, N << "x" << M << ": " << t );
    std::vector<std::string> lines; { std::istringstream is( t ); std::string l; while ( std::getline( is, l ) ) lines.push_back( l ); }
    PBT_CHECK( c, !t.empty() && t.back() == '\n' && (int) lines.size() == N, "a matrix of " << N << " rows prints " << lines.size() << " lines:\n" << t );
    for ( int i = 0; i < N; ++i ) compare( c, s, numbers( lines[i] ), std::vector<L>( want.begin() + i * M, want.begin() + ( i + 1 ) * M ), "matrix row", t );
    c.nontriv( N * M > 1 ); c.cls( "row vector", N == 1 && M > 1 ); c.cls( "column vector", M == 1 && N > 1 ); c.cls( "rectangular", N > 1 && M > 1 && N != M );
}

// ---- sections

template< typename T > void add( std::vector<L> & v, std::complex<T> z ) { v.push_back( z.real() ); v.push_back( z.imag() ); }

template< typename Q > void section_numbers( std::vector<L> & v, Q const & q )
{
    v.push_back( q.coeff_a().a1 ); v.push_back( q.coeff_a().a2 );
    v.push_back( q.coeff_b().b0 ); v.push_back( q.coeff_b().b1 ); v.push_back( q.coeff_b().b2 );
    v.push_back( q.state().v1 ); v.push_back( q.state().v2 );
    add( v, q.poles().s0 ); add( v, q.poles().s1 ); add( v, q.zeros().s0 ); add( v, q.zeros().s1 );
}

// text after the n-th occurrence of a word
std::size_t occurrences( std::string const & t, std::string const & w ) { std::size_t n = 0; for ( auto p = t.find( w ); p != std::string::npos; p = t.find( w, p + w.size() ) ) ++n; return n; }

bool says_stable( Case & c, std::string const & t )
{
    auto p = t.find( "stable" );
    PBT_CHECK( c, p != std::string::npos, "the text does not say whether the section is stable:\n" << t );
    return !( p >= 4 && t.substr( p - 4, 4 ) == "NOT " );
}
std::string after_stable( std::string const & t ) { return t.substr( t.find( "stable" ) + 6 ); }

template< typename T >
dsp::biquad::BiQuadT<T> biquad_with_state( Gen & g )
{
    auto s = bq::gen_any<T>( g ); if ( s.b0 == 0 ) s.b0 = 1;
    auto q = s.make();
    for ( int i = (int) g.range( 0, 5 ); i; --i ) q.step( (T) g.range( -9, 9 ) );
    return q;
}

template< typename T >
void biquads( Gen & g, Case & c )
{
    auto const q = biquad_with_state<T>( g );
    std::vector<L> want; section_numbers( want, q );
    Stream s( g ); auto t = print( g, c, s, q );
    PBT_LOG( c, t );
    PBT_CHECK( c, occurrences( t, "stable" ) == 1, "a section says " << occurrences( t, "stable" ) << " times whether it is stable:\n" << t );
    PBT_CHECK( c, says_stable( c, t ) == q.is_stable(), "the text of a section that is " << ( q.is_stable() ? "" : "not " ) << "stable says otherwise:\n" << t );
    compare( c, s, numbers( after_stable( t ) ), want, "section", t );
    // its parts
    Stream sa( g ); auto ta = print( g, c, sa, q.coeff_a() ); compare( c, sa, numbers( ta ), { want[0], want[1] }, "A", ta );
    Stream sb( g ); auto tb = print( g, c, sb, q.coeff_b() ); compare( c, sb, numbers( tb ), { want[2], want[3], want[4] }, "B", tb );
    Stream sw( g ); auto tw = print( g, c, sw, q.state() ); compare( c, sw, numbers( tw ), { want[5], want[6] }, "W", tw );
    Stream sp( g ); auto tp = print( g, c, sp, q.poles() ); compare( c, sp, numbers( tp ), { want[7], want[8], want[9], want[10] }, "poles", tp );
    Stream sba( g ); dsp::biquad::BAT<T> ba{ q.coeff_b(), q.coeff_a() }; auto tba = print( g, c, sba, ba ); compare( c, sba, numbers( tba ), { want[2], want[3], want[4], want[0], want[1] }, "BA", tba );
    c.nontriv( true ); c.cls( "stable section", q.is_stable() ); c.cls( "unstable section", !q.is_stable() ); c.cls( "section with state", want[5] != 0 && want[6] != 0 );
}

template< typename T >
void onepoles( Gen & g, Case & c )
{
    using P = dsp::OnePoleT<T>;
    T b0 = (T) g.real( -3, 3 ), a1 = g.coin() ? (T) g.uniform( -1, 1 ) : (T) g.real( -2, 2 );
    P q( typename P::B{ b0 }, typename P::A{ a1 } );
    for ( int i = (int) g.range( 0, 5 ); i; --i ) q.step( (T) g.range( -9, 9 ) );
    P const & k = q;
    std::vector<L> want = { a1, b0, k.state().v1 }; add( want, k.poles().s0 ); add( want, k.zeros().s0 );
    Stream s( g ); auto t = print( g, c, s, k );
    PBT_LOG( c, t );
    PBT_CHECK( c, says_stable( c, t ) == k.is_stable(), "the text of a one-pole section that is " << ( k.is_stable() ? "" : "not " ) << "stable says otherwise:\n" << t );
    compare( c, s, numbers( after_stable( t ) ), want, "one-pole section", t );
    Stream sba( g ); dsp::onepole::BAT<T> ba{ k.coeff_b(), k.coeff_a() }; auto tba = print( g, c, sba, ba ); compare( c, sba, numbers( tba ), { (L) b0, (L) a1 }, "BA", tba );
    c.nontriv( true ); c.cls( "one-pole", true ); c.cls( "unstable one-pole", !k.is_stable() );
}

template< typename T, int N >
void cascades( Gen & g, Case & c )
{
    dsp::BiQuadCascadeT<T,N> f; int n = (int) g.range( 0, N - 1 );
    for ( int i = 0; i < n; ++i ) f.append( biquad_with_state<T>( g ) );
    auto const & k = f;
    std::vector<L> want; for ( auto const & q : k ) section_numbers( want, q );
    Stream s( g ); auto t = print( g, c, s, k );
    PBT_LOG( c, t );
    PBT_CHECK( c, says_stable( c, t ) == is_stable( k ), "the text of a cascade that is " << ( is_stable( k ) ? "" : "not " ) << "stable says otherwise:\n" << t );
    PBT_CHECK( c, (int) occurrences( t, "stable" ) == n + 1, "a cascade of " << n << " sections says " << occurrences( t, "stable" ) << " times whether it or a section is stable:\n" << t );
    // section by section
    std::string rest = after_stable( t ); std::vector<L> got = numbers( rest );
    compare( c, s, got, want, "cascade", t );
    std::size_t p = 0; int i = 0;
    for ( auto const & q : k ) { p = rest.find( "stable", p ); bool says = !( p >= 4 && rest.substr( p - 4, 4 ) == "NOT " ); p += 6; PBT_CHECK( c, says == q.is_stable(), "the text of section " << i << " of a cascade does not say whether it is stable:\n" << t ); ++i; }
    // the header tells the number of sections
    auto head = numbers( t.substr( 0, t.find( "stable" ) ) );
    PBT_CHECK( c, std::find( head.begin(), head.end(), (L) n ) != head.end(), "the text of a cascade does not tell that it has " << n << " sections:\n" << t );
    PBT_CHECK( c, std::find( head.begin(), head.end(), (L) k.reserved() ) != head.end(), "the text of a cascade does not tell that it has room for " << k.reserved() << " sections:\n" << t );
    c.nontriv( n > 0 ); c.cls( "empty cascade", n == 0 ); c.cls( "long cascade", n > 2 );
    bool first = n > 1 && k.begin()->is_stable() && !is_stable( k ); c.cls( "partly stable cascade", first );
}

template< typename T >
void design_info( Gen & g, Case & c )
{
    dsp::chebyshev_design::AlgoInfoT<T> ai; std::vector<L> want;
    auto put = [&]( T & x ) { x = value<T>( g ); want.push_back( x ); };
    put( ai.Wpass ); put( ai.Wstop ); put( ai.epass ); put( ai.estop ); put( ai.Nex ); ai.N = (int) g.range( 0, 40 ); want.push_back( ai.N ); put( ai.f3 ); put( ai.a );
    Stream s( g ); auto t = print( g, c, s, ai );
    PBT_LOG( c, t );
    compare( c, s, numbers( t ), want, "design information", t );
    c.nontriv( true ); c.cls( "design information", true );
}

Suite pbt::suite()
{
    return { "P01",
        "vectors, matrices, fixed-point numbers of all widths, section coefficients, states and solutions, sections and cascades (stable and not, with state) and Chebyshev design information printed at precisions 1 to 17 in default, fixed and scientific notation; the numbers parsed from the text are compared with the values in order, the stream's format must not change and printing again gives the same text. Non-trivial: more than one number, or a value other than zero.",
        { { "vector<double>", 2, vectors<double> }, { "vector<float>", 1, vectors<float> }, { "vector<int>", 1, vectors<int> }, { "vector<unsigned long>", 1, vectors<unsigned long> }, { "vector<short>", 1, vectors<short> }, { "vector<string>", 1, text_vectors }, { "vector<fixed>", 1, fixed_vectors<num::fixed_point<std::int32_t,15>> },
          { "fixed-point", 4, fixed_point }, { "matrix double 2x2", 1, matrices<double,2,2> }, { "matrix double 3x2", 1, matrices<double,3,2> }, { "matrix float 1x4", 1, matrices<float,1,4> }, { "matrix int 4x1", 1, matrices<int,4,1> }, { "matrix fixed 2x3", 1, matrices<num::fixed_point<std::int32_t,15>,2,3> }, { "matrix double 1x1", 1, matrices<double,1,1> }, { "matrix short 5x3", 1, matrices<short,5,3> },
          { "biquad double", 3, biquads<double> }, { "biquad float", 1, biquads<float> }, { "one-pole double", 1, onepoles<double> }, { "one-pole float", 1, onepoles<float> }, { "cascade double", 2, cascades<double,5> }, { "cascade float", 1, cascades<float,12> }, { "design double", 1, design_info<double> }, { "design float", 1, design_info<float> } },
        60000, 1500000, { "printed twice", "empty vector", "vector", "fixed-point", "fraction", "narrow", "row vector", "column vector", "rectangular", "stable section", "unstable section", "section with state", "one-pole", "unstable one-pole", "empty cascade", "long cascade", "partly stable cascade", "design information" } };
}
