// T01: text helpers and numeric casts do what their names say.
// fuzz: quick=15000 thorough=300000
#include "fw/pbt.hpp"
#include "core/text.hpp"
#include "core/shims.hpp"

using namespace pbt;
typedef long double L;

std::string text( Gen & g, int avg, int alphabet )
{
    std::string s; int n = 0;
    while ( g.more( avg, n, 400 ) ) s += alphabet == 0 ? (char) g.range( 0, 255 ) : (char)( 'a' + g.draw( alphabet - 1 ) );
    return s;
}

std::string shown( std::string const & s )
{
    std::string r = "\""; char b[8];
    for ( unsigned char x : s ) { if ( x >= 32 && x < 127 ) r += (char) x; else { std::snprintf( b, sizeof b, "\\x%02x", x ); r += b; } }
    return r + "\"";
}

void lines( Gen & g, Case & c )
{
    int n = g.chance( 1, 6 ) ? 0 : g.chance( 1, 6 ) ? (int) g.range( 100, 5000 ) : (int) g.range( 1, 90 );
    bool dflt = g.coin();
    char ch = dflt ? '-' : (char) g.range( -128, 127 );
    auto const t = dflt ? core::line( n ) : core::line( n, ch );
    PBT_LOG( c, "line of " << n << " times " << (int) ch );
    PBT_CHECK( c, (int) t.size() == n, "line(" << n << ") has " << t.size() << " characters" );
    for ( int i = 0; i < n; ++i ) PBT_CHECK( c, t[i] == ch, "character " << i << " of line(" << n << ", " << (int) ch << ") is " << (int) t[i] );
    c.nontriv( n > 0 ); c.cls( "empty line", n == 0 ); c.cls( "default character", dflt );
}

void replacing( Gen & g, Case & c )
{
    int alphabet = (int) g.pick( std::vector<int>{ 2, 2, 3, 4, 0 } );
    std::string t = text( g, 12, alphabet ), from, to = text( g, 3, alphabet );
    switch ( g.draw( 5 ) )
    {
    case 0: from = text( g, 2, alphabet ); break;
    case 1: case 2: { std::size_t b = g.draw( t.size() ), n = g.range( 0, 4 ); from = t.substr( b, n ); } break;     // occurs
    case 3: from = t; break;
    case 4: from = t + text( g, 1, alphabet ); break;
    case 5: from = text( g, 1, alphabet ); to = from + to; break;       // the replacement contains the pattern
    }
    // the first occurrence, by trying all positions
    std::size_t at = std::string::npos; int occurrences = 0;
    for ( std::size_t i = 0; i + from.size() <= t.size(); ++i )
    {
        bool eq = true;
        for ( std::size_t j = 0; j < from.size(); ++j ) eq = eq && t[i + j] == from[j];
        if ( eq ) { if ( !occurrences++ ) at = i; }
    }
    std::string want;
    if ( !occurrences ) want = t;
    else
    {
        for ( std::size_t i = 0; i < at; ++i ) want += t[i];
        want += to;
        for ( std::size_t i = at + from.size(); i < t.size(); ++i ) want += t[i];
    }
    PBT_LOG( c, "replaced(" << shown( t ) << ", " << shown( from ) << ", " << shown( to ) << ")" );
    std::string const t0 = t, from0 = from, to0 = to;
    std::string got = core::replaced( t, from, to );
    PBT_CHECK( c, got == want, "replaced(" << shown( t ) << ", " << shown( from ) << ", " << shown( to ) << ") = " << shown( got ) << ", want " << shown( want ) );
    PBT_CHECK( c, t == t0 && from == from0 && to == to0, "replaced() changed its arguments" );
    // the same objects as several arguments
    PBT_CHECK( c, core::replaced( t, t, to ) == to, "replacing a text as a whole, " << shown( t ) << " by " << shown( to ) );
    PBT_CHECK( c, core::replaced( t, from, from ) == t, "replacing " << shown( from ) << " by itself changes " << shown( t ) );
    c.nontriv( occurrences > 0 && !from.empty() );
    c.cls( "does not occur", occurrences == 0 ); c.cls( "occurs repeatedly", occurrences > 1 && !from.empty() ); c.cls( "replacement longer", occurrences && to.size() > from.size() ); c.cls( "replacement empty", occurrences && to.empty() );
}

template< typename T, typename U >
void casting( Gen & g, Case & c )
{
    U u;
    if ( std::is_integral<U>::value )
    {
        if ( g.coin() ) u = (U) g.range( -200, 200 );
        else u = (U) g.draw( ~0ULL );
    }
    else u = (U)( g.coin() ? g.uniform( -300, 300 ) : g.real( -38, 38 ) );
    if ( !std::is_integral<U>::value )
    {
        // out of range of the target: not defined for a static cast either
        L x = u;
        if ( std::is_integral<T>::value ? !( x > (L) std::numeric_limits<T>::min() - 1 && x < (L) std::numeric_limits<T>::max() + 1 ) : std::fabs( x ) > (L) std::numeric_limits<T>::max() ) throw Discard();
    }
    T const want = static_cast<T>( u );
    T const got = core::as<T>( u );
    PBT_LOG( c, "as<" << typeid( T ).name() << ">(" << +u << " of " << typeid( U ).name() << ")" );
    PBT_CHECK( c, got == want, "as<T>(" << +u << ") is " << +got << ", want " << +want );
    auto w = core::as<T>( u ); T sum = w; PBT_CHECK( c, sum == want, "as<T>(" << +u << ") kept in a variable is " << +sum );
    bool changes = (L) want != (L) u;
    c.nontriv( true ); c.cls( "value changes", changes ); c.cls( "value kept", !changes );
}

template< typename T >
void casts( Gen & g, Case & c )
{
    switch ( g.draw( 9 ) )
    {
    case 0: casting<T,int>( g, c ); break; case 1: casting<T,unsigned>( g, c ); break; case 2: casting<T,long long>( g, c ); break; case 3: casting<T,unsigned char>( g, c ); break;
    case 4: casting<T,short>( g, c ); break; case 5: casting<T,float>( g, c ); break; case 6: case 7: casting<T,double>( g, c ); break; case 8: casting<T,long double>( g, c ); break; case 9: casting<T,signed char>( g, c ); break;
    }
}

Suite pbt::suite()
{
    return { "T01",
        "line() of all lengths and characters; replaced() on texts over small alphabets (overlapping, repeated, absent, empty and whole-text patterns, replacements that contain the pattern) against a search of all positions; as<T>() between arithmetic types against static_cast, conversions undefined for static_cast excluded. Non-trivial: non-empty line, pattern that occurs, any cast.",
        { { "line", 2, lines }, { "replaced", 6, replacing }, { "as int", 1, casts<int> }, { "as double", 1, casts<double> }, { "as float", 1, casts<float> }, { "as short", 1, casts<short> }, { "as unsigned char", 1, casts<unsigned char> }, { "as unsigned", 1, casts<unsigned> }, { "as long long", 1, casts<long long> }, { "as signed char", 1, casts<signed char> } },
        400000, 10000000, { "empty line", "default character", "does not occur", "occurs repeatedly", "replacement longer", "replacement empty", "value changes", "value kept" } };
}
