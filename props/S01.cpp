// S01: the standard-library stand-ins behave like the standard algorithms.
// fuzz: quick=15000 thorough=300000
#include "fw/pbt.hpp"
#include "std/algorithm.hpp"
#include "std/utility.hpp"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <iterator>
#include <sstream>
#include <string>

using namespace pbt;

// an element that knows how it was handled
struct Elem
{
    int v = 0; bool moved = false;
    Elem( int x = 0 ) : v( x ) {}
    Elem( Elem const & ) = default;
    Elem & operator=( Elem const & ) = default;
    Elem( Elem && o ) : v( o.v ) { o.moved = true; }
    Elem & operator=( Elem && o ) { v = o.v; moved = false; if ( &o != this ) o.moved = true; return *this; }
};
inline bool operator==( Elem const & a, Elem const & b ) { return a.v == b.v && a.moved == b.moved; }
// equality only: no operator!=
inline std::ostream & operator<<( std::ostream & os, Elem const & e ) { return os << e.v << ( e.moved ? "(moved from)" : "" ); }

template< typename T > T make( Gen & g, int spread );
template<> int         make<int>( Gen & g, int s ) { return (int) g.range( 0, s ); }
template<> double      make<double>( Gen & g, int s ) { return g.chance( 1, 20 ) ? std::nan( "" ) : g.chance( 1, 10 ) ? -0.0 : (double) g.range( 0, s ) / 2; }
template<> char        make<char>( Gen & g, int s ) { return (char) g.range( 0, s ); }
template<> std::string make<std::string>( Gen & g, int s ) { return std::string( g.range( 0, s ) % 40, 'x' ); }
template<> Elem        make<Elem>( Gen & g, int s ) { return Elem( (int) g.range( 0, s ) ); }

template< typename T > bool same( T const & a, T const & b ) { return a == b; }
template<> bool same( double const & a, double const & b ) { return std::memcmp( &a, &b, sizeof a ) == 0; }

template< typename C, typename T = typename C::value_type >
C filled( Gen & g, std::size_t n, int spread ) { C r; std::vector<T> v; for ( std::size_t i = 0; i < n; ++i ) v.push_back( make<T>( g, spread ) ); r.assign( v.begin(), v.end() ); return r; }

template< typename A, typename B >
bool all_same( A const & a, B const & b )
{
    auto i = a.begin(); auto j = b.begin();
    for ( ; i != a.end() && j != b.end(); ++i, ++j ) if ( !same( *i, *j ) ) return false;
    return i == a.end() && j == b.end();
}

std::size_t length( Gen & g ) { return g.chance( 1, 6 ) ? 0 : g.chance( 1, 10 ) ? g.range( 50, 300 ) : g.range( 1, 12 ); }

// copy between containers: prefix and suffix of the destination are guard zones
template< typename Src, typename Dst >
void copying( Gen & g, Case & c )
{
    std::size_t n = length( g ), before = g.range( 0, 3 ), after = g.range( 0, 3 ), skip = g.range( 0, 2 ), drop = g.range( 0, 2 );
    Src src = filled<Src>( g, skip + n + drop, 50 ); Src const src0 = src;
    Dst dst = filled<Dst>( g, before + n + after, 50 ); Dst want = dst;
    auto f = std::next( src.begin(), skip ), l = std::next( f, n );
    auto d = std::next( dst.begin(), before ), w = std::next( want.begin(), before );
    PBT_LOG( c, "copy " << n << " of " << skip + n + drop << " to " << before );
    auto rw = std::copy( f, l, w );
    auto r = std20::copy( f, l, d );
    PBT_CHECK( c, all_same( dst, want ), "copy of " << n << " elements gives another destination than std::copy" );
    PBT_CHECK( c, all_same( src, src0 ), "copy changes its source" );
    PBT_CHECK( c, std::distance( dst.begin(), r ) == std::distance( want.begin(), rw ), "copy of " << n << " elements returns position " << std::distance( dst.begin(), r ) << ", std::copy " << std::distance( want.begin(), rw ) );
    // by const source, into an inserter, from and to streams
    Src const & cs = src;
    std::vector<typename Dst::value_type> ins; ins.reserve( g.range( 0, 3 ) );
    std20::copy( cs.begin(), cs.end(), std::back_inserter( ins ) );
    PBT_CHECK( c, all_same( ins, std::vector<typename Dst::value_type>( src0.begin(), src0.end() ) ), "copy to a back_inserter" );
    c.nontriv( n > 0 ); c.cls( "copy nothing", n == 0 ); c.cls( "copy into the middle", before && after && n );
}

void copy_special( Gen & g, Case & c )
{
    std::size_t n = length( g );
    std::vector<int> v = filled<std::vector<int>>( g, n, 99 );
    switch ( g.draw( 3 ) )
    {
    case 0:     // overlapping, towards the front
    {
        std::size_t d = g.range( 1, 4 ); v.resize( n + d ); std::vector<int> w = v;
        std::copy( w.begin() + d, w.end(), w.begin() ); int * r = std20::copy( v.data() + d, v.data() + v.size(), v.data() );
        PBT_LOG( c, "copy down by " << d << " of " << n );
        PBT_CHECK( c, v == w && r == v.data() + n, "copy towards the front by " << d << " of " << n << " elements" );
        c.cls( "overlap", n > d );
    } break;
    case 1:     // single-pass input, stream output
    {
        std::ostringstream os; for ( auto x : v ) os << x << ' ';
        std::istringstream is( os.str() ); std::ostringstream out;
        std20::copy( std::istream_iterator<int>( is ), std::istream_iterator<int>(), std::ostream_iterator<int>( out, " " ) );
        PBT_LOG( c, "copy stream of " << n );
        PBT_CHECK( c, out.str() == os.str(), "copy from a stream to a stream of " << n << " numbers" );
        c.cls( "stream copy", n > 0 );
    } break;
    case 2:     // converting
    {
        std::vector<double> d( n + 2, -7.5 ); auto r = std20::copy( v.begin(), v.end(), d.begin() + 1 );
        PBT_LOG( c, "copy int to double of " << n );
        bool ok = d.front() == -7.5 && d.back() == -7.5 && r == d.end() - 1; for ( std::size_t i = 0; i < n; ++i ) ok = ok && d[i + 1] == v[i];
        PBT_CHECK( c, ok, "copy of " << n << " ints to doubles" );
    } break;
    case 3:     // move iterators move
    {
        std::vector<std::unique_ptr<int>> p, q( n + 1 ); for ( auto x : v ) p.push_back( std::make_unique<int>( x ) );
        std20::copy( std::make_move_iterator( p.begin() ), std::make_move_iterator( p.end() ), q.begin() );
        PBT_LOG( c, "copy with move iterators of " << n );
        bool ok = !q[n]; for ( std::size_t i = 0; i < n; ++i ) ok = ok && !p[i] && q[i] && *q[i] == v[i];
        PBT_CHECK( c, ok, "copy with move iterators of " << n << " elements" );
    } break;
    }
    c.nontriv( n > 0 );
}

template< typename C >
void filling( Gen & g, Case & c )
{
    using T = typename C::value_type;
    std::size_t n = length( g ), before = g.range( 0, 3 ), after = g.range( 0, 3 );
    C a = filled<C>( g, before + n + after, 50 ), b = a;
    auto fa = std::next( a.begin(), before ), fb = std::next( b.begin(), before );
    T const v = make<T>( g, 50 );
    PBT_LOG( c, "fill " << n << " after " << before );
    if ( g.chance( 1, 4 ) && n && before ) { std20::fill( fa, std::next( fa, n ), *a.begin() ); std::fill( fb, std::next( fb, n ), *b.begin() ); }
    else { std20::fill( fa, std::next( fa, n ), v ); std::fill( fb, std::next( fb, n ), v ); }
    PBT_CHECK( c, all_same( a, b ), "fill of " << n << " elements after " << before << " gives another result than std::fill" );
    c.nontriv( n > 0 ); c.cls( "fill nothing", n == 0 ); c.cls( "fill the middle", before && after && n );
}

void fill_special( Gen & g, Case & c )
{
    std::size_t n = length( g ); int x = (int) g.range( -500, 500 );
    std::vector<unsigned char> a( n + 2, 9 ), b = a;
    std20::fill( a.data() + 1, a.data() + 1 + n, x ); std::fill( b.begin() + 1, b.begin() + 1 + n, x );      // value of another type
    PBT_LOG( c, "fill bytes with " << x );
    PBT_CHECK( c, a == b, "fill of bytes with " << x );
    std::vector<bool> p( n + 2, true ), q = p; std20::fill( p.begin() + 1, p.begin() + 1 + n, false ); std::fill( q.begin() + 1, q.begin() + 1 + n, false );
    PBT_CHECK( c, p == q, "fill of vector<bool>" );
    std::forward_list<int> f( n, 3 ); std20::fill( f.begin(), f.end(), x ); PBT_CHECK( c, f == std::forward_list<int>( n, x ), "fill of forward_list" );
    c.nontriv( n > 0 );
}

template< typename A, typename B >
void comparing( Gen & g, Case & c )
{
    using T = typename A::value_type;
    std::size_t n = length( g ); int spread = (int) g.pick( std::vector<int>{ 0, 1, 2, 50 } );
    A a = filled<A>( g, n, spread ); std::vector<T> bv( a.begin(), a.end() );
    int diffs = 0;
    if ( n ) for ( ; g.chance( 1, 2 ) && diffs < 3; ++diffs ) { std::size_t k = g.pick( std::vector<std::size_t>{ 0, n - 1, (std::size_t) g.range( 0, n - 1 ) } ); bv[k] = make<T>( g, spread + 1 ); }
    for ( int i = (int) g.range( 0, 2 ); i; --i ) bv.push_back( make<T>( g, 50 ) );           // what follows does not matter
    B b; b.assign( bv.begin(), bv.end() );
    bool want = std::equal( a.begin(), a.end(), b.begin() );
    PBT_LOG( c, "equal over " << n << " want " << want );
    PBT_CHECK( c, std20::equal( a.begin(), a.end(), b.begin() ) == want, "equal over " << n << " elements gives " << !want );
    A const & ca = a; B const & cb = b;
    PBT_CHECK( c, std20::equal( ca.begin(), ca.end(), cb.begin() ) == want, "equal over " << n << " const elements gives " << !want );
    // with a predicate that is not symmetric, and sees first-range elements first
    std::size_t calls = 0; std::vector<T> seen1, seen2;
    int kind = (int) g.draw( 2 );
    auto pred = [&]( T const & x, T const & y ) { ++calls; seen1.push_back( x ); seen2.push_back( y ); return kind == 0 ? x == y : kind == 1 ? calls < 7 : true; };
    std::size_t k = 0; bool wantp = true; { auto i = a.begin(); auto j = b.begin(); for ( ; i != a.end() && wantp; ++i, ++j ) { ++k; wantp = kind == 0 ? *i == *j : kind == 1 ? k < 7 : true; } }
    bool gotp = std20::equal( a.begin(), a.end(), b.begin(), pred );
    PBT_CHECK( c, gotp == wantp, "equal with predicate over " << n << " elements gives " << gotp );
    PBT_CHECK( c, calls <= n, "equal calls its predicate " << calls << " times for " << n << " elements" );
    std::vector<T> av( a.begin(), a.end() );
    if ( wantp ) PBT_CHECK( c, calls == n, "equal calls its predicate " << calls << " times for " << n << " elements that all match" );
    for ( std::size_t i = 0; i < calls; ++i ) { bool found = false; for ( std::size_t j = 0; j < n && !found; ++j ) found = same( seen1[i], av[j] ) && same( seen2[i], bv[j] ); PBT_CHECK( c, found, "equal passes a pair to its predicate that is no pair of corresponding elements" ); }
    c.nontriv( n > 0 ); c.cls( "equal", want && n ); c.cls( "different", !want ); c.cls( "compare nothing", n == 0 ); c.cls( "differs at the end only", !want && n > 1 && std::equal( a.begin(), std::next( a.begin(), n - 1 ), b.begin() ) );
    c.cls( "differs at the start", !want && n > 1 && !( *a.begin() == *b.begin() ) );
}

void ordered_predicate( Gen & g, Case & c )
{
    std::size_t n = length( g );
    std::vector<int> a = filled<std::vector<int>>( g, n, 20 ); std::vector<double> b;
    for ( auto x : a ) b.push_back( x + ( g.chance( 1, 8 ) ? -0.5 : (double) g.range( 0, 3 ) ) );
    auto less = []( int x, double y ) { return x <= y; };
    bool want = std::equal( a.begin(), a.end(), b.begin(), less );
    PBT_LOG( c, "equal(<=) over " << n << " want " << want );
    PBT_CHECK( c, std20::equal( a.begin(), a.end(), b.begin(), less ) == want, "equal with <= over " << n << " pairs gives " << !want );
    c.nontriv( n > 0 ); c.cls( "ordered predicate", n > 1 );
}

template< typename T >
void swapping( Gen & g, Case & c )
{
    T a = make<T>( g, 90 ), b = make<T>( g, 90 ); T const a0 = a, b0 = b;
    std20::swap( a, b );
    PBT_LOG( c, "swap " << a0 << " and " << b0 );
    if ( std::is_same<T,Elem>::value ) PBT_CHECK( c, a == b0 && b == a0, "swap of " << a0 << " and " << b0 << " gives " << a << " and " << b );
    PBT_CHECK( c, same( a, b0 ) && same( b, a0 ), "swap of " << a0 << " and " << b0 << " gives " << a << " and " << b );
    static_assert( !noexcept( std::swap( a, b ) ) || noexcept( std20::swap( a, b ) ), "" );
    c.nontriv( !same( a, b ) ); c.cls( "swap", true );
}

void swap_special( Gen & g, Case & c )
{
    auto p = std::make_unique<int>( (int) g.range( 0, 9 ) ), q = g.coin() ? std::make_unique<int>( 5 ) : nullptr; int * p0 = p.get(), * q0 = q.get();
    std20::swap( p, q );                    // types that can only be moved
    PBT_LOG( c, "swap unique_ptr" );
    PBT_CHECK( c, p.get() == q0 && q.get() == p0, "swap of two unique_ptr" );
    using X = num::fixed_point<int,15>; using XM = num::matrix<X,2,1>;        // elements that convert from anything
    XM ma{ X( (int) g.range( -99, 99 ) ), X( 2 ) }, mb{ X( (int) g.range( -99, 99 ) ), X( 3 ) }; XM const ma0 = ma, mb0 = mb;
    std20::swap( ma, mb );
    PBT_CHECK( c, ma( 0, 0 ) == mb0( 0, 0 ) && ma( 1, 0 ) == mb0( 1, 0 ) && mb( 0, 0 ) == ma0( 0, 0 ) && mb( 1, 0 ) == ma0( 1, 0 ), "swap of two matrices with fixed-point elements" );
    int x = (int) g.range( -9, 9 ), x0 = x; std20::swap( x, x ); PBT_CHECK( c, x == x0, "swap of a variable with itself" );
    std::vector<int> v = filled<std::vector<int>>( g, g.range( 1, 9 ), 9 ), w = filled<std::vector<int>>( g, g.range( 1, 9 ), 9 ), v0 = v, w0 = w; int const * d = v.data();
    std20::swap( v, w ); PBT_CHECK( c, v == w0 && w == v0 && w.data() == d, "swap of two vectors" );
    // move gives an rvalue of the same object
    std::vector<int> u = std20::move( v ); PBT_CHECK( c, u == w0, "a vector made from move(v) has other elements" );
    int & r = x; int const k = 3;
    static_assert( std::is_same<decltype( std20::move( x ) ),int &&>::value && std::is_same<decltype( std20::move( r ) ),int &&>::value && std::is_same<decltype( std20::move( k ) ),int const &&>::value && std::is_same<decltype( std20::move( 3 ) ),int &&>::value, "" );
    int && rr = std20::move( x ); PBT_CHECK( c, &rr == &x && x == x0, "move(x) does not refer to x" );
    c.nontriv( true ); c.cls( "move", true );
}

// usable in constant expressions, as the declarations promise
constexpr bool constant()
{
    int a[5] = { 1, 2, 3, 4, 5 }, b[5] = {};
    std20::copy( a, a + 5, b ); std20::fill( a, a + 2, 7 );
    return b[0] == 1 && b[4] == 5 && a[1] == 7 && a[2] == 3 && !std20::equal( a, a + 5, b ) && std20::equal( a + 2, a + 5, b + 2 );
}
static_assert( constant(), "" );

Suite pbt::suite()
{
    return { "S01",
        "copy, fill and equal of std20 against the std algorithms on sub-ranges of vectors, deques, lists, pointers, streams and inserters (guard zones on both sides, overlap towards the front, value types with NaN and with recorded moves, asymmetric predicates); swap and move on copyable and move-only types. Non-trivial: non-empty range, or different values swapped.",
        { { "copy vector/vector<int>", 2, copying<std::vector<int>,std::vector<int>> }, { "copy list/vector<string>", 1, copying<std::list<std::string>,std::vector<std::string>> }, { "copy deque/list<Elem>", 2, copying<std::deque<Elem>,std::list<Elem>> }, { "copy vector/deque<double>", 1, copying<std::vector<double>,std::deque<double>> }, { "copy char", 1, copying<std::vector<char>,std::vector<char>> },
          { "copy special", 2, copy_special }, { "fill vector<int>", 1, filling<std::vector<int>> }, { "fill list<string>", 1, filling<std::list<std::string>> }, { "fill deque<Elem>", 1, filling<std::deque<Elem>> }, { "fill double", 1, filling<std::vector<double>> }, { "fill special", 1, fill_special },
          { "equal vector<int>", 2, comparing<std::vector<int>,std::vector<int>> }, { "equal list/vector<double>", 2, comparing<std::list<double>,std::vector<double>> }, { "equal deque/list<Elem>", 1, comparing<std::deque<Elem>,std::list<Elem>> }, { "equal string", 1, comparing<std::vector<std::string>,std::list<std::string>> }, { "predicate", 1, ordered_predicate },
          { "swap int", 1, swapping<int> }, { "swap Elem", 1, swapping<Elem> }, { "swap string", 1, swapping<std::string> }, { "swap double", 1, swapping<double> }, { "swap special", 1, swap_special } },
        300000, 6000000, { "copy nothing", "copy into the middle", "overlap", "stream copy", "fill nothing", "fill the middle", "equal", "different", "compare nothing", "differs at the end only", "differs at the start", "ordered predicate", "swap", "move" } };
}
