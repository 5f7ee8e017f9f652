// R01: ranges enumerate the numbers they denote.
// fuzz: quick=15000 thorough=300000
#include "fw/pbt.hpp"
#include "core/range.hpp"
#include <type_traits>

using namespace pbt;
typedef long double L;

template< typename T > std::string show( T v ) { std::ostringstream os; os.precision( 17 ); os << +v; return os.str(); }

// k-th number, and the rounding of one product and one sum: errors do not add up along the range
template< typename T > L nth( L a, L s, long k ) { return a + k * s; }
template< typename T > L slack( L a, L s, long k )
{
    if ( std::is_integral<T>::value ) return 0;
    return std::numeric_limits<T>::epsilon() * 1.0625L * ( std::fabs( a ) + k * std::fabs( s ) );
}

// walk a proxy with one of several idioms; returns the numbers seen
template< typename T, typename Rng >
std::vector<T> walk( Gen & g, Case & c, Rng const & r, long limit )
{
    std::vector<T> v;
    switch ( g.draw( 3 ) )
    {
    case 0: for ( auto x : r ) { v.push_back( x ); if ( (long) v.size() > limit ) break; } break;
    case 1: for ( auto it = r.begin(); it != r.end() && (long) v.size() <= limit; ++it ) { PBT_CHECK( c, *it.operator->() == *it, "operator-> and operator* differ" ); v.push_back( *it ); } break;
    case 2: { auto it = r.begin(); auto const e = r.end(); while ( !( it == e ) && (long) v.size() <= limit ) { auto const old = it++; v.push_back( *old ); } } break;
    case 3: { auto it = r.begin(); while ( it != r.end() && (long) v.size() <= limit ) { v.push_back( *it ); auto & ref = ++it; PBT_CHECK( c, (void *) &ref == (void *) &it, "prefix increment returns another iterator" ); } } break;
    }
    return v;
}

template< typename P, typename Q >
void plain( Gen & g, Case & c )
{
    using T = std::common_type_t<P,Q>;
    long n = g.chance( 1, 8 ) ? 0 : g.chance( 1, 10 ) ? g.range( 1, 3000 ) : g.range( 1, 40 );
    if ( sizeof( P ) == 1 || sizeof( Q ) == 1 ) n = std::min( n, 100L );
    L lo = std::is_signed<P>::value && std::is_signed<T>::value ? ( sizeof( P ) == 1 ? -100 : -1000 ) : 0;
    long a0 = g.range( (long) lo, sizeof( P ) == 1 || sizeof( Q ) == 1 ? 20 : 1000 );
    P a = (P) a0; Q b = (Q)( a0 + n );
    if ( std::is_floating_point<P>::value && std::is_floating_point<Q>::value && g.coin() ) { a = (P)( (L) a + 0.25L ); b = (Q)( (L) b + 0.25L ); }
    if ( (L)(T) a != (L) a || (L)(T) b != (L) b || (L) b - (L) a != n ) throw Discard();
    auto const r = core::range( a, b );
    PBT_LOG( c, "range(" << show( a ) << "," << show( b ) << ") of " << n );
    static_assert( std::is_same<std::decay_t<decltype( *r.begin() )>,T>::value, "common type" );
    for ( int pass = 0; pass < 2; ++pass )          // repeatedly
    {
        auto v = walk<T>( g, c, r, n + 2 );
        PBT_CHECK( c, (long) v.size() == n, "range(" << show( a ) << "," << show( b ) << ") has " << v.size() << " elements, want " << n );
        for ( long k = 0; k < n; ++k ) PBT_CHECK( c, (L) v[k] == (L) a + k, "element " << k << " of range(" << show( a ) << "," << show( b ) << ") is " << show( v[k] ) );
    }
    // as iterator pair
    std::vector<T> w( r.begin(), r.end() );
    PBT_CHECK( c, (long) w.size() == n && ( n == 0 || ( (L) w[0] == (L) a && (L) w[n - 1] == (L) b - 1 ) ), "vector(begin, end) of range(" << show( a ) << "," << show( b ) << ") has " << w.size() << " elements" );
    c.nontriv( n >= 2 );
    c.cls( "empty", n == 0 ); c.cls( "long", n > 500 ); c.cls( "negative start", a < 0 ); c.cls( "mixed types", !std::is_same<P,Q>::value );
}

template< typename P, typename Q, typename S >
void stepped( Gen & g, Case & c )
{
    using T = std::common_type_t<P,Q,S>;
    bool flt = std::is_floating_point<T>::value;
    long lim = sizeof( P ) == 1 || sizeof( Q ) == 1 || sizeof( S ) == 1 ? 100 : 30000;
    S s = std::is_floating_point<S>::value ? (S)( g.coin() ? (double) g.range( 1, 40 ) / 8 : g.coin() ? (double) g.range( 1, 30 ) / 10 : std::pow( 10.0, g.uniform( -2, 2 ) ) ) : (S) g.range( 1, g.coin() ? 3 : 20 );
    P a = std::is_floating_point<P>::value ? (P)( g.coin() ? (double) g.range( -20, 20 ) / 4 : (double) g.range( -30, 30 ) / 10 ) : (P) g.range( std::is_signed<P>::value && std::is_signed<T>::value ? -50 : 0, 50 );
    L span = g.chance( 1, 8 ) ? -(L) g.range( 0, 10 ) : (L) s * ( g.chance( 1, 10 ) ? g.range( 1, 1500 ) : g.range( 1, 40 ) ) + ( g.coin() ? 0 : (L) s * g.unit() );
    L e = std::min<L>( (L) a + span, lim );
    if ( !( std::is_signed<Q>::value && std::is_signed<T>::value ) && e < 0 ) throw Discard();
    if ( sizeof( Q ) == 1 ) e = std::max<L>( e, -100 );
    Q b = (Q) e;
    if ( (L)(T) a != (L) a || (L)(T) b != (L) b ) { if ( !flt ) throw Discard(); }
    L A = (L)(T) a, B = (L)(T) b, S_ = (L)(T) s;
    if ( sizeof( T ) == 1 && B + S_ > 127 ) throw Discard();         // the step past the end must be representable
    long n = 0; bool exact = true;
    while ( nth<T>( A, S_, n ) < B && n < 5000 ) ++n;
    if ( n >= 4000 ) throw Discard();
    for ( long k : { n - 1, n } ) if ( k >= 0 && flt && std::fabs( nth<T>( A, S_, k ) - B ) <= slack<T>( A, S_, k ) && ( nth<T>( A, S_, k ) != B || (T) nth<T>( A, S_, k ) != (T) B ) ) exact = false;
    // sums that are not exact may land on either side of the end
    if ( flt ) { L q = 1024 * 8; if ( !( std::floor( A * q ) == A * q && std::floor( S_ * q ) == S_ * q && std::fabs( A ) < 1e5L && S_ < 1e4L ) && std::fabs( nth<T>( A, S_, n ) - B ) <= slack<T>( A, S_, n ) ) exact = false; }
    auto const r = core::range( a, b, s );
    PBT_LOG( c, "range(" << show( a ) << "," << show( b ) << "," << show( s ) << ") of " << n );
    static_assert( std::is_same<std::decay_t<decltype( *r.begin() )>,T>::value, "common type" );
    for ( int pass = 0; pass < 2; ++pass )
    {
        auto v = walk<T>( g, c, r, n + 3 );
        long m = (long) v.size();
        if ( exact ) PBT_CHECK( c, m == n, "range(" << show( a ) << "," << show( b ) << "," << show( s ) << ") has " << m << " elements, want " << n );
        else PBT_CHECK( c, std::labs( m - n ) <= 1, "range(" << show( a ) << "," << show( b ) << "," << show( s ) << ") has " << m << " elements, want about " << n );
        for ( long k = 0; k < m; ++k ) PBT_CHECK( c, std::fabs( (L) v[k] - nth<T>( A, S_, k ) ) <= slack<T>( A, S_, k ), "element " << k << " of range(" << show( a ) << "," << show( b ) << "," << show( s ) << ") is " << show( v[k] ) << " want " << (double) nth<T>( A, S_, k ) );
    }
    c.nontriv( n >= 2 );
    c.cls( "stepped empty", n == 0 ); c.cls( "end not hit exactly", exact && n > 0 && nth<T>( A, S_, n ) != B ); c.cls( "fractional step", flt && std::floor( S_ ) != S_ ); c.cls( "decided by rounding", !exact );
}

template< typename T, typename S >
void open_ended( Gen & g, Case & c )
{
    T a = std::is_floating_point<T>::value ? (T)( (double) g.range( -40, 40 ) / 8 ) : (T) g.range( std::is_signed<T>::value ? -50 : 0, 50 );
    bool with = g.coin();
    S s = with ? std::is_floating_point<S>::value ? (S)( (double) g.range( 1, 40 ) / 8 ) : (S) g.range( 1, 20 ) : S( 1 );
    auto base = core::range( a );
    auto const r = with ? base.step( (T) s ) : base;
    long n = g.range( 1, 2000 );
    if ( sizeof( T ) == 1 ) n = std::min<long>( n, (long)( 60 / std::max( 1L, (long) s ) ) + 1 );
    PBT_LOG( c, "range(" << show( a ) << ").step(" << show( s ) << ") up to " << n );
    auto it = r.begin();
    for ( long k = 0; k < n; ++k )
    {
        PBT_CHECK( c, it != r.end() && !( it == r.end() ), "open range ends after " << k << " elements" );
        PBT_CHECK( c, std::fabs( (L) *it - ( (L) a + k * (L)(T) s ) ) <= slack<T>( a, (L)(T) s, k ), "element " << k << " of range(" << show( a ) << ").step(" << show( s ) << ") is " << show( *it ) );
        ++it;
    }
    // the original is not changed by step()
    auto b = base.begin(); PBT_CHECK( c, *b == a, "step() changed the range it was called on" ); ++b; PBT_CHECK( c, (L) *b == (L) a + 1, "step() changed the range it was called on" );
    c.nontriv( n >= 2 );
    c.cls( "open with step", with );
}

// iterators advance independently of each other
template< typename T >
void iterators( Gen & g, Case & c )
{
    bool st = g.coin();
    T a = (T) g.range( 0, 9 ), s = st ? (T) g.range( 1, 5 ) : T( 1 );
    auto history = [&]( auto const & r )
    {
        auto b = r.begin();
        struct E { decltype( b ) it; long k; };
        std::vector<E> pool{ { b, 0 } };
        int ops = 0, copies = 0, post = 0;
        do
        {
            std::size_t i = g.draw( pool.size() - 1 );
            switch ( g.draw( 4 ) )
            {
            case 0: if ( pool.size() < 5 ) { E e = pool[i]; pool.push_back( e ); PBT_LOG( c, "copy" << i << " " ); ++copies; } break;
            case 1: pool.push_back( { r.begin(), 0 } ); if ( pool.size() > 5 ) pool.erase( pool.begin() ); PBT_LOG( c, "begin " ); break;
            case 2: ++pool[i].it; ++pool[i].k; PBT_LOG( c, "++" << i << " " ); break;
            case 3: { auto const old = pool[i].it++; PBT_CHECK( c, (L) *old == (L) a + (L) s * pool[i].k, "postfix increment returns " << show( *old ) << " for element " << pool[i].k ); ++pool[i].k; ++post; PBT_LOG( c, i << "++ " ); } break;
            case 4: { std::size_t j = g.draw( pool.size() - 1 ); E e = pool[i]; pool[j].it = e.it; pool[j].k = e.k; PBT_LOG( c, j << "=" << i << " " ); } break;
            }
            for ( auto & e : pool ) PBT_CHECK( c, (L) *e.it == (L) a + (L) s * e.k, "an iterator advanced " << e.k << " times is at " << show( *e.it ) );
        } while ( g.more( 20, ops, 100 ) );
        c.nontriv( copies + post > 0 ); c.cls( "iterator copies", copies > 0 ); c.cls( "postfix", post > 0 );
    };
    PBT_LOG( c, "from " << show( a ) << " step " << show( s ) << ( st ? " stepped: " : ": " ) );
    if ( st ) history( core::range( a, (T)( 30000 ), s ) ); else history( core::range( a, (T) 30000 ) );
}

// numbers anywhere in the type's range, up to its ends
template< typename T >
void whole( Gen & g, Case & c )
{
    typedef __int128 W;
    W const lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), all = hi - lo;
    long const n = g.range( 0, g.chance( 1, 20 ) ? 300 : 30 );
    int const kind = (int) g.draw( 2 );                     // plain, stepped, open
    W s = 1, span = n;
    if ( kind && n )
    {
        W const most = all / ( n + 1 );
        if ( most < 1 ) throw Discard();
        s = 1 + (W) g.draw( (std::uint64_t) std::min<W>( most - 1, (W) 1 << 62 ) );
        if ( g.coin() ) s = most; else if ( g.coin() ) s = 1 + (W) g.draw( (std::uint64_t) std::min<W>( most - 1, 20 ) );
    }
    span = n * s;
    if ( span > all ) throw Discard();
    W const room = all - span;
    W a = lo;
    switch ( g.draw( 3 ) )
    {
    case 0: break;
    case 1: a = lo + room; break;                           // up to the greatest number
    case 2: a = std::max( lo, std::min<W>( lo + room, -(W) g.draw( 40 ) ) ); break;
    default: a = lo + (W)( (long double) room * g.unit() ); break;
    }
    W b = a + span;                                         // one step past the last one
    if ( kind == 1 && n && s > 1 && g.coin() ) b -= (W) g.draw( (std::uint64_t)( s - 1 ) );
    auto text = [&]{ return std::string( kind == 0 ? "range" : kind == 1 ? "stepped range" : "open range" ) + " from " + show( (T) a ) + " to " + show( (T) b ) + " step " + show( (T) s ); };
    PBT_LOG( c, text() << " of " << n );
    auto compare = [&]( auto const & r, bool ends )
    {
        for ( int pass = 0; pass < 2; ++pass )
        {
            std::vector<T> v;
            if ( ends ) v = walk<T>( g, c, r, n + 2 );
            else { auto it = r.begin(); for ( long k = 0; k < n; ++k ) { PBT_CHECK( c, it != r.end(), text() << " ends" ); v.push_back( *it ); ++it; } }
            PBT_CHECK( c, (long) v.size() == n, text() << " has " << v.size() << " elements, want " << n );
            for ( long k = 0; k < n; ++k ) PBT_CHECK( c, (W) v[k] == a + k * s, "element " << k << " of the " << text() << " is " << show( v[k] ) << ", want " << show( (T)( a + k * s ) ) );
        }
    };
    if ( kind == 0 ) compare( core::range( (T) a, (T) b ), true );
    else if ( kind == 1 ) compare( core::range( (T) a, (T) b, (T) s ), true );
    else compare( core::range( (T) a ).step( (T) s ), false );
    c.nontriv( n >= 2 );
    c.cls( "from the smallest number", n && a == lo ); c.cls( "to the greatest number", n && b == hi ); c.cls( "most of the numbers", n && span > all / 2 );
}

// more elements than a small counter counts
template< typename T, typename S >
void far( Gen & g, Case & c )
{
    long const n = g.pick( std::vector<long>{ 70000, 66000, 33000, 65537 } ) + g.range( 0, 40 );
    T const a = (T) g.range( 0, 9 ); S const s = (S)( std::is_floating_point<S>::value ? (double) g.range( 1, 8 ) / 8 : (double) g.range( 1, 3 ) );
    using U = std::common_type_t<T,S>;
    PBT_LOG( c, "range from " << show( a ) << " step " << show( s ) << " of " << n );
    long k = 0;
    for ( auto x : core::range( a, (U)( a + n * s ), s ) )
    {
        PBT_CHECK( c, k < n, "the range has more than " << n << " elements" );
        PBT_CHECK( c, (L) x == (L) a + (L) k * s, "element " << k << " is " << show( x ) );
        ++k;
    }
    PBT_CHECK( c, k == n, "the range has " << k << " elements, want " << n );
    c.nontriv(); c.cls( "very long" );
}

Suite pbt::suite()
{
    return { "R01",
        "plain, stepped and open ranges over integer and floating-point argument types, walked by range-for, iterator loops and iterator pairs, twice each, against a + k s; pools of iterators advanced independently; ranges of integers anywhere up to the ends of their type, and of up to 70000 elements. Floating-point sums that round at the end may gain or lose the last element. Non-trivial: at least two elements, or a copied or post-incremented iterator.",
        { { "int", 300, plain<int,int> }, { "unsigned", 100, plain<unsigned,unsigned> }, { "int/long", 100, plain<int,long> }, { "short", 100, plain<short,short> }, { "int8", 100, plain<signed char,signed char> }, { "size_t/int", 100, plain<int,std::size_t> },
          { "double", 100, plain<double,double> }, { "int/double", 100, plain<int,double> }, { "float/int", 100, plain<float,int> },
          { "step int", 300, stepped<int,int,int> }, { "step unsigned", 100, stepped<unsigned,unsigned,unsigned> }, { "step double", 300, stepped<double,double,double> }, { "step float", 200, stepped<float,float,float> },
          { "step int/double", 100, stepped<int,int,double> }, { "step double/int", 100, stepped<double,int,int> }, { "step short", 100, stepped<short,short,short> }, { "step long", 100, stepped<int,long,short> }, { "step int8", 100, stepped<signed char,signed char,signed char> }, { "step int/float", 100, stepped<int,float,float> },
          { "open int", 200, open_ended<int,int> }, { "open double", 200, open_ended<double,double> }, { "open size_t", 100, open_ended<std::size_t,int> }, { "open float", 100, open_ended<float,float> },
          { "iterators int", 200, iterators<int> }, { "iterators double", 100, iterators<double> }, { "iterators long", 100, iterators<long> },
          { "whole int", 200, whole<int> }, { "whole unsigned", 100, whole<unsigned> }, { "whole long", 100, whole<long> }, { "whole size_t", 100, whole<std::size_t> }, { "whole short", 100, whole<short> }, { "whole ushort", 100, whole<unsigned short> }, { "whole int8", 100, whole<signed char> }, { "whole uint8", 100, whole<unsigned char> },
          { "far double", 1, far<double,double> }, { "far int", 1, far<int,int> }, { "far mixed", 1, far<int,double> } },
        200000, 5000000, { "empty", "long", "negative start", "mixed types", "stepped empty", "end not hit exactly", "fractional step", "open with step", "iterator copies", "postfix", "from the smallest number", "to the greatest number", "most of the numbers", "very long" } };
}
