// M03: vector and square-matrix products are the linear-algebra products.
// fuzz: quick=8000 thorough=150000
#include "fw/elem.hpp"

using namespace pbt;
using namespace el;
using ref::L;
using ref::Mat;

// how far a computed sum of products may be from the exact one
template< typename T > L tolerance( L abs_sum, int terms );
template<> L tolerance<int>( L, int ) { return 0; }
template<> L tolerance<double>( L s, int n ) { return ( n + 1 ) * s * std::numeric_limits<double>::epsilon(); }
template<> L tolerance<float>( L s, int n ) { return ( n + 1 ) * s * std::numeric_limits<float>::epsilon(); }
template<> L tolerance<Fx>( L, int n ) { return n * std::ldexp( 1.0L, -16 ); }

template< typename T >
void compare( Case & c, Mat const & got, Mat const & a, Mat const & b, bool exact, char const * what )
{
    Mat want = ref::mul( a, b ), mag = ref::mul( ref::abs( a ), ref::abs( b ) );
    PBT_CHECK( c, got.n == want.n && got.m == want.m, what << ": the result is " << got.n << "x" << got.m << ", want " << want.n << "x" << want.m );
    for ( std::size_t i = 0; i < want.a.size(); ++i )
    {
        L tol = exact ? 0 : tolerance<T>( mag.a[i], a.m );
        PBT_CHECK( c, std::fabs( got.a[i] - want.a[i] ) <= tol, what << ": got " << ref::str( got ) << " want " << ref::str( want ) << " (element " << i << ", tolerance " << tol << ") for " << ref::str( a ) << " * " << ref::str( b ) );
    }
}

template< typename T, int N >
void products( Gen & g, Case & c )
{
    bool exact = false;
    auto mk = [&]( auto n, auto m )
    {
        constexpr int R = decltype( n )::value, C = decltype( m )::value;
        if constexpr ( N > 5 ) return gen_large<T,R,C>( g );
        if constexpr ( std::is_same<T,double>::value ) if ( exact ) return gen_dyadic<R,C>( g );
        return gen<T,R,C>( g );
    };
    if ( std::is_same<T,double>::value ) exact = g.coin();
    if ( std::is_same<T,int>::value ) exact = true;
    std::integral_constant<int,N> n; std::integral_constant<int,1> o;
    auto const A = mk( n, n ), B = mk( n, n );
    auto const x = mk( n, o ); auto const y = mk( o, n ); auto const x2 = mk( n, o );
    using ref::from;
    PBT_LOG( c, "A=" << str( A ) << " B=" << str( B ) << " x=" << str( x ) << " y=" << str( y ) );
    compare<T>( c, from( A * B ), from( A ), from( B ), exact, "A * B" );
    compare<T>( c, from( A * A ), from( A ), from( A ), exact, "A * A" );
    compare<T>( c, from( A * x ), from( A ), from( x ), exact, "A * x" );
    compare<T>( c, from( y * A ), from( y ), from( A ), exact, "y * A" );
    T dot = y * x;
    Mat d( 1, 1 ); d( 0, 0 ) = val( dot );
    compare<T>( c, d, from( y ), from( x ), exact, "y * x" );
    compare<T>( c, from( x * y ), from( x ), from( y ), exact, "x * y" );
    auto const I = num::eye<T,N>();
    auto eq = [&]( auto const & p, auto const & q, char const * what )
    {
        for ( int i = 0; i < p.size(); ++i ) PBT_CHECK( c, same( T( p[i] ), T( q[i] ) ), what << ": " << str( p ) << " vs " << str( q ) );
    };
    eq( I * A, A, "I * A = A" ); eq( A * I, A, "A * I = A" ); eq( I * x, x, "I * x = x" ); eq( y * I, y, "y * I = y" );
    if ( std::is_same<T,int>::value || exact )
    {
        // small entries: the laws hold exactly
        auto small = [&]( auto m ) { for ( auto & e : m ) { if constexpr ( std::is_same<T,int>::value ) e = e % 30; } return m; };
        auto a = small( A ), b = small( B ), p = small( mk( n, n ) );
        auto u = small( x ); auto v = small( x2 ); auto w = small( y );
        eq( ( a * b ) * p, a * ( b * p ), "(A B) C = A (B C)" );
        eq( a * ( b + p ), a * b + a * p, "A (B + C) = A B + A C" );
        eq( ( a - b ) * p, a * p - b * p, "(A - B) C = A C - B C" );
        eq( ( a * b ) * u, a * ( b * u ), "(A B) x = A (B x)" );
        eq( w * ( a * b ), ( w * a ) * b, "y (A B) = (y A) B" );
        eq( a * ( u + v ), a * u + a * v, "A (x + z) = A x + A z" );
        PBT_CHECK( c, same( T( w * ( a * u ) ), T( ( w * a ) * u ) ), "y (A x) = (y A) x" );
        eq( ( u * w ) * v, u * T( w * v ), "(x y) z = x (y z)" );
        c.cls( "exact laws" );
    }
    int nz = 0; for ( auto const & e : A ) nz += !( e == T( 0 ) );
    c.nontriv( nz > N );
    c.cls( "2x2", N == 2 ); c.cls( "3x3", N == 3 ); c.cls( "4x4", N == 4 ); c.cls( "5x5", N == 5 );
}

template< typename T >
void any_size( Gen & g, Case & c )
{
    with_dim( std::integer_sequence<int,2,3,4,5>(), g.irange( 2, 5 ), [&]( auto N ) { products<T,decltype( N )::value>( g, c ); } );
}

// products of matrices of any two shapes with the same inner dimension
template< typename T, int N, int M, int K >
void shapes( Gen & g, Case & c )
{
    bool exact = std::is_same<T,int>::value;
    auto const A = gen<T,N,M>( g ); auto const B = gen<T,M,K>( g );
    PBT_LOG( c, "A=" << str( A ) << " B=" << str( B ) );
    auto const p = A * B;
    if constexpr ( std::is_same<std::decay_t<decltype( p )>,T>::value ) { Mat d( 1, 1 ); d( 0, 0 ) = val( p ); compare<T>( c, d, ref::from( A ), ref::from( B ), exact, "A * B" ); }
    else compare<T>( c, ref::from( p ), ref::from( A ), ref::from( B ), exact, "A * B" );
    if constexpr ( M != 1 && N != 1 )
    {
        // row by row and column by column
        num::matrix<T,1,M> r( T( 0 ) ); int const i = g.irange( 0, N - 1 ); for ( int j = 0; j < M; ++j ) r( j ) = A( i, j );
        auto const q = r * B;
        for ( int j = 0; j < K; ++j ) { T x; if constexpr ( K == 1 ) x = q; else x = q( j ); PBT_CHECK( c, std::fabs( val( x ) - val( T( p( i, j ) ) ) ) <= 2 * tolerance<T>( ref::mul( ref::abs( ref::from( A ) ), ref::abs( ref::from( B ) ) )( i, j ), M ), "row " << i << " of A times B, element " << j << ": " << val( x ) << ", row of A * B: " << val( T( p( i, j ) ) ) ); }
    }
    int nz = 0; for ( auto const & e : A ) nz += !( e == T( 0 ) ); for ( auto const & e : B ) nz += !( e == T( 0 ) );
    c.nontriv( M > 1 && nz > M );
    c.cls( "not square", M != 1 && ( N != M || M != K ) ); c.cls( "wider result", K > M && M != 1 );
}

template< typename T >
void any_shape( Gen & g, Case & c )
{
    int const n = g.irange( 1, 4 ), m = g.irange( 1, 4 ), k = g.irange( 1, 4 );
    if ( m == 1 && n != 1 && k != 1 && n != k ) throw Discard();                        // no product of vectors of different length is declared
    using D = std::integer_sequence<int,1,2,3,4>;
    with_dim( D(), n, [&]( auto N ) { with_dim( D(), m, [&]( auto M ) { with_dim( D(), k, [&]( auto K )
    {
        constexpr int a = decltype( N )::value, b = decltype( M )::value, d = decltype( K )::value;
        if constexpr ( b != 1 || a == 1 || d == 1 || a == d ) shapes<T,a,b,d>( g, c );
    } ); } ); } );
}

// more elements than a byte can count
void large( Gen & g, Case & c )
{
    c.cls( "more than 255 elements" );
#ifndef PBT_FUZZ
    products<int,17>( g, c );
    {
        auto const y = gen_large<int,1,300>( g ); auto const x = gen_large<int,300,1>( g );
        Mat d( 1, 1 ); d( 0, 0 ) = y * x;
        compare<int>( c, d, ref::from( y ), ref::from( x ), true, "y * x" );
    }
    {
        // long inner dimension
        auto const A = gen_large<int,2,70>( g ); auto const B = gen_large<int,70,3>( g ); auto const r = gen_large<int,1,70>( g ); auto const x = gen_large<int,70,1>( g );
        compare<int>( c, ref::from( A * B ), ref::from( A ), ref::from( B ), true, "A * B" );
        compare<int>( c, ref::from( A * x ), ref::from( A ), ref::from( x ), true, "A * x" );
        compare<int>( c, ref::from( r * B ), ref::from( r ), ref::from( B ), true, "r * B" );
    }
#endif
}

Suite pbt::suite()
{
    return { "M03",
        "random square matrices and vectors of size 2..5 over double (general and dyadic), float, int and fixed point, products of two matrices of any shapes 1..4 by 1..4 with the same inner dimension, and 17x17 int matrices and vectors of 300; each defined product against the sum of products, and associativity, distributivity and neutrality exactly for int and dyadic double. Non-trivial: A has more non-zero entries than rows.",
        { { "double", 3, any_size<double> }, { "float", 1, any_size<float> }, { "int", 2, any_size<int> }, { "fixed point", 2, any_size<Fx> }, { "int shapes", 2, any_shape<int> }, { "double shapes", 2, any_shape<double> }, { "fixed point shapes", 1, any_shape<Fx> }, { "large", 1, large } },
        150000, 4000000, { "exact laws", "2x2", "3x3", "4x4", "5x5", "more than 255 elements", "not square", "wider result" } };
}
