// M02: matrix sums, differences and scalar combinations act element by element.
// fuzz: quick=10000 thorough=200000
#include "fw/elem.hpp"

using namespace pbt;
using namespace el;

template< typename T >
__attribute__(( noinline )) void compare( Case & c, char const * what, int i, int j, T got, T want )
{
    PBT_CHECK( c, same( got, want ), what << ": element (" << i << "," << j << ") is " << val( got ) << " want " << val( want ) );
}

template< typename T, int N, int M >
void elementwise( Gen & g, Case & c )
{
    using Mx = num::matrix<T,N,M>;
    auto mk = [&] { if constexpr ( N * M > 64 ) return gen_large<T,N,M>( g ); else return gen<T,N,M>( g ); };
    Mx const A = mk(), B = mk();
    Mx const A0 = A, B0 = B;
    T const v = Elem<T>::gen( g );
    PBT_LOG( c, N << "x" << M << " A=" << str( A ) << " B=" << str( B ) << " v=" << val( v ) );

    auto check = [&]( Mx const & r, char const * what, auto f )
    {
        for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j )
            compare<T>( c, what, i, j, T( r( i, j ) ), f( i, j ) );
    };
    auto unchanged = [&]
    {
        for ( int i = 0; i < N * M; ++i ) PBT_CHECK( c, same( T( A[i] ), T( A0[i] ) ) && same( T( B[i] ), T( B0[i] ) ), "operand modified" );
    };
    int big = 1;
    for ( auto const & e : A ) if ( !( e == T( 0 ) ) ) ++big;

    if constexpr ( N * M > 1 )
    {
        num::matrix<T,1,1> const w( v );
        check( A + B, "A + B", [&]( int i, int j ) { return T( A( i, j ) + B( i, j ) ); } );
        check( A - B, "A - B", [&]( int i, int j ) { return T( A( i, j ) - B( i, j ) ); } );
        check( A + v, "A + v", [&]( int i, int j ) { return T( A( i, j ) + v ); } );
        check( v + A, "v + A", [&]( int i, int j ) { return T( v + A( i, j ) ); } );
        check( A - v, "A - v", [&]( int i, int j ) { return T( A( i, j ) - v ); } );
        check( A * v, "A * v", [&]( int i, int j ) { return T( A( i, j ) * v ); } );
        check( v * A, "v * A", [&]( int i, int j ) { return T( v * A( i, j ) ); } );
        check( A + w, "A + [v]", [&]( int i, int j ) { return T( A( i, j ) + v ); } );
        check( w + A, "[v] + A", [&]( int i, int j ) { return T( v + A( i, j ) ); } );
        if constexpr ( N > 1 ) check( A * w, "A * [v]", [&]( int i, int j ) { return T( A( i, j ) * v ); } );
        if constexpr ( N > 1 ) check( w * A, "[v] * A", [&]( int i, int j ) { return T( v * A( i, j ) ); } );
        PBT_CHECK( c, same( T( w( 0 ) ), v ), "scalar operand modified" );
        // repeated use of the same operand
        check( A + A, "A + A", [&]( int i, int j ) { return T( A( i, j ) + A( i, j ) ); } );
        check( A - A, "A - A", [&]( int i, int j ) { return T( A( i, j ) - A( i, j ) ); } );
        check( ( A + B ) - v * B, "(A + B) - v B", [&]( int i, int j ) { return T( T( A( i, j ) + B( i, j ) ) - T( v * B( i, j ) ) ); } );
        // the result has the shape of the operand
        static_assert( std::is_same<decltype( A + B ), Mx>::value, "shape" );
        c.cls( "matrix", N > 1 && M > 1 ); c.cls( "vector", N == 1 || M == 1 ); c.cls( "rectangular", N != M && N > 1 && M > 1 );
        c.nontriv( big > N * M / 2 );
    }
    else
    {
        T const a = A( 0 );
        auto one = [&]( T r, T w, char const * what ) { compare<T>( c, what, 0, 0, r, w ); };
        one( A + v, T( a + v ), "[a] + v" ); one( v + A, T( v + a ), "v + [a]" );
        one( A - v, T( a - v ), "[a] - v" ); one( v - A, T( v - a ), "v - [a]" );
        one( A * v, T( a * v ), "[a] * v" ); one( v * A, T( v * a ), "v * [a]" );
        one( ( A * B )( 0 ), T( a * B( 0 ) ), "[a] * [b]" );
        c.cls( "1x1 with scalar" );
        c.nontriv();
    }
    unchanged();
}

template< typename T, int Max >
void any_shape( Gen & g, Case & c )
{
#ifdef PBT_FUZZ
    constexpr int L = 3;
#else
    constexpr int L = Max;
#endif
    int n = g.irange( 1, L ), m = g.irange( 1, L );
    with_dim( dims<L>(), n, [&]( auto N ) { with_dim( dims<L>(), m, [&]( auto M ) { elementwise<T,decltype( N )::value,decltype( M )::value>( g, c ); } ); } );
}

// more elements than a byte can count
void large( Gen & g, Case & c )
{
    c.cls( "more than 255 elements" );
#ifndef PBT_FUZZ
    switch ( g.draw( 3 ) )
    {
    case 0: return elementwise<int,17,16>( g, c );
    case 1: return elementwise<int,1,300>( g, c );
    case 2: return elementwise<int,300,1>( g, c );
    default: return elementwise<int,20,20>( g, c );
    }
#endif
}

Suite pbt::suite()
{
    return { "M02",
        "random operands of every shape over double (1x1..5x5), int (up to 4x4), float and fixed point (up to 3x3), and int of more than 255 elements; every supported sum, difference and scalar combination compared element by element. Non-trivial: more than half of the elements are not zero (1x1: always).",
        { { "double", 2, any_shape<double,5> }, { "float", 1, any_shape<float,3> }, { "int", 2, any_shape<int,4> }, { "fixed point", 1, any_shape<Fx,3> }, { "large", 1, large } },
        300000, 8000000, { "matrix", "vector", "rectangular", "1x1 with scalar", "more than 255 elements" } };
}
