// M04: transpose, identity and inverse satisfy their laws.
// fuzz: quick=20000 thorough=400000
#include "fw/elem.hpp"

using namespace pbt;
using namespace el;
using ref::L;
using ref::Mat;

template< typename T >
void transpose( Gen & g, Case & c )
{
    int n = g.irange( 1, 6 );
    with_dim( std::integer_sequence<int,2,3,4,5,6>(), n, [&]( auto k )
    {
        constexpr int N = decltype( k )::value;
        auto const x = gen<T,N,1>( g ); auto const y = gen<T,1,N>( g );
        auto const xt = transposed( x ); auto const yt = transposed( y );
        PBT_LOG( c, "x=" << str( x ) << " y=" << str( y ) );
        PBT_CHECK( c, xt.rows() == 1 && xt.columns() == N && yt.rows() == N && yt.columns() == 1, "shape of a transposed vector" );
        for ( int i = 0; i < N; ++i ) PBT_CHECK( c, same( T( xt( 0, i ) ), T( x( i, 0 ) ) ) && same( T( yt( i, 0 ) ), T( y( 0, i ) ) ), "transposed vector: " << str( x ) << " -> " << str( xt ) << ", " << str( y ) << " -> " << str( yt ) );
        auto const back = transposed( xt );
        for ( int i = 0; i < N; ++i ) PBT_CHECK( c, same( T( back( i, 0 ) ), T( x( i, 0 ) ) ), "transposing twice" );
        c.cls( "transposed vector" );
    } );
    auto const A = gen<T,2,2>( g );
    auto const B = gen<T,2,2>( g );
    auto const A0 = A;
    auto const t = transposed( A ), tt = transposed( t );
    PBT_LOG( c, " A=" << str( A ) );
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j )
        PBT_CHECK( c, same( T( t( i, j ) ), T( A( j, i ) ) ) && same( T( tt( i, j ) ), T( A( i, j ) ) ) && same( T( A( i, j ) ), T( A0( i, j ) ) ), "transposed " << str( A ) << " is " << str( t ) << ", twice " << str( tt ) );
    auto const s = transposed( A + B ), s2 = t + transposed( B );
    for ( int i = 0; i < 4; ++i ) PBT_CHECK( c, same( T( s[i] ), T( s2[i] ) ), "transpose of a sum" );
    with_dim( std::integer_sequence<int,1,2,3,4,5,6>(), n, [&]( auto k )
    {
        constexpr int N = decltype( k )::value;
        auto const I = num::eye<T,N>();
        PBT_CHECK( c, I.rows() == N && I.columns() == N, "shape of the identity" );
        for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) PBT_CHECK( c, same( T( I( i, j ) ), T( i == j ? 1 : 0 ) ), "identity(" << i << "," << j << ") is " << val( T( I( i, j ) ) ) );
    } );
    c.nontriv( !( A( 0, 1 ) == A( 1, 0 ) ) );
}

// more elements than a byte can count
void large( Gen & g, Case & c )
{
    auto const x = gen_large<int,300,1>( g );
    auto const y = transposed( x );
    auto const z = transposed( y );
    static_assert( std::is_same<decltype( y ), num::matrix<int,1,300> const>::value && std::is_same<decltype( z ), num::matrix<int,300,1> const>::value, "shape" );
    for ( int i = 0; i < 300; ++i ) PBT_CHECK( c, y.begin()[i] == x.begin()[i] && z.begin()[i] == x.begin()[i], "transposed vector: element " << i );
    auto const I = num::eye<int,17>();
    for ( int i = 0; i < 17 * 17; ++i ) PBT_CHECK( c, I.begin()[i] == ( i / 17 == i % 17 ), "identity: element " << i << " is " << I.begin()[i] );
    c.nontriv( x.begin()[299] != 0 );
    c.cls( "more than 255 elements" );
}

template< typename T >
void scalar( Gen & g, Case & c )
{
    T v = g.chance( 1, 20 ) ? T( 0 ) : (T) g.real( -1e4, 1e4 );
    if ( std::fabs( (double) v ) < 1e-30 ) v = 0;
    T r = num::inverted( v );
    PBT_LOG( c, "1/" << v << " = " << r );
    if ( v == 0 ) { c.cls( "inverse of zero" ); PBT_CHECK( c, r == 0, "inverse of zero is " << r ); }
    else { PBT_CHECK( c, std::fabs( (L) r * v - 1 ) <= 2 * std::numeric_limits<T>::epsilon(), "inverse of " << v << " is " << r ); c.nontriv( v != 1 ); }
}

void scalar_fixed( Gen & g, Case & c )
{
    Fx v( Fx::construct, g.chance( 1, 20 ) ? 0 : (int32_t) g.range( -( 30 << 16 ), 30 << 16 ) );
    L x = val( v );
    if ( x != 0 && std::fabs( x ) < 1.0L / 16384 ) throw Discard();
    Fx r = num::inverted( v );
    PBT_LOG( c, "1/" << x << " = " << val( r ) );
    if ( x == 0 ) { c.cls( "inverse of zero" ); PBT_CHECK( c, val( r ) == 0, "inverse of zero is " << val( r ) ); }
    else { PBT_CHECK( c, std::fabs( val( r ) - 1 / x ) < std::ldexp( 1.0L, -16 ), "inverse of " << x << " is " << val( r ) ); c.nontriv( x != 1 ); }
}

template< typename T >
void inverse2( Gen & g, Case & c )
{
    num::matrix<T,2,2> A( (T) 0 );
    double lim = g.pick( { 10.0, 1.0, 1000.0, 0.01 } );
    for ( auto & e : A ) e = (T) g.real( -lim, lim );
    bool symmetric = g.coin();
    if ( symmetric ) A( 1, 0 ) = A( 0, 1 );
    Mat a = ref::from( A );
    L ad = a( 0, 0 ) * a( 1, 1 ), bc = a( 0, 1 ) * a( 1, 0 ), det = ad - bc, mag = std::fabs( ad ) + std::fabs( bc );
    L eps = std::numeric_limits<T>::epsilon();
    if ( !( mag > 1e-12L ) || std::fabs( det ) < 64 * eps * mag ) { c.cls( "singular or nearly so" ); throw Discard(); }
    auto const A0 = A;
    auto const R = num::inverted( A );
    Mat r = ref::from( R ), w( 2, 2 ), e( 2, 2 );
    w( 0, 0 ) = a( 1, 1 ) / det; w( 0, 1 ) = -a( 0, 1 ) / det; w( 1, 0 ) = -a( 1, 0 ) / det; w( 1, 1 ) = a( 0, 0 ) / det;
    for ( int i = 0; i < 4; ++i ) e.a[i] = 16 * eps * std::fabs( w.a[i] ) * mag / std::fabs( det ) + std::numeric_limits<T>::min();
    PBT_LOG( c, "A=" << ref::str( a ) << " inverse " << ref::str( r ) );
    auto ok = [&]( Mat const & want, Mat const & err ) { for ( int i = 0; i < 4; ++i ) if ( !( std::fabs( r.a[i] - want.a[i] ) <= err.a[i] ) ) return false; return true; };
    for ( int i = 0; i < 4; ++i ) PBT_CHECK( c, A[i] == A0[i], "operand modified" );
    c.nontriv( std::fabs( a( 0, 1 ) ) + std::fabs( a( 1, 0 ) ) > 0 );
    c.cls( "symmetric", a( 0, 1 ) == a( 1, 0 ) ); c.cls( "not symmetric", a( 0, 1 ) != a( 1, 0 ) );
    if ( ok( w, e ) ) return;
    std::ostringstream os;
    os << "inverse of " << ref::str( a ) << " is " << ref::str( r ) << ", want " << ref::str( w );
    if ( ok( ref::tr( w ), ref::tr( e ) ) ) { c.finding( "inverse-2x2-transposed", os.str() ); return; }
    c.fail( os.str() );
}

Suite pbt::suite()
{
    return { "M04",
        "random vectors (length 1..6) and 2x2 matrices transposed once and twice, identity 1..6, vectors of 300 and the identity of 17, reciprocals incl. zero, and inverses of random symmetric and general 2x2 matrices away from singularity compared entry by entry. Non-trivial: transposition of a non-symmetric matrix, reciprocal of a number other than 0 and 1, inverse of a non-diagonal matrix.",
        { { "transpose double", 1, transpose<double> }, { "transpose int", 1, transpose<int> }, { "transpose fixed", 1, transpose<Fx> }, { "transpose large", 1, large },
          { "reciprocal double", 1, scalar<double> }, { "reciprocal float", 1, scalar<float> }, { "reciprocal fixed", 1, scalar_fixed },
          { "inverse double", 3, inverse2<double> }, { "inverse float", 2, inverse2<float> } },
        400000, 12000000, { "inverse of zero", "symmetric", "not symmetric", "transposed vector", "more than 255 elements" } };
}
