// element types of the matrix checks: generation and exact reading
#ifndef ELEM_HPP
#define ELEM_HPP
#include "num/fixed-point.hpp"
#include "fw/fixed_as_real.hpp"
#include "fw/pbt.hpp"
#include "fw/ref.hpp"
#include "num/matrix.hpp"
#include <array>
#include <utility>

namespace el {

using Fx = num::fixed_point<std::int32_t,15>;

template< typename T > struct Elem;

template<> struct Elem<int>
{
    static constexpr bool exact = true;
    static int gen( pbt::Gen & g ) { return g.chance( 1, 3 ) ? g.irange( -4, 4 ) : g.irange( -3000, 3000 ); }
};
template<> struct Elem<Fx>
{
    static constexpr bool exact = false;
    static Fx gen( pbt::Gen & g )
    {
        int32_t lim = 20 << 16;
        int32_t r = g.chance( 1, 3 ) ? (int32_t) g.range( -20, 20 ) * 65536 : (int32_t) g.range( -lim, lim );
        return Fx( Fx::construct, r );
    }
};
template< typename F > struct FElem
{
    static constexpr bool exact = false;
    static F gen( pbt::Gen & g ) { return (F) g.real( -1000, 1000 ); }
};
template<> struct Elem<double> : FElem<double> {};
template<> struct Elem<float> : FElem<float> {};

// doubles for which sums of products are exact
struct Dyadic { static double gen( pbt::Gen & g ) { return (double) g.range( -64, 64 ) / 8.0; } };

template< typename T > bool same( T const & a, T const & b ) { return a == b || ( a != a && b != b ); }

template< typename T > long double val( T const & x ) { return ref::real_of( x ); }

template< typename T, int N, int M >
num::matrix<T,N,M> gen( pbt::Gen & g )
{
    num::matrix<T,N,M> m( (T) 0 );
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = Elem<T>::gen( g );
    return m;
}
template< int N, int M >
num::matrix<double,N,M> gen_dyadic( pbt::Gen & g )
{
    num::matrix<double,N,M> m( 0.0 );
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = Dyadic::gen( g );
    return m;
}

// more elements than a byte can count: derived from few choices
template< typename T, int N, int M >
num::matrix<T,N,M> gen_large( pbt::Gen & g )
{
    num::matrix<T,N,M> m( (T) 0 );
    std::uint64_t s = g.draw( 1u << 20 );
    for ( int i = 0; i < N * M; ++i ) { s = s * 6364136223846793005u + 1442695040888963407u; m.begin()[i] = (T) ( (int) ( s >> 40 ) % 100 ); }
    return m;
}

template< typename M > std::string str( M const & m ) { return ref::str( ref::from( m ) ); }

template< typename T, int N, int M, std::size_t... I >
num::matrix<T,N,M> from_list( std::array<T,N * M> const & v, std::index_sequence<I...> ) { return { v[I]... }; }

template< int... I > std::integer_sequence<int,( I + 1 )...> dims_( std::integer_sequence<int,I...> );
template< int L > using dims = decltype( dims_( std::make_integer_sequence<int,L>() ) );

// call f<n>() for a run-time n
template< int... Ns, typename F >
void with_dim( std::integer_sequence<int,Ns...>, int n, F f )
{
    bool done = false;
    (void) std::initializer_list<int>{ ( !done && n == Ns ? ( done = true, f( std::integral_constant<int,Ns>() ), 0 ) : 0 )... };
}

} // namespace el
#endif
