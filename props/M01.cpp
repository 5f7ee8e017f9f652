// M01: a matrix is a row-major array; indexing and iteration agree.
// fuzz: quick=10000 thorough=200000
#include "fw/elem.hpp"
#include <vector>

using namespace pbt;
using namespace el;

template< typename T, int N, int M >
void array( Gen & g, Case & c )
{
    using Mx = num::matrix<T,N,M>;
    struct Entry { Mx m; std::vector<T> model; };
    std::vector<Entry> pool;
    PBT_LOG( c, N << "x" << M << " " );

    auto verify = [&]( Entry & e )
    {
        Mx const & k = e.m;
        PBT_CHECK( c, k.rows() == N && k.columns() == M && k.size() == N * M, "dimensions " << k.rows() << "x" << k.columns() << " size " << k.size() << " of a " << N << "x" << M );
        int i = 0;
        for ( int r = 0; r < N; ++r ) for ( int s = 0; s < M; ++s, ++i )
        {
            T w = e.model[i];
            PBT_CHECK( c, same( T( k( r, s ) ), w ) && same( T( k.at( r, s ) ), w ), "element (" << r << "," << s << ") is " << val( T( k( r, s ) ) ) << " / " << val( T( k.at( r, s ) ) ) << " want " << val( w ) );
            PBT_CHECK( c, same( T( k[i] ), w ) && same( T( k( i ) ), w ) && same( T( k.at( i ) ), w ), "flat element " << i << " is " << val( T( k[i] ) ) << ", " << val( T( k( i ) ) ) << ", " << val( T( k.at( i ) ) ) << " want " << val( w ) );
            PBT_CHECK( c, &e.m( r, s ) == &e.m[i] && &e.m.at( r, s ) == &e.m( i ) && &e.m.at( i ) == &e.m[i], "mutable accesses of (" << r << "," << s << ") name different elements" );
        }
        i = 0;
        for ( auto const & v : k ) { PBT_CHECK( c, i < N * M && same( T( v ), e.model[i] ), "iteration: element " << i << " is " << val( T( v ) ) ); ++i; }
        PBT_CHECK( c, i == N * M && k.end() - k.begin() == N * M, "iteration visits " << i << " elements" );
        i = 0;
        for ( auto & v : e.m ) { PBT_CHECK( c, &v == &e.m[i], "mutable iteration: element " << i ); ++i; }
        PBT_CHECK( c, i == N * M, "mutable iteration visits " << i << " elements" );
    };

    int ops = 0, writes = 0, copies = 0;
    do
    {
        int op = pool.empty() ? (int) g.draw( 1 ) : (int) g.draw( 8 );
        std::size_t k = pool.empty() ? 0 : g.draw( pool.size() - 1 );
        int r = g.irange( 0, N - 1 ), s = g.irange( 0, M - 1 );
        switch ( op )
        {
        case 0:
            {
                std::array<T,N * M> a{};
                if constexpr ( N * M > 64 ) { auto m = gen_large<T,N,M>( g ); std::copy( m.begin(), m.end(), a.begin() ); }
                else for ( auto & v : a ) v = Elem<T>::gen( g );
                PBT_LOG( c, "list " );
                pool.push_back( { from_list<T,N,M>( a, std::make_index_sequence<N * M>() ), std::vector<T>( a.begin(), a.end() ) } );
            }
            break;
        case 1:
            {
                T v = Elem<T>::gen( g );
                PBT_LOG( c, "scalar " << val( v ) << " " );
                pool.push_back( { Mx( v ), std::vector<T>( N * M, v ) } );
            }
            break;
        case 2: case 3: case 4: case 5:
            {
                T v = Elem<T>::gen( g );
                auto & m = pool[k].m;
                int how = (int) g.draw( 5 ), i = r * M + s;
                PBT_LOG( c, "write(" << r << "," << s << ")#" << how << "=" << val( v ) << " " );
                switch ( how )
                {
                case 0: m( r, s ) = v; break;
                case 1: m.at( r, s ) = v; break;
                case 2: m[i] = v; break;
                case 3: m( i ) = v; break;
                case 4: m.at( i ) = v; break;
                case 5: *( m.begin() + i ) = v; break;
                }
                pool[k].model[i] = v;
                ++writes;
            }
            break;
        case 6: PBT_LOG( c, "copy " ); { Entry e = pool[k]; pool.push_back( e ); } ++copies; break;
        case 7: { std::size_t d = g.draw( pool.size() - 1 ); PBT_LOG( c, "assign " ); pool[d].m = pool[k].m; pool[d].model = std::vector<T>( pool[k].model ); } ++copies; break;
        case 8: PBT_LOG( c, "move " ); { Mx t( std::move( pool[k].m ) ); pool[k].m = std::move( t ); } break;
        }
        if ( pool.size() > 5 ) pool.erase( pool.begin() );
        for ( auto & e : pool ) verify( e );
    } while ( g.more( 10, ops, 60 ) );
    c.nontriv( N * M >= 2 && writes >= 1 );
    c.cls( "rectangular", N != M && N > 1 && M > 1 ); c.cls( "vector", ( N == 1 ) != ( M == 1 ) ); c.cls( "copy or assignment", copies > 0 );
    c.cls( "1x1", N * M == 1 );
}

template< typename T, int Max >
void any_shape( Gen & g, Case & c )
{
#ifdef PBT_FUZZ
    constexpr int L = 3;
#else
    constexpr int L = Max;
#endif
    int n = g.irange( 1, L ), m = g.irange( 1, L );
    with_dim( dims<L>(), n, [&]( auto N ) { with_dim( dims<L>(), m, [&]( auto M ) { array<T,decltype( N )::value,decltype( M )::value>( g, c ); } ); } );
}

// more elements than a byte can count
void large( Gen & g, Case & c )
{
    c.cls( "more than 255 elements" );
#ifndef PBT_FUZZ
    switch ( g.draw( 3 ) )
    {
    case 0: return array<int,17,16>( g, c );
    case 1: return array<int,1,300>( g, c );
    case 2: return array<int,300,1>( g, c );
    default: return array<int,20,20>( g, c );
    }
#endif
}

Suite pbt::suite()
{
    return { "M01",
        "matrices of every shape over double (1x1..5x5), int (up to 4x4) and fixed point (up to 3x3), and int of more than 255 elements (17x16, 20x20, 1x300, 300x1), built from lists and scalars, random sequences of writes through every access form, copies, assignments and moves, each compared with an array model after every operation. Non-trivial: at least two elements and one write.",
        { { "double", 2, any_shape<double,5> }, { "int", 1, any_shape<int,4> }, { "fixed point", 1, any_shape<Fx,3> }, { "large", 1, large } },
        60000, 2000000, { "rectangular", "vector", "1x1", "copy or assignment", "more than 255 elements" } };
}
