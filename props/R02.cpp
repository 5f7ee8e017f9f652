// R02: indices cover exactly the valid positions of a sequence.
// fuzz: quick=15000 thorough=300000
#include "fw/pbt.hpp"
#include "core/range.hpp"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>

using namespace pbt;

template< typename S >
struct Sized { S n; S size() const { return n; } };

// a counter per position: each must be visited exactly once, in increasing order
template< typename P >
void visited_once( Gen & g, Case & c, P const & r, std::size_t n, char const * what )
{
    PBT_LOG( c, what << " of " << n << "; " );
    for ( int pass = 0; pass < 2; ++pass )
    {
        std::vector<int> hits( n, 0 );
        std::size_t k = 0;
        auto visit = [&]( auto i )
        {
            PBT_CHECK( c, (std::size_t) i == k && k < n, "index " << k << " of " << what << " of " << n << " elements is " << +i );
            ++hits[(std::size_t) i]; ++k;
        };
        switch ( g.draw( 2 ) )
        {
        case 0: for ( auto i : r ) visit( i ); break;
        case 1: for ( auto it = r.begin(); it != r.end(); ++it ) visit( *it ); break;
        case 2: { std::vector<std::size_t> v( r.begin(), r.end() ); for ( auto i : v ) visit( i ); } break;
        }
        PBT_CHECK( c, k == n, what << " of " << n << " elements has " << k << " indices" );
        for ( auto h : hits ) PBT_CHECK( c, h == 1, "a position of " << what << " is visited " << h << " times" );
    }
    c.nontriv( n > 1 );
    c.cls( "empty", n == 0 ); c.cls( "one", n == 1 ); c.cls( "many", n > 300 );
}

std::size_t length( Gen & g ) { return g.chance( 1, 6 ) ? 0 : g.chance( 1, 6 ) ? g.range( 200, 2000 ) : g.range( 1, 30 ); }

void containers( Gen & g, Case & c )
{
    std::size_t n = length( g );
    switch ( g.draw( 14 ) )
    {
    case 0: { std::vector<double> v( n ); visited_once( g, c, core::indices( v ), n, "vector" ); } break;
    case 1: { std::vector<bool> const v( n ); visited_once( g, c, core::indices( v ), n, "vector<bool>" ); } break;
    case 2: { std::string v( n, 'x' ); visited_once( g, c, core::indices( v ), n, "string" ); } break;
    case 3: { std::deque<short> v( n ); visited_once( g, c, core::indices( v ), n, "deque" ); } break;
    case 4: { std::map<int,int> v; for ( std::size_t i = 0; i < n; ++i ) v[i] = 1; visited_once( g, c, core::indices( v ), n, "map" ); } break;
    case 5: { std::multiset<int> v; for ( std::size_t i = 0; i < n; ++i ) v.insert( i / 3 ); visited_once( g, c, core::indices( v ), n, "multiset" ); } break;
    case 6: { std::list<std::string> v( n ); visited_once( g, c, core::indices( v ), n, "list" ); } break;
    case 7: { std::unordered_set<int> v; for ( std::size_t i = 0; i < n; ++i ) v.insert( i ); visited_once( g, c, core::indices( v ), n, "unordered_set" ); } break;
    case 8: { std::string s( n, 'y' ); std::string_view v( s ); visited_once( g, c, core::indices( v ), n, "string_view" ); } break;
    case 9: { visited_once( g, c, core::indices( std::vector<int>( n ) ), n, "temporary vector" ); } break;
    case 10: { Sized<int> v{ (int) n }; visited_once( g, c, core::indices( v ), n, "class with int size" ); } break;
    case 11: { n %= 60000; Sized<unsigned short> v{ (unsigned short) n }; visited_once( g, c, core::indices( v ), n, "class with short size" ); } break;
    case 12: { n %= 256; Sized<unsigned char> v{ (unsigned char) n }; visited_once( g, c, core::indices( v ), n, "class with char size" ); } break;
    case 13: { std::initializer_list<int> v = { 3, 1, 4, 1, 5 }; visited_once( g, c, core::indices( v ), 5, "named initializer_list" ); } break;
    case 14: { Sized<unsigned long long> const v{ n }; visited_once( g, c, core::indices( v ), n, "class with long long size" ); } break;
    }
    c.cls( "container", true );
}

template< std::size_t N >
void array_of( Gen & g, Case & c )
{
    switch ( g.draw( 3 ) )
    {
    case 0: { int a[N] = {}; visited_once( g, c, core::indices( a ), N, "array" ); } break;
    case 1: { std::string const a[N] = {}; visited_once( g, c, core::indices( a ), N, "array of const string" ); } break;
    case 2: { std::array<char,N> a = {}; visited_once( g, c, core::indices( a ), N, "std::array" ); } break;
    case 3: { double a[N][3] = {}; visited_once( g, c, core::indices( a ), N, "array of arrays" ); } break;
    }
    c.cls( "array", true );
}

void arrays( Gen & g, Case & c )
{
    switch ( g.draw( 8 ) )
    {
    case 0: array_of<1>( g, c ); break; case 1: array_of<2>( g, c ); break; case 2: array_of<3>( g, c ); break; case 3: array_of<7>( g, c ); break;
    case 4: array_of<16>( g, c ); break; case 5: array_of<255>( g, c ); break; case 6: array_of<256>( g, c ); break; case 7: array_of<257>( g, c ); break;
    case 8: { std::array<int,0> a; visited_once( g, c, core::indices( a ), 0, "std::array" ); } break;
    }
}

void lists( Gen & g, Case & c )
{
    switch ( g.draw( 5 ) )
    {
    case 0: visited_once( g, c, core::indices( { 7 } ), 1, "list" ); break;
    case 1: visited_once( g, c, core::indices( { 7, 8 } ), 2, "list" ); break;
    case 2: visited_once( g, c, core::indices( { 'a', 'b', 'c' } ), 3, "list" ); break;
    case 3: visited_once( g, c, core::indices( { 1.5, 2.5, 3.5, 4.5, 0.5, 0.5, 0.5, 0.5, 0.5 } ), 9, "list" ); break;
    case 4: visited_once( g, c, core::indices( std::initializer_list<std::string>{} ), 0, "list" ); break;
    case 5: visited_once( g, c, core::indices( std::initializer_list<std::string>{ "a", "b" } ), 2, "list" ); break;
    }
    c.cls( "list", true );
}

// indexing with them visits every element
void visit_elements( Gen & g, Case & c )
{
    std::size_t n = length( g );
    std::vector<int> v( n );
    for ( auto & x : v ) x = (int) g.range( -9, 9 );
    long sum = 0; for ( auto x : v ) sum += x;
    long got = 0; for ( auto i : core::indices( v ) ) got += v[i];
    PBT_CHECK( c, got == sum, "sum over indices of a vector of " << n );
    auto r = core::indices( v );            // the indices are those of the moment of the call
    v.push_back( 1 ); std::size_t m = 0; for ( auto i : r ) { (void) i; ++m; }
    PBT_CHECK( c, m == n, "growing the vector afterwards changes its indices" );
    auto & w = v; std::size_t m2 = 0; for ( auto i : core::indices( w ) ) { m2 += i == m2; }
    PBT_CHECK( c, m2 == n + 1, "indices of a vector of " << n + 1 );
    c.nontriv( n > 1 );
}

Suite pbt::suite()
{
    return { "R02",
        "indices() of C arrays, standard containers (also temporaries, const and empty ones), user classes with size() of several types and initialiser lists, walked by range-for, iterator loop and iterator pair, twice each, counting the visits of every position. Non-trivial: more than one element.",
        { { "containers", 6, containers }, { "arrays", 3, arrays }, { "lists", 1, lists }, { "elements", 2, visit_elements } },
        150000, 3000000, { "empty", "one", "many", "container", "array", "list" } };
}
