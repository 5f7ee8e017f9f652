// generation of fixed-point representations, biased to boundaries
#ifndef FIXED_GEN_HPP
#define FIXED_GEN_HPP
#include "num/fixed-point.hpp"
#include "fw/fixed_as_real.hpp"
#include "fw/pbt.hpp"

namespace fx {

typedef __int128 W;

template< typename X > struct Fmt;
template< typename R, int I, int F_ > struct Fmt< num::fixed_point<R,I,F_> >
{
    using rep = R;
    static constexpr int F = F_;
    static constexpr int64_t lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
    static std::string name() { return std::to_string( sizeof( R ) * 8 ) + "-bit " + std::to_string( I ) + "." + std::to_string( F_ ); }
};

inline bool fits( W v, int64_t lo, int64_t hi ) { return v >= lo && v <= hi; }

template< typename X >
typename Fmt<X>::rep gen_rep( pbt::Gen & g )
{
    using M = Fmt<X>;
    int64_t lo = M::lo, hi = M::hi;
    int64_t v = 0;
    switch ( g.draw( 5 ) )
    {
    case 0: v = g.range( -3, 3 ); break;
    case 1: v = g.coin() ? hi - g.range( 0, 3 ) : lo + g.range( 0, 3 ); break;
    case 2: { int b = g.irange( 0, 8 * (int) sizeof( typename M::rep ) - 2 ); v = ( int64_t( 1 ) << b ) + g.range( -1, 1 ); if ( g.coin() ) v = -v; } break;
    case 3: v = ( g.range( -9, 9 ) * ( int64_t( 1 ) << M::F ) ) / ( g.coin() ? 2 : 1 ) + g.range( -1, 1 ); break;
    default: v = g.range( lo, hi ); break;
    }
    return (typename M::rep) std::min( hi, std::max( lo, v ) );
}

template< typename X > X make( int64_t r ) { return X( X::construct, (typename Fmt<X>::rep) r ); }

template< typename F > void formats( pbt::Gen & g, F f )
{
    using num::fixed_point;
    #define FX_CASE(n, T, I) case n: f( fixed_point<T,I>{} ); break;
    switch ( g.draw( 22 ) )
    {
    FX_CASE( 0, std::int32_t, 15 ) FX_CASE( 1, std::int8_t, 0 ) FX_CASE( 2, std::int8_t, 1 ) FX_CASE( 3, std::int8_t, 2 ) FX_CASE( 4, std::int8_t, 3 )
    FX_CASE( 5, std::int8_t, 4 ) FX_CASE( 6, std::int8_t, 5 ) FX_CASE( 7, std::int8_t, 6 ) FX_CASE( 8, std::int8_t, 7 )
    FX_CASE( 9, std::int16_t, 0 ) FX_CASE( 10, std::int16_t, 3 ) FX_CASE( 11, std::int16_t, 7 ) FX_CASE( 12, std::int16_t, 8 ) FX_CASE( 13, std::int16_t, 12 ) FX_CASE( 14, std::int16_t, 15 )
    FX_CASE( 15, std::int32_t, 0 ) FX_CASE( 16, std::int32_t, 4 ) FX_CASE( 17, std::int32_t, 8 ) FX_CASE( 18, std::int32_t, 16 ) FX_CASE( 19, std::int32_t, 20 )
    FX_CASE( 20, std::int32_t, 28 ) FX_CASE( 21, std::int32_t, 31 ) FX_CASE( 22, std::int32_t, 11 )
    }
    #undef FX_CASE
}

} // namespace fx
#endif
