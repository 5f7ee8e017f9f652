// F01: conversion into and out of fixed-point is exact to half a unit.
// fuzz: quick=20000 thorough=400000
#include "fw/fixed_gen.hpp"

using namespace pbt;
using namespace fx;

// exact: nearest integer to v * 2^F, ties away from zero
template< int F > W nearest( long double v )
{
    long double s = std::ldexp( v, F );       // exact
    long double t = std::trunc( s ), r = s - t;
    W n = (W) t;
    if ( r >= 0.5L ) ++n; else if ( r <= -0.5L ) --n;
    return n;
}

template< typename X, typename T >
void from_real( Gen & g, Case & c )
{
    using M = Fmt<X>;
    int64_t r = gen_rep<X>( g );
    // a number at a chosen position between two representable ones
    double frac = g.pick( { 0.0, 0.5, 0.25, 0.75, 0.4999, 0.5001, 1.0 / 3 } );
    if ( g.chance( 1, 6 ) ) frac = g.unit();
    long double exact = std::ldexp( (long double) r + ( g.coin() ? frac : -frac ), -M::F );
    T v = (T) exact;
    if ( g.chance( 1, 4 ) ) v = std::nextafter( v, (T)( g.coin() ? 1e30 : -1e30 ) );
    W want = nearest<M::F>( v );
    if ( !fits( want, M::lo, M::hi ) ) throw Discard();
    X x( v );
    PBT_LOG( c, M::name() << " from " << (double) v << " -> " << (long long) x.underlying_value() );
    PBT_CHECK( c, x.underlying_value() == want, M::name() << " from " << ( sizeof( T ) == 4 ? "float " : "double " ) << (double) v << ": representation " << (long long) x.underlying_value() << " want " << (long long) want );
    X y; y = v;
    PBT_CHECK( c, y.underlying_value() == want, M::name() << " assigned from " << (double) v << ": representation " << (long long) y.underlying_value() );
    c.nontriv( want != 0 );
    c.cls( "tie", std::fabs( std::ldexp( (long double) v, M::F ) - std::trunc( std::ldexp( (long double) v, M::F ) ) ) == 0.5L );
    c.cls( "negative", v < 0 );
    c.cls( "at an extreme", want == M::lo || want == M::hi );
}

template< typename X, typename T >
void from_int( Gen & g, Case & c )
{
    using M = Fmt<X>;
    W v;
    if ( g.coin() ) v = g.range( -5, 5 ); else v = gen_rep<X>( g ) / ( W( 1 ) << M::F );
    if ( v < (W) std::numeric_limits<T>::min() || v > (W) std::numeric_limits<T>::max() ) throw Discard();
    W want = v * ( W( 1 ) << M::F );
    if ( !fits( want, M::lo, M::hi ) ) throw Discard();
    X x( (T) v );
    PBT_LOG( c, M::name() << " from integer " << (long long) v );
    PBT_CHECK( c, x.underlying_value() == want, M::name() << " from integer " << (long long) v << ": representation " << (long long) x.underlying_value() << " want " << (long long) want );
    c.nontriv( v != 0 ); c.cls( "from integer" );
}

template< typename X, typename T >
void to_int( Case & c, int64_t r )
{
    using M = Fmt<X>;
    W want = (W) r / ( W( 1 ) << M::F );
    if ( want < (W) std::numeric_limits<T>::min() || want > (W) std::numeric_limits<T>::max() ) return;
    if ( !std::numeric_limits<T>::is_signed && r < 0 ) return;
    auto got = make<X>( r ).template as<T>();
    PBT_CHECK( c, (W) got == want, M::name() << " representation " << (long long) r << " as " << ( std::numeric_limits<T>::is_signed ? "signed " : "unsigned " ) << sizeof( T ) * 8 << "-bit integer is " << (long long) got << " want " << (long long) want );
}

template< typename X >
void out( Gen & g, Case & c )
{
    using M = Fmt<X>;
    int64_t r = gen_rep<X>( g );
    X x = make<X>( r );
    long double exact = std::ldexp( (long double) r, -M::F );
    PBT_LOG( c, M::name() << " representation " << r << " value " << exact );
    PBT_CHECK( c, x.underlying_value() == r, "representation " << r << " reads back as " << (long long) x.underlying_value() );
    PBT_CHECK( c, (long double) x.as_double() == exact, M::name() << " representation " << r << " as_double " << x.as_double() );
    PBT_CHECK( c, (long double) x.template as<double>() == exact, M::name() << " representation " << r << " as<double> " << x.template as<double>() );
    float f = x.template as<float>();
    PBT_CHECK( c, f == (float) exact, M::name() << " representation " << r << " as<float> " << f );
    to_int<X,int>( c, r ); to_int<X,long>( c, r ); to_int<X,long long>( c, r ); to_int<X,short>( c, r ); to_int<X,signed char>( c, r );
    to_int<X,unsigned>( c, r ); to_int<X,unsigned char>( c, r ); to_int<X,unsigned short>( c, r ); to_int<X,unsigned long long>( c, r );
    PBT_CHECK( c, num::to_rep<X>()( x ) == r && num::from_rep<X>()( (typename M::rep) r ) == x, "extracting or reinstating representation " << r );
    auto v = num::from_value<X,typename M::rep>()( (typename M::rep) r );
    PBT_CHECK( c, v.underlying_value() == r, "from_value of representation " << r );
    PBT_CHECK( c, x.min().underlying_value() == M::lo && x.max().underlying_value() == M::hi, M::name() << " limits are " << (long long) x.min().underlying_value() << " .. " << (long long) x.max().underlying_value() );
    PBT_CHECK( c, X::fractional_digits == M::F && X::integer_digits + X::fractional_digits == X::digits, M::name() << " digit counts" );
    // round trip
    PBT_CHECK( c, X( x.as_double() ) == x, M::name() << " representation " << r << " does not survive the round trip through double" );
    if ( (long double) f == exact ) { PBT_CHECK( c, X( f ) == x, M::name() << " representation " << r << " does not survive the round trip through float: " << (long long) X( f ).underlying_value() ); c.cls( "float round trip" ); }
    X copy( x ), moved( std::move( copy ) ), assigned; assigned = x;
    PBT_CHECK( c, moved.underlying_value() == r && assigned.underlying_value() == r, "copy, move, assignment" );
    c.nontriv( r != 0 ); c.cls( "out of fixed-point" ); c.cls( "negative", r < 0 ); c.cls( "fraction", r % ( int64_t( 1 ) << M::F ) != 0 );
}

Suite pbt::suite()
{
    return { "F01",
        "23 formats over 8, 16 and 32-bit representations; floating-point numbers at chosen positions between representable ones (ties, just beside ties, extremes), integers of several types, and representations biased to boundaries; compared with exact integer arithmetic. Non-trivial: the represented value is not zero.",
        { { "from double", 3, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { from_real<decltype( x ),double>( g, c ); } ); } },
          { "from float", 3, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { from_real<decltype( x ),float>( g, c ); } ); } },
          { "from int", 1, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { switch ( g.draw( 4 ) ) {
                case 0: from_int<decltype( x ),int>( g, c ); break; case 1: from_int<decltype( x ),signed char>( g, c ); break;
                case 2: from_int<decltype( x ),unsigned>( g, c ); break; case 3: from_int<decltype( x ),long long>( g, c ); break; case 4: from_int<decltype( x ),unsigned short>( g, c ); break; } } ); } },
          { "out", 3, []( Gen & g, Case & c ) { formats( g, [&]( auto x ) { out<decltype( x )>( g, c ); } ); } } },
        1500000, 60000000, { "tie", "negative", "at an extreme", "from integer", "fraction", "float round trip" } };
}
