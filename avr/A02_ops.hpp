// The operations of A02, compiled both for the device and for the host: each takes its operands from in[] and leaves its results in out[].
#ifndef A02_OPS_HPP
#define A02_OPS_HPP
#include "dsp/kalman.hpp"
#include "num/fixed-point.hpp"
#include <stdint.h>

using num::matrix; using num::colvec; using num::rowvec;

enum { op_count = 76, max_in = 34, max_out = 20 };

template< typename T, int N, int M >
matrix<T,N,M> take( T const * & in ) { matrix<T,N,M> r( (T) 0 ); for ( int i = 0; i < N * M; ++i ) r.at( i ) = *in++; return r; }

template< typename T, int N, int M >
void give( T * & out, matrix<T,N,M> const & m ) { for ( int i = 0; i < N * M; ++i ) *out++ = m.at( i ); }

template< typename T > void give( T * & out, T v ) { *out++ = v; }

// a matrix of more elements than a byte counts, and a look at it: at the ends, around element 256 and at some element
using Wide = matrix<uint8_t,16,17>;
template< typename T > void probe( T * & out, Wide const & m, uint8_t at )
{
    give( out, (T)(int) ( m.at( 0 ) % 100 ) ); give( out, (T)(int) ( m.at( 255 ) % 100 ) ); give( out, (T)(int) ( m.at( 256 ) % 100 ) ); give( out, (T)(int) ( m.at( 258 ) % 100 ) ); give( out, (T)(int) ( m.at( 271 ) % 100 ) ); give( out, (T)(int) ( m.at( at ) % 100 ) );
    uint8_t sum = 0; for ( auto e : m ) sum = (uint8_t)( 3 * sum + e ); give( out, (T)(int) ( sum % 100 ) );
}
#define A02_TIMES_4( a, b ) a, b, a, b
#define A02_TIMES_16( a, b ) A02_TIMES_4( a, b ), A02_TIMES_4( b, a ), A02_TIMES_4( a, a ), A02_TIMES_4( b, b )
#define A02_TIMES_64( a, b ) A02_TIMES_16( a, b ), A02_TIMES_16( b, a ), A02_TIMES_16( a, a ), A02_TIMES_16( b, b )

template< typename T >
#ifdef __AVR
__attribute__((noinline))
#endif
void matrix_op( uint8_t op, T const * in, T * out )
{
    using M1 = matrix<T,1,1>; using M2 = matrix<T,2,2>; using M3 = matrix<T,3,3>;
    using C2 = colvec<T,2>; using R2 = rowvec<T,2>; using C3 = colvec<T,3>; using R3 = rowvec<T,3>;
    auto const v  = [&] { return *in++; };
    auto const m1 = [&] { return take<T,1,1>( in ); };
    auto const m2 = [&] { return take<T,2,2>( in ); };
    auto const m3 = [&] { return take<T,3,3>( in ); };
    auto const c2 = [&] { return take<T,2,1>( in ); };
    auto const r2 = [&] { return take<T,1,2>( in ); };
    auto const c3 = [&] { return take<T,3,1>( in ); };
    auto const r3 = [&] { return take<T,1,3>( in ); };
    auto const w  = [&] { return take<T,2,3>( in ); };
    switch ( op )
    {
    // construction and access
    case 0: { M2 m{}; give( out, m ); M3 n{}; give( out, n ); } break;
    case 1: { T x = v(); matrix<T,2,3> m( x ); give( out, m ); } break;
    case 2: { T a = v(), b = v(), c = v(), d = v(); M2 m{ a, b, c, d }; give( out, m ); } break;
    case 3: { T a = v(), b = v(); M3 m{ a, b }; give( out, m ); } break;               // the rest is zero
    case 4: { T a = v(); M3 m = { a, a, a, v(), v(), v(), v(), v(), v() }; give( out, m ); } break;
    case 5: { auto const a = w(); for ( int r = 0; r < a.rows(); ++r ) for ( int c = 0; c < a.columns(); ++c ) give( out, a( r, c ) ); give( out, (T) a.size() ); } break;
    case 6: { auto a = w(); T x = v(); a( 1, 2 ) = x; a[1] = v(); a( 0 ) = v(); a.at( 1, 0 ) = v(); give( out, a ); } break;
    case 7: { auto const a = w(); for ( auto const & e : a ) give( out, e ); give( out, (T)( a.end() - a.begin() ) ); } break;
    case 8: { auto a = w(); for ( auto & e : a ) e = e + (T) 1; give( out, a ); } break;
    case 9: { auto const a = m2(); M2 b( a ), c( (T) 0 ); c = b; M2 d( std20::move( b ) ); M2 e( (T) 1 ); e = std20::move( c ); give( out, d ); give( out, e ); } break;
    case 10: { auto a = m2(), b = m2(); std20::swap( a, b ); give( out, a ); give( out, b ); } break;
    case 11: { auto a = w(), b = w(); give( out, (T)( std20::equal( a.begin(), a.end(), b.begin() ) ? 1 : 0 ) ); give( out, (T)( std20::equal( a.begin(), a.end(), a.begin() ) ? 1 : 0 ) );
               give( out, (T)( std20::equal( a.begin(), a.end(), b.begin(), []( T x, T y ) { return x <= y; } ) ? 1 : 0 ) ); } break;
    case 12: { auto a = m3(); M3 b( (T) 1 ); auto e = std20::copy( a.begin(), a.begin() + 5, b.begin() ); give( out, b ); give( out, (T)( e - b.begin() ) ); } break;
    case 13: { auto a = m3(); std20::fill( a.begin() + 2, a.begin() + 7, v() ); give( out, a ); } break;
    case 14: give( out, num::eye<T,2>() ); give( out, num::eye<T,3>() ); break;
    // 1x1
    case 15: { auto a = m1(); give( out, a + v() ); } break;
    case 16: { T a = v(); give( out, a + m1() ); } break;
    case 17: { auto a = m1(); give( out, a - v() ); } break;
    case 18: { T a = v(); give( out, a - m1() ); } break;
    case 19: { auto a = m1(); give( out, a * v() ); } break;
    case 20: { T a = v(); give( out, a * m1() ); } break;
    case 21: { auto a = m2(); give( out, a + m1() ); } break;
    case 22: { auto a = m1(); give( out, a + m2() ); } break;
    case 23: { auto a = m1(); give( out, a * m1() ); } break;
    case 24: { auto a = w(); give( out, a * m1() ); } break;
    case 25: { auto a = m1(); give( out, a * w() ); } break;
    // vectors
    case 26: { auto a = r2(); give( out, a * c2() ); } break;
    case 27: { auto a = r3(); give( out, a * c3() ); } break;
    case 28: { auto a = c2(); give( out, a * r2() ); } break;
    case 29: { auto a = c3(); give( out, a * r3() ); } break;
    case 30: give( out, transposed( c2() ) ); break;
    case 31: give( out, transposed( r2() ) ); break;
    case 32: give( out, transposed( c3() ) ); break;
    case 33: give( out, transposed( r3() ) ); break;
    case 34: { auto a = c3(); give( out, a + c3() ); } break;
    case 35: { auto a = r3(); give( out, a - r3() ); } break;
    // matrices
    case 36: { auto a = m2(); give( out, a + v() ); } break;
    case 37: { T a = v(); give( out, a + m2() ); } break;
    case 38: { auto a = m2(); give( out, a - v() ); } break;
    case 39: { auto a = w(); give( out, a * v() ); } break;
    case 40: { T a = v(); give( out, a * w() ); } break;
    case 41: { auto a = m2(); give( out, a + m2() ); } break;
    case 42: { auto a = m2(); give( out, a - m2() ); } break;
    case 43: { auto a = w(); give( out, a + w() ); } break;
    case 44: { auto a = w(); give( out, a - w() ); } break;
    case 45: { auto a = m2(); give( out, a * m2() ); } break;
    case 46: { auto a = m3(); give( out, a * m3() ); } break;
    case 47: { auto a = r2(); give( out, a * m2() ); } break;
    case 48: { auto a = r3(); give( out, a * m3() ); } break;
    case 49: { auto a = m2(); give( out, a * c2() ); } break;
    case 50: { auto a = m3(); give( out, a * c3() ); } break;
    case 51: give( out, transposed( m2() ) ); break;
    case 52: { auto a = m3(); give( out, a + m3() ); } break;
    case 53: { auto a = m3(); give( out, a - v() ); } break;
    // expressions as the estimator uses them
    case 54: { auto a = m2(), p = m2(), q = m2(); give( out, a * p * transposed( a ) + q ); } break;
    case 55: { auto k = m2(), h = m2(), p = m2(); give( out, ( num::eye<T,2>() - k * h ) * p ); } break;
    case 56: { auto a = m2(), b = m2(); auto x = c2(), u = c2(); give( out, a * x + b * u ); } break;
    case 57: { auto p = m2(); auto h = r2(); auto r = m1(); give( out, h * p * transposed( h ) + r ); } break;
    case 58: { auto p = m2(); auto h = r2(); give( out, p * transposed( h ) * v() ); } break;
    // inverse: the tests of the harness see to it that it exists
    case 59: give( out, num::inverted( v() ) ); break;
    case 60: give( out, num::inverted( (T) 0 ) ); break;
    case 61: give( out, num::inverted( m2() ) ); break;
    // std stand-ins on elements
    case 62: { T a = v(), b = v(); std20::swap( a, b ); give( out, a ); give( out, b ); } break;
    case 63: { T a = v(); T b = std20::move( a ); give( out, b ); } break;
    case 64: { std::initializer_list<T> il = { in[0], in[1], in[2], in[3], in[4] }; T n = (T) 0; for ( auto e : il ) give( out, e ); for ( auto p = std::begin( il ); p != std::end( il ); ++p ) n = n + (T) 1; give( out, n ); give( out, (T)(int) il.size() ); } break;
    // shapes that are not square
    case 70: { auto a = w(); give( out, a * take<T,3,2>( in ) ); } break;
    case 71: { auto a = take<T,3,2>( in ); give( out, a * w() ); } break;
    case 72: { auto a = m2(); give( out, a * w() ); } break;
    case 73: { auto a = r2(); give( out, a * w() ); } break;
    case 74: { auto a = w(); give( out, a * c3() ); } break;
    case 75: { auto a = m1(); give( out, a + m1() ); } break;
    // more elements than a byte counts
    case 66: { uint8_t const * const b = (uint8_t const *) in; Wide m = { A02_TIMES_64( b[0], b[1] ), A02_TIMES_64( b[2], b[3] ), A02_TIMES_64( b[4], b[5] ), A02_TIMES_64( b[6], b[7] ), b[8], b[9], b[10] }; probe<T>( out, m, b[11] ); } break;
    case 67: { uint8_t const * const b = (uint8_t const *) in; Wide m( (uint8_t) 0 ); uint8_t n = b[0]; for ( auto & e : m ) e = n += b[1]; Wide k( m ); std20::fill( k.begin() + 1 + b[2] % 8, k.end() - b[3] % 8, b[4] ); probe<T>( out, k, b[5] );
               give( out, (T)( std20::equal( m.begin(), m.end(), k.begin() ) ? 1 : 0 ) ); k = m; give( out, (T)( std20::equal( m.begin(), m.end(), k.begin() ) ? 1 : 0 ) ); k.at( 256 + b[5] % 16 ) ^= 1; give( out, (T)( std20::equal( m.begin(), m.end(), k.begin() ) ? 1 : 0 ) ); } break;
    case 68: { uint8_t const * const b = (uint8_t const *) in; Wide m( b[0] ); for ( int r = 0; r < m.rows(); ++r ) for ( int c = 0; c < m.columns(); ++c ) m( r, c ) = (uint8_t)( r * b[1] + c * b[2] ); probe<T>( out, m, b[3] ); give( out, (T)( m.size() == 272 && m.end() - m.begin() == 272 ? 1 : 0 ) ); } break;
    case 69: { uint8_t const * const b = (uint8_t const *) in; Wide m( b[0] ); uint8_t n = 0; for ( auto & e : m ) e = n += b[1]; Wide k( b[2] ); auto e = std20::copy( m.begin() + b[3] % 8, m.end(), k.begin() ); give( out, (T)( e - k.begin() == 272 - b[3] % 8 ? 1 : 0 ) ); probe<T>( out, k, b[4] ); } break;
    case 65: { std::initializer_list<T> il; give( out, (T)(int) il.size() ); give( out, (T)( il.begin() == il.end() ? 1 : 0 ) ); } break;
    }
}

// one estimator per device program and dimension
template< typename T, int M, int U >
struct Estimator
{
    using K = num::kalman<T,2,M,U>;
    // in: dt A B H Q R P x
    static K make( T const * in )
    {
        T dt = *in++;
        auto A = take<T,2,2>( in ); auto B = take<T,2,U>( in ); auto H = take<T,M,2>( in ); auto Q = take<T,2,2>( in );
        auto R = take<T,M,M>( in ); auto P = take<T,2,2>( in ); auto x = take<T,2,1>( in );
        return K( dt, A, B, H, Q, R, P, x );
    }
    // in: u z
    static void update( K & k, T const * in )
    {
        auto u = take<T,U,1>( in ); auto z = take<T,M,1>( in );
        k.update( u, z );
    }
    // out: t x P K
    static void observe( K const & k, T * out, bool gain )
    {
        give( out, k.time() ); give( out, k.system_state() ); give( out, k.estimation_error_covariance() );
        if ( gain ) give( out, k.kalman_gain() );
    }
};

#endif
