// device side of A01: one operation of one fixed-point format per call, operands and results in the mailbox
#include "num/fixed-point.hpp"
#include <stdint.h>

extern "C" {
volatile int64_t m_a, m_b, m_r, m_r2;
volatile float   m_f;
volatile uint8_t m_bits;
}

// the control group: plain arithmetic that does not involve the library
extern "C" __attribute__((noinline,used)) void control( uint8_t op )
{
    switch ( op )
    {
    case 0: m_r = m_a * m_b; break;
    case 1: m_r = m_a / m_b; break;
    case 2: m_r = (int32_t) m_a % (int32_t) m_b; break;
    case 3: m_r = (int16_t) m_a * (int32_t)(int16_t) m_b; break;
    case 4: m_f = (float) m_a; break;
    case 5: m_f = (float)(int32_t) m_a * (float)(int32_t) m_b; break;
    case 6: m_f = (float)(int32_t) m_a / (float)(int32_t) m_b; break;
    case 7: m_f = (float)(int32_t) m_a - (float)(int32_t) m_b; break;
    case 8: m_r = m_a >> (uint8_t) m_b; break;
    case 9: m_r = (int64_t)( (float) m_a ); break;
    }
}

template< typename X >
__attribute__((noinline)) void run( uint8_t op )
{
    using R = typename X::rep;
    auto const A = [] { return X( X::construct, (R) m_a ); };
    auto const B = [] { return X( X::construct, (R) m_b ); };
    auto const out = []( X x ) { m_r = x.underlying_value(); };
    switch ( op )
    {
    case 0: out( A() + B() ); break;
    case 1: out( A() - B() ); break;
    case 2: out( A() * B() ); break;
    case 3: out( A() / B() ); break;
    case 4: out( -A() ); break;
    case 5: out( +A() ); break;
    case 6: { X t = A(); X r = ( t += B() ); out( t ); m_r2 = r.underlying_value(); } break;
    case 7: { X t = A(); X r = ( t -= B() ); out( t ); m_r2 = r.underlying_value(); } break;
    case 8: { X t = A(); X r = ( t *= B() ); out( t ); m_r2 = r.underlying_value(); } break;
    case 9: { X t = A(); X r = ( t /= B() ); out( t ); m_r2 = r.underlying_value(); } break;
    case 10: { X const a = A(), b = B(); m_bits = ( a == b ) | ( a != b ) << 1 | ( a < b ) << 2 | ( a <= b ) << 3 | ( a > b ) << 4 | ( a >= b ) << 5; } break;
    case 11: out( X( m_f ) ); break;
    case 12: { X x; x = (double) m_f; out( x ); } break;
    case 13: out( X( (int8_t) m_a ) ); break;
    case 14: out( X( (int16_t) m_a ) ); break;
    case 15: out( X( (int32_t) m_a ) ); break;
    case 16: out( X( (int64_t) m_a ) ); break;
    case 17: out( X( (uint8_t) m_a ) ); break;
    case 18: out( X( (uint16_t) m_a ) ); break;
    case 19: out( X( (uint32_t) m_a ) ); break;
    case 20: m_r = A().template as<int8_t>(); break;
    case 21: m_r = A().template as<int16_t>(); break;
    case 22: m_r = A().template as<int32_t>(); break;
    case 23: m_r = A().template as<int64_t>(); break;
    case 24: m_r = A().template as<uint8_t>(); break;
    case 25: m_r = A().template as<uint16_t>(); break;
    case 26: m_r = A().template as<uint32_t>(); break;
    case 27: m_f = A().template as<float>(); break;
    case 28: m_f = A().template as<double>(); break;
    case 29: m_f = A().as_double(); break;
    case 30: { X const a = A(); m_r = a.min().underlying_value(); m_r2 = a.max().underlying_value(); } break;
    case 31: { X const a = A(); X const b = num::from_rep<X>()( num::to_rep<X>()( a ) ); out( b ); m_r2 = num::from_value<X,R>()( (R) m_a ).underlying_value(); } break;
    case 32: { X const a = A(); X b( a ), c; c = b; X d( std20::move( b ) ); m_r = c.underlying_value(); m_r2 = d.underlying_value(); } break;
    case 33: { X a = A(), b = B(); std20::swap( a, b ); m_r = a.underlying_value(); m_r2 = b.underlying_value(); } break;
    case 34: { X x; out( x ); m_r2 = X{}.underlying_value(); } break;
    case 35: out( A() + (int16_t) m_b ); break;             // one operand is a plain number
    case 36: out( (int16_t) m_b - A() ); break;
    case 37: out( A() - m_f ); break;
    case 38: { X const a = A(); int16_t const n = (int16_t) m_b; m_bits = ( a == n ) | ( a != n ) << 1 | ( a < n ) << 2 | ( a <= n ) << 3 | ( n < a ) << 4 | ( a >= n ) << 5; } break;
    case 39: m_r = X::fractional_digits; m_r2 = X::integer_digits; m_bits = X::digits; break;
    }
}

using num::fixed_point;
#define FORMAT( T, I ) extern "C" __attribute__((used)) void format_##I( uint8_t op ) { run< fixed_point<T,I> >( op ); }

#if REP == 8
FORMAT( int8_t, 0 ) FORMAT( int8_t, 1 ) FORMAT( int8_t, 3 ) FORMAT( int8_t, 4 ) FORMAT( int8_t, 7 )
#elif REP == 16
FORMAT( int16_t, 0 ) FORMAT( int16_t, 3 ) FORMAT( int16_t, 7 ) FORMAT( int16_t, 8 ) FORMAT( int16_t, 12 ) FORMAT( int16_t, 15 )
#else
FORMAT( int32_t, 0 ) FORMAT( int32_t, 8 ) FORMAT( int32_t, 15 ) FORMAT( int32_t, 16 ) FORMAT( int32_t, 28 ) FORMAT( int32_t, 31 )
#endif

int main() { for (;;) {} }
