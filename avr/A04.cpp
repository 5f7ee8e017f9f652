// device side of A04: complex numbers
#include "std/complex.hpp"
#include <stdint.h>

using C = std20::complex<float>;
using I = std20::complex<int32_t>;

extern "C" {
         float   m_a[2], m_b[2], m_r[6];
         int32_t m_i[4], m_o[4];
         uint8_t m_same;
}

extern "C" __attribute__((used)) void op( uint8_t which )
{
    C const a( m_a[0], m_a[1] ), b( m_b[0], m_b[1] );
    float const s = m_b[0];
    C z, r;
    bool same = true;
    switch ( which )
    {
    case 0: z = C(); break;
    case 1: z = C( s ); break;
    case 2: z = a; break;
    case 3: { C c( a ); z = c; } break;
    case 4: { C c( 5, 6 ); C & q = ( c = s ); same = &q == &c; z = c; r = q; } break;
    case 5: { C c( 5, 6 ); C & q = ( c = a ); same = &q == &c; z = c; r = q; } break;
    case 6: { C c( 5, 6 ); I i( m_i[0], m_i[1] ); C & q = ( c = i ); same = &q == &c; z = c; r = q; } break;
    case 7: { I i( m_i[0], m_i[1] ); z = C( i ); } break;
    case 8: { C c( a ); c.real( s ); z = c; } break;
    case 9: { C c( a ); c.imag( s ); z = c; } break;
    case 10: { C c( 1, 1 ), d( 2, 2 ); c = d = a; z = c; r = d; } break;
    case 11: { C c( a ); c = c; z = c; } break;
    case 12: z = +a; break;
    case 13: z = -a; break;
    case 14: z = a + b; break;
    case 15: z = a - b; break;
    case 16: z = a * b; break;
    case 17: z = a / b; break;
    case 18: z = a + s; break;
    case 19: z = a - s; break;
    case 20: z = a * s; break;
    case 21: z = a / s; break;
    case 22: z = s + a; break;
    case 23: z = s - a; break;
    case 24: z = s * a; break;
    case 25: z = s / a; break;
    case 26: { C c( a ); C & q = ( c += b ); same = &q == &c; z = c; } break;
    case 27: { C c( a ); C & q = ( c -= b ); same = &q == &c; z = c; } break;
    case 28: { C c( a ); C & q = ( c *= b ); same = &q == &c; z = c; } break;
    case 29: { C c( a ); C & q = ( c /= b ); same = &q == &c; z = c; } break;
    case 30: { C c( a ); C & q = ( c += s ); same = &q == &c; z = c; } break;
    case 31: { C c( a ); C & q = ( c -= s ); same = &q == &c; z = c; } break;
    case 32: { C c( a ); C & q = ( c *= s ); same = &q == &c; z = c; } break;
    case 33: { C c( a ); C & q = ( c /= s ); same = &q == &c; z = c; } break;
    case 34: { C c( a ); c *= c; z = c; } break;
    case 35: { C c( a ); c += c; z = c; } break;
    case 36: { C c( a ); c /= c; z = c; } break;
    case 37: { I i( m_i[0], m_i[1] ); C c( a ); c += i; z = c; } break;
    case 38: z = C( abs( a ) ); break;
    case 39: z = sqrt( a ); break;
    case 42: z = std20::polar( m_a[0], m_b[0] ); break;
    case 43: z = std20::polar( m_a[0] ); break;
    case 40: { I i( m_i[0], m_i[1] ), j( m_i[2], m_i[3] ); I k = i + j, l = i - j; m_o[0] = k.real(); m_o[1] = k.imag(); m_o[2] = l.real(); m_o[3] = l.imag(); } break;
    case 41: { I i( m_i[0], m_i[1] ), j( m_i[2], m_i[3] ); I k = i * j, l = -i; m_o[0] = k.real(); m_o[1] = k.imag(); m_o[2] = l.real(); m_o[3] = l.imag(); } break;
    }
    m_r[0] = z.real(); m_r[1] = z.imag(); m_r[2] = r.real(); m_r[3] = r.imag(); m_same = same;
    // the operands are constant
    m_r[4] = a.real(); m_r[5] = b.imag();
}

int main() { for (;;) {} }
