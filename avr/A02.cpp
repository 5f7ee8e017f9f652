// device side of A02
#include "A02_ops.hpp"
using num::fixed_point;

#if ELEM == 0
using T = int16_t;
#elif ELEM == 1
using T = int32_t;
#elif ELEM == 2
using T = fixed_point<int32_t,15>;
#elif ELEM == 3
using T = float;
#elif ELEM == 4
using T = fixed_point<int16_t,7>;
#endif

inline void * operator new( decltype( sizeof 0 ), void * p ) { return p; }

extern "C" {
// raw storage: elements are moved as representations
volatile uint8_t m_in[max_in * sizeof(T)], m_out[max_out * sizeof(T)];
}
static T in_[max_in], out_[max_out];
static void fetch() { for ( unsigned i = 0; i < sizeof in_; ++i ) ( (uint8_t *) in_ )[i] = m_in[i]; }
static void store() { for ( unsigned i = 0; i < sizeof out_; ++i ) m_out[i] = ( (uint8_t *) out_ )[i]; }

extern "C" __attribute__((used)) void op( uint8_t which ) { fetch(); matrix_op<T>( which, in_, out_ ); store(); }

#if ELEM == 2 || ELEM == 3
template< int M, int U >
void est( uint8_t what )
{
    using E = Estimator<T,M,U>; using K = typename E::K;
    alignas( K ) static uint8_t mem[sizeof(K)];
    K * k = (K *) mem;
    fetch();
    if ( what == 0 ) new ( mem ) K( E::make( in_ ) ); else E::update( *k, in_ );
    E::observe( *k, out_, what != 0 );
    store();
}
#define EST( M, U ) extern "C" __attribute__((used)) void est_##M##U( uint8_t what ) { est<M,U>( what ); }
EST( 1, 1 ) EST( 1, 2 ) EST( 2, 1 ) EST( 2, 2 ) EST( 1, 3 )
#endif

int main() { for (;;) {} }
