// device side of K06: the update of the timing program's estimator, by itself
#define main timing_main
#include "../time/avr-kalman-time.cpp"
#undef main

inline void * operator new( decltype( sizeof 0 ), void * p ) { return p; }

using R = kalman::real_t;
static unsigned char room[ sizeof( kalman ) ] __attribute__((aligned(8)));

extern "C" __attribute__((noinline)) void set_up()
{
    R const dt = 1, ms = 10, as = 0.2;
    kalman::A_t const A = { R( 1 ), dt, R( 0 ), R( 1 ) };
    kalman::B_t const B = { dt * dt / R( 2 ), dt };
    kalman::H_t const H = { R( 1 ), R( 0 ) };
    kalman::xhat_t const x( R( 0 ) );
    R const q = as * as;
    kalman::Q_t const Q = { q / R( 4 ), q / R( 2 ), q / R( 2 ), q };
    kalman::R_t const r( ms * ms );
    for ( auto & b : room ) b = 0;
    new ( room ) kalman( dt, A, B, H, Q, r, Q, x );
}

extern "C" __attribute__((noinline)) void one_update()
{
    asm volatile( "" : : : "memory" );
    reinterpret_cast<kalman *>( room )->update( kalman::u_t( R( 1 ) ), kalman::z_t( R( 0.5 ) ) );
    asm volatile( "" : : : "memory" );
}

int main() { set_up(); one_update(); for ( ;; ) ; }
